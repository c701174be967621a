//! Documents in the meta language: what they are read as.
use crate::h_core::*;
use crate::prelude::*;
use crate::sx::*;

/// Structural comparison, with or without debug ids.
pub fn same_rule(a: &Rule, b: &Rule, ids: bool) -> bool {
    let st = |x: &Arc<String>, y: &Arc<String>| x.as_bytes() == y.as_bytes();
    let op = |x: &Option<Arc<String>>, y: &Option<Arc<String>>| match (x, y) { (None, None) => true, (Some(x), Some(y)) => x.as_bytes() == y.as_bytes(), _ => false };
    let id = |x: usize, y: usize| !ids || x == y;
    let all = |x: &Vec<Rule>, y: &Vec<Rule>| { if x.len() != y.len() { return false; } for i in 0..x.len() { if !same_rule(&x[i], &y[i], ids) { return false; } } true };
    match (a, b) {
        (Rule::Whitespace(x), Rule::Whitespace(y)) => x.optional == y.optional && id(x.debug_id, y.debug_id),
        (Rule::Tag(x), Rule::Tag(y)) => st(&x.text, &y.text) && x.not == y.not && x.inverted == y.inverted && op(&x.property, &y.property) && id(x.debug_id, y.debug_id),
        (Rule::UntilAny(x), Rule::UntilAny(y)) => st(&x.any_characters, &y.any_characters) && x.optional == y.optional && op(&x.property, &y.property) && id(x.debug_id, y.debug_id),
        (Rule::UntilAnyOrWhitespace(x), Rule::UntilAnyOrWhitespace(y)) => st(&x.any_characters, &y.any_characters) && x.optional == y.optional && op(&x.property, &y.property) && id(x.debug_id, y.debug_id),
        (Rule::Text(x), Rule::Text(y)) => x.allow_empty == y.allow_empty && op(&x.property, &y.property) && id(x.debug_id, y.debug_id),
        (Rule::Number(x), Rule::Number(y)) => x.allow_underscore == y.allow_underscore && op(&x.property, &y.property) && id(x.debug_id, y.debug_id),
        (Rule::Select(x), Rule::Select(y)) => all(&x.args, &y.args) && id(x.debug_id, y.debug_id),
        (Rule::FastSelect(x), Rule::FastSelect(y)) => { let mut i = 0; while i < 256 { if x.table[i] != y.table[i] { return false; } i += 1; } all(&x.args, &y.args) && x.tail == y.tail && id(x.debug_id, y.debug_id) }
        (Rule::Sequence(x), Rule::Sequence(y)) => all(&x.args, &y.args) && id(x.debug_id, y.debug_id),
        (Rule::SeparateBy(x), Rule::SeparateBy(y)) => same_rule(&x.rule, &y.rule, ids) && same_rule(&x.by, &y.by, ids) && x.optional == y.optional && x.allow_trail == y.allow_trail && id(x.debug_id, y.debug_id),
        (Rule::Repeat(x), Rule::Repeat(y)) => same_rule(&x.rule, &y.rule, ids) && x.optional == y.optional && id(x.debug_id, y.debug_id),
        (Rule::Lines(x), Rule::Lines(y)) => same_rule(&x.rule, &y.rule, ids) && x.indent == y.indent && id(x.debug_id, y.debug_id),
        (Rule::Node(x), Rule::Node(y)) => st(&x.name, &y.name) && op(&x.property, &y.property) && x.index == y.index && id(x.debug_id, y.debug_id),
        (Rule::Optional(x), Rule::Optional(y)) => same_rule(&x.rule, &y.rule, ids) && id(x.debug_id, y.debug_id),
        (Rule::Not(x), Rule::Not(y)) => same_rule(&x.rule, &y.rule, ids) && id(x.debug_id, y.debug_id),
        _ => false,
    }
}
pub fn same_syntax(a: &Syntax, b: &Syntax, ids: bool) -> bool {
    if a.rules.len() != b.rules.len() || a.names.len() != b.names.len() { return false; }
    for i in 0..a.rules.len() { if a.names[i].as_bytes() != b.names[i].as_bytes() || !same_rule(&a.rules[i], &b.rules[i], ids) { return false; } }
    true
}
/// Every debug id below a rule (parts of a dispatch tail share the id of their select).
pub fn ids_of(r: &Rule, v: &mut Vec<usize>) {
    match r {
        Rule::Whitespace(x) => v.push(x.debug_id),
        Rule::Tag(x) => v.push(x.debug_id),
        Rule::UntilAny(x) => v.push(x.debug_id),
        Rule::UntilAnyOrWhitespace(x) => v.push(x.debug_id),
        Rule::Text(x) => v.push(x.debug_id),
        Rule::Number(x) => v.push(x.debug_id),
        Rule::Node(x) => v.push(x.debug_id),
        Rule::Select(x) => { v.push(x.debug_id); for a in &x.args { ids_of(a, v); } }
        Rule::FastSelect(x) => { v.push(x.debug_id); for a in &x.args { ids_of(a, v); } }
        Rule::Sequence(x) => { v.push(x.debug_id); for a in &x.args { ids_of(a, v); } }
        Rule::SeparateBy(x) => { v.push(x.debug_id); ids_of(&x.rule, v); ids_of(&x.by, v); }
        Rule::Repeat(x) => { v.push(x.debug_id); ids_of(&x.rule, v); }
        Rule::Lines(x) => { v.push(x.debug_id); ids_of(&x.rule, v); }
        Rule::Optional(x) => { v.push(x.debug_id); ids_of(&x.rule, v); }
        Rule::Not(x) => { v.push(x.debug_id); ids_of(&x.rule, v); }
    }
}
pub fn observe_rule(r: &Rule) { let mut v = vec![]; ids_of(r, &mut v); observe(v.len() as u64); for i in v { observe(i as u64); } }

/// Writes constructs and the rules they are documented to build.
pub struct Doc {
    pub out: String,
    /// how many choices to offer: 0 one spelling each, 1 options, 2 options and named strings
    pub full: u32,
    /// separators between parts
    pub gaps: bool,
    /// symbolic characters in quotes, names and gaps
    pub sym: bool,
    /// the quoted text that is symbolic
    pub which: u32,
}
impl Doc {
    pub fn new(full: u32) -> Doc { Doc { out: String::new(), full, gaps: false, sym: false, which: 50 } }
    fn byte(&mut self, b: u8) { unsafe { self.out.as_mut_vec().push(b); } }
    /// One or two characters of any width, or an escape, between quotes.
    fn quoted(&mut self) -> Arc<String> {
        let plain = Set::range(0, 33).or(Set::range(35, 91)).or(Set::range(93, 127));
        let mut v = vec![];
        self.w("\"");
        let k = pick(4);
        match k {
            0 => { any_char(&mut v, 15, &plain); self.out.push_str(&string(v.clone())); }
            1 => { any_char(&mut v, 1, &plain); any_char(&mut v, 3, &plain); self.out.push_str(&string(v.clone())); }
            2 => {
                let i = pick(8) as usize;
                self.w("\\");
                self.byte(b"\"\\/bfnrt"[i]);
                v.push([34, 92, 47, 8, 12, 10, 13, 9][i]);
            }
            _ => {
                // \u00XX
                let (h, l) = (byte_in(&Set::range(b'0', b'7')), byte_in(&Set::range(b'0', b'9').or(Set::range(b'a', b'f')).or(Set::range(b'A', b'F'))));
                self.w("\\u00");
                self.byte(h);
                self.byte(l);
                let d = if l <= b'9' { l - b'0' } else { (l | 32) - b'a' + 10 };
                v.push((h - b'0') * 16 + d);
            }
        }
        self.w("\"");
        Arc::new(string(v))
    }
    fn w(&mut self, x: &str) { self.out.push_str(x); }
    fn opt(&mut self) -> bool { let o = if self.full > 0 { pick(2) == 1 } else { false }; self.w(if o { "?" } else { "!" }); o }
    /// Required space.
    fn gap(&mut self) {
        if self.sym { for _ in 0..1 + pick(2) { let b = one_of(b" \t\n\r"); self.byte(b); } return; }
        let k = if self.gaps { pick(4) } else { 0 }; self.w([" ", "\n  ", "\t", " \r\n\n"][k as usize]); }
    /// Optional space.
    fn maybe(&mut self) {
        if self.sym { if pick(2) == 1 { let b = one_of(b" \t\n\r"); self.byte(b); } return; }
        let k = if self.gaps { pick(3) } else { 0 }; self.w(["", " ", "\n\t"][k as usize]); }
    fn set(&mut self, inside: &str, can_ref: bool) -> Arc<String> {
        if can_ref && self.full > 1 && pick(2) == 1 { self.w("_str"); return s("s,\"\u{e9}"); }
        if self.sym && self.which == 0 { self.which = 99; return self.quoted(); }
        self.which -= 1;
        self.w("\"");
        self.w(inside);
        self.w("\"");
        s(inside)
    }
    fn prop(&mut self) -> Option<Arc<String>> {
        if self.full == 0 || pick(2) == 0 { return None; }
        self.w(":");
        Some(self.set("prop", true))
    }
    /// One construct, `k` says which.
    pub fn leaf(&mut self, k: u32) -> Rule {
        let id = 0;
        match k {
            0 => { self.w(".w"); let o = self.opt(); ws(o, id) }
            1 => { self.w(".."); let a = self.any(); let o = self.opt(); let p = self.prop(); Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: a, optional: o, property: p, debug_id: id }) }
            2 => { self.w("..."); let a = self.any(); let o = self.opt(); let p = self.prop(); Rule::UntilAny(UntilAny { any_characters: a, optional: o, property: p, debug_id: id }) }
            3 => {
                self.w(".$");
                let us = self.full > 0 && pick(2) == 1;
                if us { self.w("_"); }
                let p = self.prop();
                Rule::Number(Number { allow_underscore: us, property: p, debug_id: id })
            }
            4 => { self.w(".t"); let o = self.opt(); let p = self.prop(); Rule::Text(Text { allow_empty: o, property: p, debug_id: id }) }
            5 => {
                if self.sym && self.which == 0 {
                    self.which = 99;
                    // a name that is none of the document's
                    let mut v = vec![byte_in(&Set::range(b'A', b'Z').or(Set::of(b"a$%&'+-/;<>@^`|~*,#=0")))];
                    any_char(&mut v, 15, &Set::range(b'0', b'9').or(Set::range(b'A', b'Z')).or(Set::range(b'a', b'z')).or(Set::of(b"_$%&'*+,-/;<=>@^`|~#\\")));
                    let n = string(v);
                    for w in ["\u{85}", "\u{a0}", "\u{1680}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}"] { if n.as_bytes()[1..] == *w.as_bytes() { reject(); } }
                    let b = n.as_bytes();
                    if b.len() == 4 && b[1] == 0xe2 && b[2] == 0x80 && b[3] < 0x8b { reject(); }
                    self.out.push_str(&n);
                    let p = self.prop();
                    return Rule::Node(Node { name: Arc::new(n), property: p, index: None, debug_id: id });
                }
                let k = if self.full > 0 { pick(3) as usize } else { 0 };
                let n = ["n0", "n1", "nope"][k];
                self.w(n);
                let p = self.prop();
                Rule::Node(Node { name: s(n), property: p, index: [Some(0), Some(1), None][k], debug_id: id })
            }
            _ => {
                let not = self.full > 0 && pick(2) == 1;
                if not { self.w("!"); }
                let t = self.set("tok", true);
                let mut inv = false;
                let mut p = None;
                if self.full > 0 && pick(2) == 1 {
                    self.w(":");
                    if pick(2) == 1 { inv = true; self.w("!"); }
                    p = Some(self.set("prop", true));
                }
                tagx(t, not, inv, p, id)
            }
        }
    }
    fn any(&mut self) -> Arc<String> {
        if self.full > 0 && pick(2) == 1 { self.w("\"\""); return s(""); }
        self.set("(:", true)
    }
    pub fn any_leaf(&mut self) -> Rule { let k = pick(7); self.leaf(k) }
    /// A construct of at most the given depth.
    pub fn rule(&mut self, depth: u32) -> Rule {
        let k = pick(if depth == 0 { 7 } else { 14 });
        if k < 7 { self.leaf(k) } else { self.comp(k, depth - 1) }
    }
    /// A composite of small parts, for its gaps.
    pub fn comp_of(&mut self, k: u32) -> Rule {
        match k {
            7 => { self.w("["); self.maybe(); let a = self.small(); self.gap(); let b = self.small(); self.maybe(); self.w("]"); seq(vec![a, b], 0) }
            8 => { self.w("{"); self.maybe(); let a = self.small(); self.gap(); let b = self.small(); self.maybe(); self.w("}"); sel(vec![a, b], 0) }
            9 => { self.w(".s!("); self.maybe(); let by = self.small(); self.gap(); let r = self.small(); self.maybe(); self.w(")"); sep(r, by, false, false, 0) }
            _ => { self.w(".l("); self.maybe(); let a = self.small(); self.maybe(); self.w(")"); lines(a, false, 0) }
        }
    }
    pub fn comp(&mut self, k: u32, d: u32) -> Rule {
        match k {
            7 => { self.w("["); self.maybe(); let a = self.rule(d); let two = self.full == 0 || pick(2) == 1; let mut v = vec![a]; if two { self.gap(); let b = self.small(); v.push(b); } self.maybe(); self.w("]"); seq(v, 0) }
            8 => { self.w("{"); self.maybe(); let a = self.small(); self.gap(); let b = self.rule(d); self.maybe(); self.w("}"); sel(vec![a, b], 0) }
            9 => {
                self.w(".s");
                let o = self.opt2();
                let trail = pick(2) == 1;
                if trail { self.w("."); }
                self.w("(");
                self.maybe();
                let first = pick(2) == 1;
                let (by, r);
                if first { by = self.rule(d); self.gap(); r = self.small(); } else { by = self.small(); self.gap(); r = self.rule(d); }
                self.maybe();
                self.w(")");
                sep(r, by, o, trail, 0)
            }
            10 => { self.w("?"); let a = self.rule(d); opt(a, 0) }
            11 => {
                let at = self.out.len();
                self.w("!");
                let a = self.rule(d);
                // `!"token"` is the inverted token
                if self.out.as_bytes()[at + 1] == b'"' || self.out.as_bytes()[at + 1] == b'_' { reject(); }
                not(a, 0)
            }
            12 => { self.w(".r"); let o = self.opt2(); self.w("("); let a = self.rule(d); self.w(")"); rep(a, o, 0) }
            _ => { self.w(".l"); let i = pick(2) == 1; if i { self.w("+"); } self.w("("); self.maybe(); let a = self.rule(d); self.maybe(); self.w(")"); lines(a, i, 0) }
        }
    }
    fn opt2(&mut self) -> bool { let o = pick(2) == 1; self.w(if o { "?" } else { "!" }); o }
    fn small(&mut self) -> Rule { self.w("\"z\""); tag("z", 0) }
}

/// The document `top` and what it must be.
pub fn same_as(doc: &str, want: Syntax) {
    let plain = plain(doc);
    check(same_syntax(&plain, &want, false), 180);
    match piston_meta::syntax(doc) {
        Err(_) => fail(181),
        Ok(x) => { check(same_syntax(&x, &want.optimize(), false), 182); for r in &x.rules { observe_rule(r); } }
    }
}
const HEAD: &str = "_str: \"s,\\\"\u{e9}\"\n";
fn one(d: Doc, r: Rule, before: &str) {
    let doc = format!("{}{}0 n0 = \"q\"\n1 n1 = {}\n", HEAD, before, d.out);
    let mut x = Syntax::new();
    x.push(s("n0"), tag("q", 0));
    x.push(s("n1"), r);
    same_as(&doc, x);
    cover(0);
}
#[no_mangle] pub fn h_c11_leaf() { let mut d = Doc::new(2); let r = d.any_leaf(); one(d, r, "") }
#[no_mangle] pub fn h_c11_comp() { let mut d = Doc::new(1); let k = 7 + pick(7); let r = d.comp(k, 0); one(d, r, "") }
#[no_mangle] pub fn h_c11_two() { let mut d = Doc::new(0); let k = 7 + pick(7); let r = d.comp(k, 1); one(d, r, "") }
#[no_mangle] pub fn h_c11_three() { let mut d = Doc::new(0); let k = 7 + pick(7); let r = d.comp(k, 2); one(d, r, "") }
#[no_mangle] pub fn h_c11_gaps() { let mut d = Doc::new(0); d.gaps = true; let k = [7, 8, 9, 13][pick(4) as usize]; let r = d.comp(k, 0); one(d, r, ["", "\n", "// c\n", "/* c /* d */ * / */\n  // e\n"][pick(4) as usize]) }
/// Any characters inside quotes and in names, and any white space in the gaps.
#[no_mangle] pub fn h_c11_chars() { let mut d = Doc::new(2); d.sym = true; d.which = pick(2); let r = d.any_leaf(); if d.which < 50 { reject(); }; one(d, r, "") }
#[no_mangle] pub fn h_c11_space() { let mut d = Doc::new(0); d.sym = true; let k = [7, 8, 9, 13][pick(4) as usize]; let r = d.comp_of(k); one(d, r, "") }
/// Named strings of any characters, in every place that takes one.
#[no_mangle] pub fn h_c11_strings() {
    let mut d = Doc::new(0);
    d.sym = true;
    let form = pick(7);
    d.w("_s:");
    if pick(2) == 1 { d.w(" "); }
    let v = d.quoted();
    d.w(["\n", "\n_t: \"u\"\n", "\n // c\n"][pick(3) as usize]);
    let before = std::mem::replace(&mut d.out, String::new());
    d.w(["_s", "!_s", "\"t\":_s", ".._s!", "..._s?", ".t!:_s", "{x \"k\" _s}"][form as usize]);
    let u = |a: Arc<String>, o| UntilAny { any_characters: a, optional: o, property: None, debug_id: 0 };
    let r = match form {
        0 => tagx(v, false, false, None, 0),
        1 => tagx(v, true, false, None, 0),
        2 => tagx(s("t"), false, false, Some(v), 0),
        3 => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: v, optional: false, property: None, debug_id: 0 }),
        4 => Rule::UntilAny(u(v, true)),
        5 => Rule::Text(Text { allow_empty: false, property: Some(v), debug_id: 0 }),
        _ => sel(vec![node("x", None, None, 0), tag("k", 0), tagx(v, false, false, None, 0)], 0),
    };
    one(d, r, &before);
}

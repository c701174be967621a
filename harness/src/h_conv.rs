//! Converting meta data that did not come from the meta language.
use crate::h_docs::DOCS;
use crate::h_meta::*;
use crate::prelude::*;
use crate::sx::*;
use piston_meta::bootstrap;

const WORDS: [&str; 31] = ["node", "rule", "tag", "text", "property", "optional", "name", "id", "string", "by", "value", "ref",
    "sequence", "select", "repeat", "separated_by", "lines", "not", "reference", "number", "whitespace", "until_any", "until_any_or_whitespace",
    "any_characters", "indent", "underscore", "inverted", "allow_trail", "allow_empty", "", "other"];
const ODDS: [f64; 9] = [1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 1e300, 0.5, 18446744073709551.0, 18446744073709600.0];

fn made(kind: u32, name: &str, at: usize) -> Md {
    let n = s(name);
    let r = Range::new(at, 1);
    r.wrap(match kind {
        0 => MetaData::StartNode(n),
        1 => MetaData::EndNode(n),
        2 => MetaData::Bool(n, flag()),
        3 => MetaData::F64(n, if name == "id" { ODDS[pick(9) as usize] } else { 2.0 }),
        _ => MetaData::String(n, if name == "name" || name == "ref" { s(["s", "a", ""][pick(3) as usize]) } else { s("v") }),
    })
}
fn item(words: &[&str], at: usize) -> Md { let k = pick(5); let w = words[pick(words.len() as u32) as usize]; made(k, w, at) }

/// Converts, and looks at what comes out.
fn converted(d: &[Md]) {
    let mut ignored = vec![];
    let r = bootstrap::convert(d, &mut ignored);
    observe(ignored.len() as u64);
    for x in &ignored { check(x.next_offset() <= d.len(), 120); observe(x.offset as u64); }
    let mut starts = 0;
    for x in d { if let MetaData::StartNode(n) = &x.data { if n.as_bytes() == b"node" { starts += 1; } } }
    match r {
        Err(()) => cover(1),
        Ok(x) => {
            cover(0);
            check(x.rules.len() == x.names.len() && x.rules.len() <= starts, 121);
            if x.rules.len() > 0 { cover(2); }
            for r in &x.rules { observe_rule(r); }
            let n = x.rules.len();
            let o = x.optimize();
            check(o.rules.len() == n, 122);
        }
    }
}
fn tokens(doc: &str) -> Vec<Md> {
    let mut d = vec![];
    if piston_meta::parse(&bootstrap::rules(), doc, &mut d).is_err() { fail(999) }
    d
}
fn change(d: &mut Vec<Md>, words: &[&str]) {
    let p = pick(d.len() as u32) as usize;
    match pick(6) {
        0 => d[p] = item(words, p),
        1 => d.insert(p, item(words, p)),
        2 => { d.remove(p); }
        3 => d.truncate(p),
        4 => { let x = d[p].clone(); d.insert(p, x); }
        _ => { let q = pick(d.len() as u32) as usize; if q <= p || q > p + 3 { reject(); } d.swap(p, q); }
    }
}
#[no_mangle] pub fn h_c12_doc0() { let mut d = tokens(DOCS[0]); change(&mut d, &WORDS); converted(&d) }
#[no_mangle] pub fn h_c12_doc1() { let mut d = tokens(DOCS[1]); change(&mut d, &WORDS); converted(&d) }
const SMALL: [&str; 3] = ["1 a = .l(.w!)\n", "_s: \"x\"\n2 b = .s?.(_s b)\n", "3 c = ..\"k\"!:\"q\"\n"];
#[no_mangle] pub fn h_c12_twice() {
    let mut d = tokens(SMALL[pick(3) as usize]);
    let w = ["node", "rule", "optional", "text", "id", "name", "whitespace", "value"];
    change(&mut d, &w);
    if d.len() > 0 { change(&mut d, &w); }
    converted(&d)
}
/// Everything cut out of a document.
#[no_mangle] pub fn h_c12_part() {
    let d = tokens(DOCS[pick(3) as usize]);
    let a = pick(d.len() as u32 + 1) as usize;
    let b = pick(d.len() as u32 + 1) as usize;
    if b < a { reject(); }
    converted(&d[a..b])
}
/// A name of a length the format uses (or none of them), of any letters.
fn any_name() -> String {
    const LENGTHS: [u32; 15] = [4, 3, 8, 2, 6, 5, 9, 10, 12, 14, 11, 7, 23, 0, 1];
    let n = LENGTHS[pick(15) as usize];
    let set = Set::range(b'a', b'z').or(Set::of(b"_"));
    string((0..n).map(|_| byte_in(&set)).collect())
}
fn any_item(at: usize) -> Md {
    let k = pick(5);
    let n = Arc::new(any_name());
    Range::new(at, 1).wrap(match k {
        0 => MetaData::StartNode(n),
        1 => MetaData::EndNode(n),
        2 => MetaData::Bool(n, flag()),
        3 => MetaData::F64(n, ODDS[pick(9) as usize]),
        _ => MetaData::String(n, Arc::new(str_of(1, b"sav"))),
    })
}
/// Documents with one item of any name put in the place of another or between two.
fn named(doc: &str) {
    let mut d = tokens(doc);
    let p = pick(d.len() as u32) as usize;
    let x = any_item(p);
    if pick(2) == 0 { d[p] = x; } else { d.insert(p, x); }
    converted(&d)
}
#[no_mangle] pub fn h_c12_names0() { named(DOCS[0]) }
#[no_mangle] pub fn h_c12_names1() { named(DOCS[1]) }
/// Any items of any names.
#[no_mangle] pub fn h_c12_list3() { let k = pick(4) as usize; let d: Vec<Md> = (0..k).map(any_item).collect(); converted(&d) }
#[no_mangle] pub fn h_c12_list() { let k = pick(3) as usize; let d: Vec<Md> = (0..k).map(any_item).collect(); converted(&d) }
/// Any item of any name, before and after the fixed beginning of a node.
#[no_mangle] pub fn h_c12_start() {
    let w = |k: usize| match k { 0 => MetaData::StartNode(s("node")), 1 => MetaData::F64(s("id"), 5.0), 2 => MetaData::String(s("name"), s("a")), 3 => MetaData::StartNode(s("rule")), _ => MetaData::StartNode(s("tag")) };
    let n = 1 + pick(5) as usize;
    let mut d: Vec<Md> = (0..n).map(|i| Range::new(i, 1).wrap(w(i))).collect();
    for i in 0..2 { d.push(any_item(n + i)); }
    converted(&d)
}
/// Any short list.
fn any(n: u32, words: &[&str]) { let k = pick(n + 1) as usize; let d: Vec<Md> = (0..k).map(|i| item(words, i)).collect(); converted(&d) }
#[no_mangle] pub fn h_c12_any() { any(3, &["node", "rule", "string", "name", "id", "other"]) }
#[no_mangle] pub fn h_c12_any4() { any(4, &["node", "string", "name", "id"]) }
/// Any items inside a rule, or inside a composite in a rule.
#[no_mangle] pub fn h_c12_inside_names() { inside_of(2, true, &any_item) }
#[no_mangle] pub fn h_c12_inside_open() { inside_of(2, false, &any_item) }
fn inside(n: u32, words: &[&str], close: bool) { inside_of(n, close, &|i| item(words, i)) }
fn inside_of(n: u32, close: bool, item: &dyn Fn(usize) -> Md) {
    let mut d = vec![];
    let put = |d: &mut Vec<Md>, x: MetaData| { let r = Range::new(d.len(), 1); d.push(r.wrap(x)); };
    put(&mut d, MetaData::StartNode(s("node")));
    put(&mut d, MetaData::F64(s("id"), 5.0));
    put(&mut d, MetaData::String(s("name"), s("a")));
    put(&mut d, MetaData::StartNode(s("rule")));
    let outer = ["sequence", "select", "repeat", "separated_by", "lines", "not", "optional", "tag", "until_any", "text", "number", "reference", "whitespace", "until_any_or_whitespace"][pick(14) as usize];
    put(&mut d, MetaData::StartNode(s(outer)));
    let k = pick(n + 1) as usize;
    for i in 0..k { let x = item(i); d.push(x); }
    if close || pick(2) == 0 {
        put(&mut d, MetaData::EndNode(s(outer)));
        put(&mut d, MetaData::EndNode(s("rule")));
        put(&mut d, MetaData::EndNode(s("node")));
    }
    converted(&d)
}
#[no_mangle] pub fn h_c12_inside() { inside(2, &WORDS, false) }
#[no_mangle] pub fn h_c12_inside3() { inside(3, &["rule", "by", "whitespace", "optional", "property", "value", "name", "text"], true) }
/// Deep nesting, with one item missing, changed or too much on the way in or out.
#[no_mangle] pub fn h_c12_deep() {
    let n = [4usize, 12, 24][pick(3) as usize];
    let kind = pick(4) as usize;
    let (name, extra) = [("optional", None), ("sequence", None), ("repeat", Some("optional")), ("lines", None)][kind];
    let mut d = vec![];
    let put = |d: &mut Vec<Md>, x: MetaData| { let r = Range::new(d.len(), 1); d.push(r.wrap(x)); };
    put(&mut d, MetaData::StartNode(s("node")));
    put(&mut d, MetaData::F64(s("id"), 5.0));
    put(&mut d, MetaData::String(s("name"), s("a")));
    put(&mut d, MetaData::StartNode(s("rule")));
    for _ in 0..n { put(&mut d, MetaData::StartNode(s(name))); if let Some(e) = extra { put(&mut d, MetaData::Bool(s(e), true)); } put(&mut d, MetaData::StartNode(s("rule"))); }
    put(&mut d, MetaData::StartNode(s("whitespace"))); put(&mut d, MetaData::Bool(s("optional"), true)); put(&mut d, MetaData::EndNode(s("whitespace")));
    for _ in 0..n { put(&mut d, MetaData::EndNode(s("rule"))); put(&mut d, MetaData::EndNode(s(name))); }
    put(&mut d, MetaData::EndNode(s("rule")));
    put(&mut d, MetaData::EndNode(s("node")));
    if pick(2) == 1 { change(&mut d, &["rule", "optional", "other"]); }
    converted(&d)
}

// ---- equality ----

pub struct Pair { pub id: usize }
impl Pair {
    fn p(&self) -> Option<Arc<String>> { if pick(2) == 0 { None } else { Some(s1(one_of(b"pP"))) } }
    fn t(&self) -> Arc<String> { Arc::new(str_of(2, b"aA")) }
    /// Any terminal; one call gives one side of a comparison.
    pub fn leaf(&self) -> Rule { let k = pick(7); self.leaf_of(k) }
    pub fn leaf_of(&self, k: u32) -> Rule {
        let id = self.id + pick(2) as usize;
        match k {
            0 => ws(flag(), id),
            1 => tagx(self.t(), flag(), flag(), self.p(), id),
            2 => Rule::UntilAny(UntilAny { any_characters: self.t(), optional: flag(), property: self.p(), debug_id: id }),
            3 => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: self.t(), optional: flag(), property: self.p(), debug_id: id }),
            4 => Rule::Text(Text { allow_empty: flag(), property: self.p(), debug_id: id }),
            5 => Rule::Number(Number { allow_underscore: flag(), property: self.p(), debug_id: id }),
            _ => Rule::Node(Node { name: self.t(), property: self.p(), index: [None, Some(0), Some(1)][pick(3) as usize], debug_id: id }),
        }
    }
    fn small(&self) -> Rule { tagx(s1(one_of(b"ab")), flag(), false, None, self.id + pick(2) as usize) }
    pub fn comp(&self, k: u32) -> Rule {
        let id = self.id + pick(2) as usize;
        let args = |x: &Pair| { let n = pick(3); (0..n).map(|_| x.small()).collect::<Vec<_>>() };
        match k {
            0 => sel(args(self), id),
            1 => seq(args(self), id),
            2 => sep(self.small(), self.small(), flag(), flag(), id),
            3 => rep(self.small(), flag(), id),
            4 => lines(self.small(), flag(), id),
            5 => opt(self.small(), id),
            _ => not(self.small(), id),
        }
    }
}
fn compared(a: &Rule, b: &Rule) {
    let want = same_rule(a, b, true);
    check((a == b) == want, 123);
    check((b == a) == want, 124);
    check((a != b) != want, 125);
    let c = a.clone();
    check(&c == a && same_rule(&c, a, true), 126);
    observe(want as u64);
    if want { cover(0); } else { cover(1); }
}
#[no_mangle] pub fn h_c24_leaf() { let g = Pair { id: 3 }; let k = pick(7); let a = g.leaf_of(k); let b = g.leaf_of(k); compared(&a, &b) }
#[no_mangle] pub fn h_c24_comp() { let g = Pair { id: 3 }; let k = pick(7); let a = g.comp(k); let b = g.comp(k); compared(&a, &b) }
/// Texts and names of any characters; debug ids and numbers of references that are any number.
#[no_mangle] pub fn h_c24_any() {
    let n64 = || { let mut x = 0usize; for _ in 0..8 { x = x << 8 | byte() as usize; } x };
    let t = || Arc::new(any_str(1, 7, &ascii_all()));
    let k = pick(7);
    let one = || { let id = n64(); match k {
        0 => ws(flag(), id),
        1 => tagx(t(), flag(), flag(), None, id),
        2 => Rule::UntilAny(UntilAny { any_characters: t(), optional: flag(), property: None, debug_id: id }),
        3 => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: s(""), optional: flag(), property: Some(t()), debug_id: id }),
        4 => Rule::Text(Text { allow_empty: flag(), property: Some(t()), debug_id: id }),
        5 => Rule::Number(Number { allow_underscore: flag(), property: Some(t()), debug_id: id }),
        _ => Rule::Node(Node { name: t(), property: None, index: Some(n64()), debug_id: id }),
    } };
    let (a, b) = (one(), one());
    compared(&a, &b)
}
/// Rules of different kinds with the same parts.
#[no_mangle] pub fn h_c24_kinds() {
    let of = |k: u32| { let c = || tag("a", 1); let u = || s("a"); match k {
        0 => ws(true, 7), 1 => tagx(u(), false, false, None, 7), 2 => Rule::UntilAny(UntilAny { any_characters: u(), optional: true, property: None, debug_id: 7 }), 3 => until_w("a", true, None, 7),
        4 => text(true, None, 7), 5 => number(true, None, 7), 6 => node("a", None, None, 7), 7 => sel(vec![c()], 7), 8 => seq(vec![c()], 7), 9 => sep(c(), c(), true, true, 7), 10 => rep(c(), true, 7),
        11 => lines(c(), true, 7), 12 => opt(c(), 7), 13 => not(c(), 7), _ => piston_meta::optimize::optimize_rule(&sel(vec![tag("a", 1), tag("b", 2)], 7), &[]) } };
    let (i, j) = (pick(15), pick(15));
    let (a, b) = (of(i), of(j));
    check(same_rule(&a, &b, true) == (i == j), 999);
    compared(&a, &b)
}
/// What the optimizer makes: dispatch tables of symbolic selects.
fn select(max: u32) -> Rule {
    let n = pick(max + 1);
    let mut v = vec![];
    for i in 0..n { v.push(match pick(3) { 0 => tag(["a", "b", "cd"][pick(3) as usize], i as usize), 1 => tagx(s(["b", "\u{e9}"][pick(2) as usize]), true, false, None, i as usize), _ => ws(flag(), i as usize) }); }
    sel(v, 40)
}
fn optimized(max: u32) {
    let (a, b) = (select(max), select(max));
    let (x, y) = (syn(vec![a]).optimize(), syn(vec![b]).optimize());
    if let Rule::FastSelect(_) = x.rules[0] { cover(2); }
    compared(&x.rules[0], &y.rules[0]);
    let same = same_syntax(&x, &y, true);
    check((x == y) == same && (y == x) == same, 127);
    check(x.clone() == x, 128);
}
#[no_mangle] pub fn h_c24_select() { optimized(2) }
#[no_mangle] pub fn h_c24_select3() { optimized(3) }
/// Nested rules that differ somewhere.
#[no_mangle] pub fn h_c24_nested() {
    let one = || { let f = pick(3) as usize; seq(vec![sel(vec![opt(tag(["a", "b", "a"][f], 1), 2), tag("c", 3)], 4), sep(node("r0", Some("n"), Some(0), 5), rep(ws(pick(2) == 0, 6), pick(2) == 0, 7), true, pick(2) == 0, 8), not(lines(text(true, if pick(2) == 0 { None } else { Some("p") }, 9), pick(2) == 0, 10), 11)], 12) };
    let (a, b) = (one(), one());
    compared(&a, &b);
    let (x, y) = (syn(vec![a, tag("z", 1)]), syn(vec![b, tag("z", 1)]));
    check((x == y) == same_syntax(&x, &y, true), 127);
    let (x, y) = (x.optimize(), y.optimize());
    check((x == y) == same_syntax(&x, &y, true), 127);
    check(x.clone() == x, 128);
}
/// Syntaxes of different rules and names.
#[no_mangle] pub fn h_c24_syntax() {
    let one = || { let n = pick(3); let mut x = Syntax::new(); for _ in 0..n { x.push(Arc::new(str_of(1, b"ab")), tag(["x", "y"][pick(2) as usize], 1)); } x };
    let (x, y) = (one(), one());
    let same = same_syntax(&x, &y, true);
    check((x == y) == same && (y == x) == same, 127);
    check(x.clone() == x, 128);
    if same { cover(0); } else { cover(1); }
}
/// Documents read twice are equal; with a change they are equal exactly when the same is built.
#[no_mangle] pub fn h_c24_documents() {
    let w = |o: &mut String| o.push_str([".w?", ".w!", "\"a\"", "!\"a\"", "{\"a\" \"b\"}", "{\"a\" \"b\":\"p\"}", "?.t!", "n0"][pick(8) as usize]);
    let one = || { let mut o = "1 n0 = [".to_string(); w(&mut o); o.push(' '); w(&mut o); o.push_str("]\n"); o };
    let (a, b) = (one(), one());
    let (x, y) = match (piston_meta::syntax(&a), piston_meta::syntax(&b)) { (Ok(x), Ok(y)) => (x, y), _ => fail(129) };
    let same = a == b;
    check((x == y) == same, 127);
    check(same_syntax(&x, &y, true) == same, 999);
    if same { cover(0); } else { cover(1); }
}

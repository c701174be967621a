//! Documents in the meta language: names, ids, arbitrary text, and the description of the language in itself.
use crate::h_core::*;
use crate::h_meta::*;
use crate::prelude::*;
use crate::sx::*;
use piston_meta::bootstrap;

// ---- debug ids ----

fn distinct_in(r: &Rule, n: usize) {
    let mut v = vec![];
    ids_of(r, &mut v);
    for i in 0..v.len() {
        check(v[i] > n * 1000 && v[i] < n * 1000 + 1000, 130);
        for j in 0..i { check(v[i] != v[j], 131); }
    }
    observe(v.len() as u64);
}
fn numbered(d: Doc, n0: usize, n1: usize) {
    let doc = format!("_str: \"s\"\n{} n0 = [\"q\" .w! \"r\"]\n{} n1 = {}\n", n0, n1, d.out);
    let p = plain(&doc);
    check(p.rules.len() == 2, 132);
    distinct_in(&p.rules[0], n0);
    distinct_in(&p.rules[1], n1);
    // the optimized syntax has the same ids
    match piston_meta::syntax(&doc) {
        Err(_) => fail(133),
        Ok(x) => for k in 0..2 {
            let (mut a, mut b) = (vec![], vec![]);
            ids_of(&p.rules[k], &mut a);
            ids_of(&x.rules[k], &mut b);
            for i in &a { check(b.contains(i), 134); }
            for i in &b { check(a.contains(i), 134); }
        },
    }
    cover(0);
}
#[no_mangle] pub fn h_c13_leaf() { let mut d = Doc::new(2); let r = d.any_leaf(); let _ = r; numbered(d, 4, 17) }
#[no_mangle] pub fn h_c13_comp() { let mut d = Doc::new(1); let k = 7 + pick(7); d.comp(k, 0); numbered(d, 0, 1) }
#[no_mangle] pub fn h_c13_two() { let mut d = Doc::new(0); let k = 7 + pick(7); d.comp(k, 1); numbered(d, 3, 3) }
#[no_mangle] pub fn h_c13_three() { let mut d = Doc::new(0); let k = 7 + pick(7); d.comp(k, 2); numbered(d, 999, 1000000) }
/// Node numbers: symbolic digits, and numbers around the largest that can be multiplied.
#[no_mangle] pub fn h_c13_number() {
    // the number as written, and its value (capped)
    let (num, want): (String, u64) = match pick(3) {
        0 => {
            let mut v = vec![byte_in(&Set::range(b'1', b'9'))];
            for _ in 0..pick(3) { v.push(byte_in(&Set::range(b'0', b'9'))); }
            let n = v.iter().fold(0u64, |a, d| a * 10 + (*d - b'0') as u64);
            (string(v), n)
        }
        1 => {
            // at 2^64 / 1000 = 18446744073709551.6; a double there steps by 2 or 4
            let k = pick(8) as u64;
            let n = [18446744073709400u64, 18446744073709500, 18446744073709504, 18446744073709540, 18446744073709548, 18446744073709552, 18446744073709556, 18446744073709600][k as usize];
            (n.to_string(), n)
        }
        _ => {
            let k = pick(9) as usize;
            let big = u64::MAX;
            (["9007199254740992", "18446744073709551615", "18446744073709551616", "18446744073709552000", "99999999999999999999", "1e30", "1e300", "5e15", "0"][k].to_string(),
             [9007199254740992u64, big, big, big, big, big, big, 5000000000000000, 0][k])
        }
    };
    let doc = format!("{} a = [\"x\" {{\"y\" .w?}}]\n", num);
    // the last number with room for the ids of its rules
    const LAST: u64 = 18446744073709550;
    match piston_meta::syntax(&doc) {
        Ok(x) => {
            cover(0);
            check(want <= LAST, 135);
            let mut ids = vec![];
            ids_of(&x.rules[0], &mut ids);
            for i in &ids { let i = *i as u64; check(i > want * 1000 && i - want * 1000 < 1000, 130); observe(i); }
            for i in 0..ids.len() { for j in 0..i { check(ids[i] != ids[j], 131); } }
        }
        Err(e) => { cover(1); check(want >= LAST - 2, 136); check(e.next_offset() <= doc.len(), 137); }
    }
}
/// Many rules in one node.
#[no_mangle] pub fn h_c13_many() {
    let n = [10usize, 100, 300][pick(3) as usize];
    let mut o = String::new();
    for i in 0..n { o.push_str(["\"a\":\"p\" ", ".w? ", "?.$ ", "{.t? n0} "][i % 4]); }
    let mut d = Doc::new(0);
    d.out = format!("[{}]", o);
    numbered(d, 2, 5)
}
/// The id in the error is the id of the rule that failed, and the report starts with it.
#[no_mangle] pub fn h_c13_error() {
    let doc = "7 a = [\"a\" .w! \"b\"]\n12 b = {[\"c\" .$:\"n\"] [\"d\" .t!] [!\"e\" \"f\"] [\"e\" ..\"x\"! \"x\"]}\n205 c = [{a b} ?\";\" .r!(\"g\")]\n";
    let x = match piston_meta::syntax(doc) { Ok(x) => x, Err(_) => fail(999) };
    let p = plain(doc);
    let t = str_of(4, b"abcdefg \";x1");
    let mut toks = vec![];
    if let Err(e) = piston_meta::parse(&x, &t, &mut toks) {
        let (kind, id) = err_key(&e.data);
        observe(kind as u64);
        observe(id as u64);
        if kind == 13 { cover(1); return; }
        cover(0);
        // exactly one rule of the document has that id, and it can fail this way
        let mut found = 0;
        for (k, r) in p.rules.iter().enumerate() { found += count(r, kind, id, &e.data); let _ = k; }
        check(found == 1, 138);
        let m = match piston_meta::parse_errstr(&x, &t, &mut toks) { Err(m) => m, Ok(()) => fail(139) };
        check(m.starts_with(&format!("Error #{}, ", id)), 140);
    }
}
fn count(r: &Rule, kind: u32, id: usize, e: &ParseError) -> u32 {
    let sub = |v: &Vec<Rule>| v.iter().map(|a| count(a, kind, id, e)).sum::<u32>();
    match r {
        Rule::Whitespace(x) => (x.debug_id == id && kind == 1) as u32,
        Rule::Tag(x) => (x.debug_id == id && match e { ParseError::ExpectedTag(t, _) => !x.not && t == &x.text, ParseError::DidNotExpectTag(t, _) => x.not && t == &x.text, _ => false }) as u32,
        Rule::UntilAny(x) => (x.debug_id == id && kind == 3) as u32,
        Rule::UntilAnyOrWhitespace(x) => (x.debug_id == id && kind == 3) as u32,
        Rule::Text(x) => (x.debug_id == id && (kind == 6 || kind == 7 || kind == 8)) as u32,
        Rule::Number(x) => (x.debug_id == id && (kind == 4 || kind == 5)) as u32,
        // a select can report that nothing it could read was there
        Rule::Select(x) => sub(&x.args) + (x.debug_id == id && (kind == 3 || kind == 11)) as u32,
        Rule::FastSelect(x) => sub(&x.args),
        Rule::Sequence(x) => sub(&x.args),
        Rule::SeparateBy(x) => count(&x.rule, kind, id, e) + count(&x.by, kind, id, e),
        Rule::Repeat(x) => count(&x.rule, kind, id, e),
        Rule::Lines(x) => count(&x.rule, kind, id, e) + (x.debug_id == id && kind == 2) as u32,
        Rule::Node(x) => (x.debug_id == id && kind == 11) as u32,
        Rule::Optional(x) => count(&x.rule, kind, id, e),
        Rule::Not(x) => count(&x.rule, kind, id, e) + (x.debug_id == id && kind == 10) as u32,
    }
}

// ---- names ----

/// Letters that differ in themselves and in case only.
const NM: &[u8] = b"aAb";

fn first_of(names: &[Arc<String>], n: &str) -> Option<usize> {
    let mut i = 0;
    while i < names.len() { if names[i].as_bytes() == n.as_bytes() { return Some(i); } i += 1; }
    None
}
/// A reference in a place of every kind.
fn place(k: u32, nd: Rule) -> Rule {
    let z = |id| tag("z", id);
    match k {
        0 => nd,
        1 => seq(vec![z(40), nd], 41),
        2 => sel(vec![nd, z(40)], 41),
        3 => opt(nd, 41),
        4 => not(nd, 41),
        5 => rep(nd, false, 41),
        6 => sep(nd, z(40), false, false, 41),
        7 => sep(z(40), nd, false, false, 41),
        8 => lines(nd, flag(), 41),
        _ => seq(vec![opt(sel(vec![z(40), rep(nd, true, 42)], 43), 44), z(45)], 46),
    }
}
fn placed(r: &Rule) -> Option<usize> {
    match r {
        Rule::Node(n) => n.index,
        Rule::Sequence(x) => if let Rule::Tag(_) = x.args[0] { placed(&x.args[1]) } else { placed(&x.args[0]) },
        Rule::Select(x) => if let Rule::Tag(_) = x.args[0] { placed(&x.args[1]) } else { placed(&x.args[0]) },
        Rule::Optional(x) => placed(&x.rule),
        Rule::Not(x) => placed(&x.rule),
        Rule::Repeat(x) => placed(&x.rule),
        Rule::SeparateBy(x) => if let Rule::Tag(_) = x.rule { placed(&x.by) } else { placed(&x.rule) },
        Rule::Lines(x) => placed(&x.rule),
        _ => fail(150),
    }
}
/// update_refs on rules with symbolic names.
#[no_mangle] pub fn h_c14_names() { names(3) }
#[no_mangle] pub fn h_c14_names4() { names(4) }
fn names(max: u32) {
    let mut x = Syntax::new();
    let n = 1 + pick(max);
    for i in 0..n {
        let name = str_of(2, NM);
        let r = if i == n / 2 { place(pick(10), node(&str_of(2, NM), None, None, 7)) } else { tag("t", 8) };
        x.push(Arc::new(name), r);
    }
    update_refs(&mut x);
    let k = (n / 2) as usize;
    let name = name_in(&x.rules[k]);
    let want = first_of(&x.names, &name);
    check(placed(&x.rules[k]) == want, 151);
    observe(want.map_or(99, |i| i as u64));
    if want.is_some() { cover(0); } else { cover(1); }
    if want.map_or(false, |i| i < k) { cover(2); }
    if want.map_or(false, |i| i > k) { cover(3); }
    // resolving again changes nothing
    let y = x.clone();
    update_refs(&mut x);
    check(same_syntax(&x, &y, true), 152);
}
fn name_in(r: &Rule) -> Arc<String> {
    match r {
        Rule::Node(n) => n.name.clone(),
        Rule::Sequence(x) => if let Rule::Tag(_) = x.args[0] { name_in(&x.args[1]) } else { name_in(&x.args[0]) },
        Rule::Select(x) => if let Rule::Tag(_) = x.args[0] { name_in(&x.args[1]) } else { name_in(&x.args[0]) },
        Rule::Optional(x) => name_in(&x.rule),
        Rule::Not(x) => name_in(&x.rule),
        Rule::Repeat(x) => name_in(&x.rule),
        Rule::SeparateBy(x) => if let Rule::Tag(_) = x.rule { name_in(&x.by) } else { name_in(&x.rule) },
        Rule::Lines(x) => name_in(&x.rule),
        _ => fail(150),
    }
}
/// Node names in a document: duplicates, prefixes, forward and backward.
#[no_mangle] pub fn h_c14_doc() {
    let form = pick(4) as usize;
    let at = pick(3) as usize;
    let names: Vec<String> = (0..3).map(|_| str_n(1 + pick(2), NM)).collect();
    let used = str_n(1 + pick(2), NM);
    let mut doc = String::new();
    for i in 0..3 {
        doc.push((b'0' + i as u8) as char);
        doc.push(' ');
        doc.push_str(&names[i]);
        doc.push_str(" = ");
        if i == at { let f = [["", ""], ["[\"z\" ", ":\"p\"]"], ["{", " \"z\"}"], [".r?([.s!(\",\" ", ") \"z\"])"]][form]; doc.push_str(f[0]); doc.push_str(&used); doc.push_str(f[1]); } else { doc.push_str("\"k\""); }
        doc.push('\n');
    }
    let nm: Vec<Arc<String>> = names.iter().map(|n| Arc::new(n.clone())).collect();
    let want = first_of(&nm, &used);
    let p = plain(&doc);
    check(p.rules.len() == 3, 153);
    for i in 0..3 { check(p.names[i].as_bytes() == names[i].as_bytes(), 154); }
    let r = &p.rules[at];
    let got = match form {
        0 | 1 => placed(r),
        2 => placed(r),
        _ => if let Rule::Repeat(x) = r { if let Rule::Sequence(y) = &x.rule { placed(&y.args[0]) } else { fail(150) } } else { fail(150) },
    };
    check(got == want, 151);
    observe(got.map_or(99, |i| i as u64));
    if want.is_some() { cover(0); } else { cover(1); }
}
/// Named strings in a document: the first of that name.
#[no_mangle] pub fn h_c14_strings() {
    let form = pick(5) as usize;
    let n = 2 + pick(2) as usize;
    let names: Vec<String> = (0..n).map(|_| str_n(1 + pick(2), NM)).collect();
    let used = str_n(1 + pick(2), NM);
    let mut doc = String::new();
    for i in 0..n { doc.push('_'); doc.push_str(&names[i]); doc.push_str(": \"v"); doc.push((b'0' + i as u8) as char); doc.push_str("\"\n"); }
    let f = [["_", ""], ["\"t\":_", ""], [".._", "!"], ["..._", "?:\"p\""], [".t?:_", ""]][form];
    doc.push_str("1 n = ");
    doc.push_str(f[0]); doc.push_str(&used); doc.push_str(f[1]);
    doc.push('\n');
    let nm: Vec<Arc<String>> = names.iter().map(|n| Arc::new(n.clone())).collect();
    let mut d = vec![];
    if piston_meta::parse(&bootstrap::rules(), &doc, &mut d).is_err() { fail(155); }
    match (first_of(&nm, &used), bootstrap::convert(&d, &mut vec![])) {
        (Some(i), Ok(x)) => {
            cover(0);
            let v = ["v0", "v1", "v2"][i];
            let got = match &x.rules[0] {
                Rule::Tag(t) => if form == 0 { t.text.clone() } else { t.property.clone().unwrap() },
                Rule::UntilAnyOrWhitespace(u) => u.any_characters.clone(),
                Rule::UntilAny(u) => u.any_characters.clone(),
                Rule::Text(t) => t.property.clone().unwrap(),
                _ => fail(156),
            };
            check(got.as_bytes() == v.as_bytes(), 157);
        }
        (Some(_), Err(())) => fail(158),
        _ => cover(1),
    }
}
/// An undefined name only matters where it is reached.
#[no_mangle] pub fn h_c14_undefined() {
    let u = || Rule::Node(Node { name: s("nope"), property: None, index: None, debug_id: 77 });
    let r = match pick(6) {
        0 => sel(vec![tagp("a", "a", 1), u()], 2),
        1 => seq(vec![tagp("a", "a", 1), opt(u(), 2), tag("b", 3)], 4),
        2 => seq(vec![tagp("a", "a", 1), u()], 2),
        3 => sel(vec![u(), tagp("a", "a", 1)], 2),
        4 => seq(vec![opt(seq(vec![tag("a", 1), u()], 2), 3), tagp("a", "x", 4), not(u(), 5)], 6),
        _ => rep(sel(vec![tagp("a", "a", 1), seq(vec![tag("b", 2), u()], 3)], 4), true, 5),
    };
    let mut x = syn(vec![tag("q", 50), r]);
    update_refs(&mut x);
    let t = str_of(3, AB);
    judge(Q::Full, &x, &t, IndentSettings::default());
    judge(Q::Opt, &x, &t, IndentSettings::default());
}

// ---- arbitrary text ----

pub const DOCS: [&str; 3] = [
    "_s: \"x\"\n1 a = [.w? \"t\":_s !\"u\":!\"p\" ..\"a\"!:\"n\" ...\"b\"? .$_:\"f\" .t!:\"g\"]\n2 b = {a:\"a\" .s?.(\",\" a) ?.r!(\"x\") !.l+(b)}\n",
    "/* c */\n0 a = .l(\"k\")\n// d\n7 doc = [a a:\"n\" {\"b\" \"c\" [\"d\" .w!]}]\n",
    "_q: \"\\u0041\\n\"\n12 a = _q\n",
];
pub fn total(doc: &str) {
    let r = piston_meta::syntax(doc);
    match &r {
        Ok(x) => {
            cover(0);
            check(x.rules.len() == x.names.len(), 170);
            // one rule per node definition
            let mut d = vec![];
            match piston_meta::parse(&bootstrap::rules(), doc, &mut d) { Ok(()) => {} Err(_) => fail(171) }
            let (mut depth, mut n) = (0, 0);
            for i in &d { match &i.data { MetaData::StartNode(x) => { if depth == 0 && x.as_bytes() == b"node" { n += 1; } depth += 1; } MetaData::EndNode(_) => depth -= 1, _ => {} } }
            check(n == x.rules.len(), 172);
            observe(n as u64);
        }
        Err(e) => {
            cover(1);
            check(e.next_offset() <= doc.len() && doc.is_char_boundary(e.offset), 173);
            observe(e.offset as u64);
            match piston_meta::syntax_errstr(doc) { Ok(_) => fail(174), Err(m) => check(m.starts_with("Error "), 175) }
        }
    }
}
/// A document with one change somewhere.
pub fn mutated(doc: &str, from: usize, to: usize, set: &[u8]) -> String {
    let mut v = doc.as_bytes().to_vec();
    let p = from + pick((to - from) as u32) as usize;
    match pick(5) {
        0 => v[p] = one_of(set),
        1 => v.insert(p, one_of(set)),
        2 => { v.remove(p); }
        3 => v.truncate(p),
        _ => { let w = WIDE_LETTERS[pick(3) as usize].as_bytes(); for (i, b) in w.iter().enumerate() { v.insert(p + i, *b); } }
    }
    string(v)
}
const ODD: &[u8] = b"\"\\ \n[]{}().:!?=_$wtrsl0a/*,+";
#[no_mangle] pub fn h_c15_doc0() { total(&mutated(DOCS[0], 0, DOCS[0].len(), ODD)) }
#[no_mangle] pub fn h_c15_doc1() { total(&mutated(DOCS[1], 0, DOCS[1].len(), ODD)) }
#[no_mangle] pub fn h_c15_doc2() { total(&mutated(DOCS[2], 0, DOCS[2].len(), ODD)) }
#[no_mangle] pub fn h_c15_short() { total(&str_of(4, b"\"_a:=1. \n[]w?/*")) }
/// The right side of a rule is anything.
#[no_mangle] pub fn h_c15_rule() { let r = str_of(4, b"\"_a:=1. [{(w?!$tsrl"); total(&format!("1 a = {}\n", r)) }
#[no_mangle] pub fn h_c15_rule5() { let r = str_of(5, b"\"_a:=1. [{(w?!$tsrl"); total(&format!("1 a = {}\n", r)) }
/// Long lines of wide and narrow characters around a place that cannot be read.
#[no_mangle] pub fn h_c15_long() {
    let fill = ["\u{e9}", "x", "\u{3042}", "x\u{1f600}", "\t"][pick(5) as usize];
    let n = [1, 20, 49, 60, 75, 99, 130][pick(7) as usize];
    let mut o = String::new();
    for _ in 0..pick(4) { o.push('y'); }
    for _ in 0..n { o.push_str(fill); }
    let a = str_of(1, ODD);
    let doc = match pick(4) {
        0 => format!("1 a = [\"{}\" {}]]\n", o, a),
        1 => format!("1 a = [{} {} \"b\n", o, a),
        2 => format!("// {}\n1 {} = \"{}\"{}", o, o, o, a),
        _ => format!("_{}: \"{}\n{}\\q\" {}", o, o, o, a),
    };
    total(&doc)
}
/// References of every shape, left recursive ones as well.
#[no_mangle] pub fn h_c15_refs() {
    let mut d = String::new();
    let n = 2;
    for i in 0..n {
        let form = pick(8) as usize;
        let x = ["a", "b", "c"][pick(3) as usize];
        d.push_str(&format!("{} {} = {}\n", i, ["a", "b"][i], ["X", "[X \"t\"]", "{X X}", "{\"t\" X \"u\"}", "[?\"t\" X]", ".r?(X)", ".s!(X X)", "{{X} !!X}"][form].replace('X', x)));
    }
    total(&d)
}

// ---- the language in itself ----

const SELF: &str = include_str!("/repo/assets/self-syntax.txt");
pub fn both(doc: &str, own: &Syntax, built: &Syntax) {
    let (mut a, mut b) = (vec![], vec![]);
    let ra = piston_meta::parse(own, doc, &mut a);
    let rb = piston_meta::parse(built, doc, &mut b);
    check(ra.is_ok() == rb.is_ok(), 230);
    if rb.is_ok() { check(same_tokens(&a, &b), 231); cover(0); observe_tokens(&b); } else { cover(1); }
}
pub fn own() -> Syntax { match piston_meta::syntax(SELF) { Ok(x) => x, Err(_) => fail(999) } }
#[no_mangle] pub fn h_c23_fixpoint() {
    let o = own();
    let mut d = vec![];
    if piston_meta::parse(&o, SELF, &mut d).is_err() { fail(232); }
    let again = match bootstrap::convert(&d, &mut vec![]) { Ok(x) => x, Err(()) => fail(233) };
    check(same_syntax(&again.optimize(), &o, true), 234);
    both(SELF, &o, &bootstrap::rules());
}
#[no_mangle] pub fn h_c23_doc0() { let (o, b) = (own(), bootstrap::rules()); both(&mutated(DOCS[0], 0, DOCS[0].len(), ODD), &o, &b) }
#[no_mangle] pub fn h_c23_doc1() { let (o, b) = (own(), bootstrap::rules()); both(&mutated(DOCS[1], 0, DOCS[1].len(), ODD), &o, &b) }
#[no_mangle] pub fn h_c23_short() { let (o, b) = (own(), bootstrap::rules()); both(&str_of(4, b"\"_a:=1. \n[]w?/*"), &o, &b) }
#[no_mangle] pub fn h_c23_rule() { let (o, b) = (own(), bootstrap::rules()); let r = str_of(4, b"\"_a:=1. [{(w?!$tsrl"); both(&format!("1 a = {}\n", r), &o, &b) }
#[no_mangle] pub fn h_c23_comment() { let (o, b) = (own(), bootstrap::rules()); let r = str_of(5, b"*/\n a"); both(&format!("/*{}1 a = \"x\"\n", r), &o, &b) }
#[no_mangle] pub fn h_c23_leaf() { let (o, b) = (own(), bootstrap::rules()); let mut d = Doc::new(2); d.any_leaf(); both(&format!("_str: \"x\"\n1 a = {}\n", d.out), &o, &b) }
#[no_mangle] pub fn h_c23_comp() { let (o, b) = (own(), bootstrap::rules()); let mut d = Doc::new(1); let k = 7 + pick(7); d.comp(k, 0); both(&format!("_str: \"x\"\n1 a = {}\n", d.out), &o, &b) }
#[no_mangle] pub fn h_c23_two() { let (o, b) = (own(), bootstrap::rules()); let mut d = Doc::new(0); d.gaps = true; let k = 7 + pick(7); d.comp(k, 0); both(&format!("_str: \"x\"\n1 a = {}\n", d.out), &o, &b) }

/// Any characters inside quotes and in names.
#[no_mangle] pub fn h_c23_chars() { let (o, b) = (own(), bootstrap::rules()); let mut d = Doc::new(2); d.sym = true; d.which = pick(2); d.any_leaf(); if d.which < 50 { reject(); } both(&format!("_str: \"x\"\n1 a = {}\n", d.out), &o, &b) }

//! Builders shared by the harnesses.
#![allow(dead_code)]
use crate::sx::*;
pub use piston_meta::meta_rules::*;
pub use piston_meta::{MetaData, ParseError, Range, Syntax};
pub use std::sync::Arc;

pub type Md = Range<MetaData>;
pub fn s(x: &str) -> Arc<String> { Arc::new(x.to_string()) }
pub fn s1(b: u8) -> Arc<String> { Arc::new(string(vec![b])) }
/// Bytes to a string; the callers only build valid UTF-8.
pub fn string(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }

pub fn tag(t: &str, id: usize) -> Rule { Rule::Tag(Tag { text: s(t), not: false, inverted: false, property: None, debug_id: id }) }
pub fn tagp(t: &str, p: &str, id: usize) -> Rule { Rule::Tag(Tag { text: s(t), not: false, inverted: false, property: Some(s(p)), debug_id: id }) }
pub fn tagx(t: Arc<String>, not: bool, inverted: bool, p: Option<Arc<String>>, id: usize) -> Rule { Rule::Tag(Tag { text: t, not, inverted, property: p, debug_id: id }) }
pub fn ws(optional: bool, id: usize) -> Rule { Rule::Whitespace(Whitespace { optional, debug_id: id }) }
pub fn until(any: &str, optional: bool, p: Option<&str>, id: usize) -> Rule { Rule::UntilAny(UntilAny { any_characters: s(any), optional, property: p.map(s), debug_id: id }) }
pub fn until_w(any: &str, optional: bool, p: Option<&str>, id: usize) -> Rule { Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: s(any), optional, property: p.map(s), debug_id: id }) }
pub fn text(allow_empty: bool, p: Option<&str>, id: usize) -> Rule { Rule::Text(Text { allow_empty, property: p.map(s), debug_id: id }) }
pub fn number(us: bool, p: Option<&str>, id: usize) -> Rule { Rule::Number(Number { allow_underscore: us, property: p.map(s), debug_id: id }) }
pub fn sel(args: Vec<Rule>, id: usize) -> Rule { Rule::Select(Select { args, debug_id: id }) }
pub fn seq(args: Vec<Rule>, id: usize) -> Rule { Rule::Sequence(Sequence { args, debug_id: id }) }
pub fn opt(rule: Rule, id: usize) -> Rule { Rule::Optional(Box::new(Optional { rule, debug_id: id })) }
pub fn not(rule: Rule, id: usize) -> Rule { Rule::Not(Box::new(Not { rule, debug_id: id })) }
pub fn rep(rule: Rule, optional: bool, id: usize) -> Rule { Rule::Repeat(Box::new(Repeat { rule, optional, debug_id: id })) }
pub fn sep(rule: Rule, by: Rule, optional: bool, allow_trail: bool, id: usize) -> Rule { Rule::SeparateBy(Box::new(SeparateBy { rule, by, optional, allow_trail, debug_id: id })) }
pub fn lines(rule: Rule, indent: bool, id: usize) -> Rule { Rule::Lines(Box::new(Lines { rule, indent, debug_id: id })) }
pub fn node(name: &str, p: Option<&str>, index: Option<usize>, id: usize) -> Rule { Rule::Node(Node { name: s(name), property: p.map(s), index, debug_id: id }) }

/// A syntax of the given rules, named r0, r1, ...
pub fn syn(rules: Vec<Rule>) -> Syntax {
    let mut x = Syntax::new();
    for (i, r) in rules.into_iter().enumerate() { x.push(Arc::new(format!("r{}", i)), r); }
    x
}

/// Characters of several bytes: letters and white space of 2, 3 and 4 bytes.
pub const WIDE: [&str; 6] = ["\u{e9}", "\u{3042}", "\u{1f600}", "\u{85}", "\u{3000}", "\u{a0}"];
pub const WIDE_LETTERS: [&str; 3] = ["\u{e9}", "\u{3042}", "\u{1f600}"];

/// 0..=max bytes of a set.
pub fn bytes(max: u32, set: &[u8]) -> Vec<u8> {
    let n = pick(max + 1);
    let st = Set::of(set);
    (0..n).map(|_| byte_in(&st)).collect()
}
pub fn str_of(max: u32, set: &[u8]) -> String { string(bytes(max, set)) }
/// Exactly n bytes of a set.
pub fn str_n(n: u32, set: &[u8]) -> String {
    let st = Set::of(set);
    string((0..n).map(|_| byte_in(&st)).collect())
}
/// 0..=max slots, each a byte of the set or one of the wide characters.
pub fn wide_of(max: u32, set: &[u8], wide: &[&str], max_wide: u32) -> String {
    let n = pick(max + 1);
    let st = Set::of(set);
    let mut v = vec![];
    let mut left = max_wide;
    for _ in 0..n {
        let k = if left == 0 { 0 } else { pick(wide.len() as u32 + 1) };
        if k == 0 { v.push(byte_in(&st)); } else { left -= 1; v.extend_from_slice(wide[k as usize - 1].as_bytes()); }
    }
    string(v)
}

pub fn observe_tokens(t: &[Md]) {
    observe(t.len() as u64);
    for d in t {
        observe(d.offset as u64);
        observe(d.length as u64);
        match &d.data {
            MetaData::StartNode(n) => { observe(1); observe_bytes(n.as_bytes()); }
            MetaData::EndNode(n) => { observe(2); observe_bytes(n.as_bytes()); }
            MetaData::Bool(n, v) => { observe(3); observe_bytes(n.as_bytes()); observe(*v as u64); }
            MetaData::F64(n, v) => { observe(4); observe_bytes(n.as_bytes()); observe(v.to_bits()); }
            MetaData::String(n, v) => { observe(5); observe_bytes(n.as_bytes()); observe_bytes(v.as_bytes()); }
        }
    }
}
/// (kind, id) of an error.
pub fn err_key(e: &ParseError) -> (u32, usize) {
    match e {
        ParseError::ExpectedWhitespace(i) => (1, *i),
        ParseError::ExpectedNewLine(i) => (2, *i),
        ParseError::ExpectedSomething(i) => (3, *i),
        ParseError::ExpectedNumber(i) => (4, *i),
        ParseError::ParseNumberError(_, i) => (5, *i),
        ParseError::ExpectedText(i) => (6, *i),
        ParseError::EmptyTextNotAllowed(i) => (7, *i),
        ParseError::ParseStringError(_, i) => (8, *i),
        ParseError::ExpectedTag(_, i) => (9, *i),
        ParseError::DidNotExpectTag(_, i) => (10, *i),
        ParseError::InvalidRule(_, i) => (11, *i),
        ParseError::NoRules => (12, 0),
        ParseError::ExpectedEnd => (13, 0),
        ParseError::Conversion(_) => (14, 0),
    }
}
pub fn observe_result(r: &Result<(), Range<ParseError>>, t: &[Md]) {
    match r {
        Ok(()) => observe(1000),
        Err(e) => { let k = err_key(&e.data); observe(2000); observe(e.offset as u64); observe(e.length as u64); observe(k.0 as u64); observe(k.1 as u64); }
    }
    observe_tokens(t);
}
pub fn same_tokens(a: &[Md], b: &[Md]) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() {
        if a[i].offset != b[i].offset || a[i].length != b[i].length { return false; }
        let ok = match (&a[i].data, &b[i].data) {
            (MetaData::StartNode(x), MetaData::StartNode(y)) => x.as_bytes() == y.as_bytes(),
            (MetaData::EndNode(x), MetaData::EndNode(y)) => x.as_bytes() == y.as_bytes(),
            (MetaData::Bool(x, u), MetaData::Bool(y, v)) => x.as_bytes() == y.as_bytes() && *u == *v,
            (MetaData::F64(x, u), MetaData::F64(y, v)) => x.as_bytes() == y.as_bytes() && (u.to_bits() == v.to_bits() || { let d = (u - v).abs(); d <= v.abs() * 1e-12 }),
            (MetaData::String(x, u), MetaData::String(y, v)) => x.as_bytes() == y.as_bytes() && u.as_bytes() == v.as_bytes(),
            _ => false,
        };
        if !ok { return false; }
    }
    true
}

/// One character, any of the given widths (a bit set: 1, 2, 4 and 8 for 1 to 4 bytes); no surrogates. ASCII comes from `ascii`.
pub fn any_char(v: &mut Vec<u8>, widths: u32, ascii: &Set) {
    let mut ks = vec![];
    for k in 0..4 { if widths >> k & 1 == 1 { ks.push(k); } }
    let c = Set::range(0x80, 0xbf);
    match ks[pick(ks.len() as u32) as usize] {
        0 => v.push(byte_in(ascii)),
        1 => { v.push(byte_in(&Set::range(0xc2, 0xdf))); v.push(byte_in(&c)); }
        2 => match pick(3) {
            0 => { v.push(0xe0); v.push(byte_in(&Set::range(0xa0, 0xbf))); v.push(byte_in(&c)); }
            1 => { v.push(byte_in(&Set::range(0xe1, 0xec).or(Set::range(0xee, 0xef)))); v.push(byte_in(&c)); v.push(byte_in(&c)); }
            _ => { v.push(0xed); v.push(byte_in(&Set::range(0x80, 0x9f))); v.push(byte_in(&c)); }
        },
        _ => match pick(3) {
            0 => { v.push(0xf0); v.push(byte_in(&Set::range(0x90, 0xbf))); v.push(byte_in(&c)); v.push(byte_in(&c)); }
            1 => { v.push(byte_in(&Set::range(0xf1, 0xf3))); v.push(byte_in(&c)); v.push(byte_in(&c)); v.push(byte_in(&c)); }
            _ => { v.push(0xf4); v.push(byte_in(&Set::range(0x80, 0x8f))); v.push(byte_in(&c)); v.push(byte_in(&c)); }
        },
    }
}
pub fn any_str(max: u32, widths: u32, ascii: &Set) -> String {
    let n = pick(max + 1);
    let mut v = vec![];
    for _ in 0..n { any_char(&mut v, widths, ascii); }
    string(v)
}
pub fn ascii_all() -> Set { Set::range(0, 127) }

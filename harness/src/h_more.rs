//! Deeper versions of other harnesses, and the inputs of the known findings.
use crate::h_core::*;
use crate::h_docs::*;
use crate::prelude::*;
use crate::sx::*;
use piston_meta::bootstrap;

// ---- known findings: faults of the read_token crate that show through parse ----

/// An exponent of 2^32 and a little more is cut to 32 bits.
#[no_mangle] pub fn h_kf_number() {
    let mut v = b"1e42949672".to_vec();
    v.push(byte_in(&Set::range(b'0', b'9')));
    v.push(byte_in(&Set::range(b'0', b'9')));
    let mut toks: Vec<Md> = vec![];
    let x = syn(vec![number(flag(), Some("n"), 1)]);
    let r = piston_meta::parse(&x, &string(v), &mut toks);
    observe_result(&r, &toks);
    // ten to the power of four thousand million is no number; it has to be rejected or read as infinite
    if r.is_ok() { if let MetaData::F64(_, n) = &toks[0].data { check(n.is_infinite(), 32); } }
    cover(0);
}
/// An exponent of twenty digits overflows.
#[no_mangle] pub fn h_kf_exponent() {
    let mut v = b"1e".to_vec();
    if pick(2) == 1 { v.push(one_of(b"+-")); }
    v.push(byte_in(&Set::range(b'2', b'9')));
    for _ in 0..18 { v.push(b'0'); }
    v.push(byte_in(&Set::range(b'0', b'9')));
    let mut toks: Vec<Md> = vec![];
    let x = syn(vec![number(flag(), Some("n"), 1)]);
    let r = piston_meta::parse(&x, &string(v), &mut toks);
    observe_result(&r, &toks);
    cover(0);
}
fn wide_line(end: bool) -> (Rule, String) {
    let mut v = b"a".to_vec();
    v.extend_from_slice(["\u{85}", "\u{3000}", "\u{a0}"][pick(3) as usize].as_bytes());
    if end { v.push(b'\n'); }
    if pick(2) == 1 { v.push(one_of(b"ab\n")); }
    (lines(tagp("a", "i", 1), false, 2), string(v))
}
/// White space of several bytes between the end of an item and its new line.
#[no_mangle] pub fn h_kf_lines() { let (r, t) = wide_line(false); cover(0); judge(Q::Full, &syn(vec![r]), &t, IndentSettings::default()) }
#[no_mangle] pub fn h_kf_lines_panic() { let (r, t) = wide_line(true); cover(0); judge(Q::Total, &syn(vec![r]), &t, IndentSettings::default()) }

// ---- literals among alternatives ----

/// Numbers and strings that fail in or after them, with other alternatives that get some way into the same text.
fn literal_alternatives(q: Q, max: u32) {
    let num = pick(2) == 0;
    let lit = |id| if num { number(flag(), if pick(2) == 1 { Some("n") } else { None }, id) } else { text(flag(), if pick(2) == 1 { Some("t") } else { None }, id) };
    let other = if num { seq(vec![tag("1", 11), opt(tag("e", 12), 13), tag("x", 14)], 15) } else { seq(vec![tag("\"", 11), opt(tag("\\", 12), 13), tag("x", 14)], 15) };
    let r = match pick(4) {
        0 => sel(vec![lit(1), other], 2),
        1 => sel(vec![other, lit(1)], 2),
        2 => seq(vec![opt(lit(1), 2), opt(other, 3), tag("y", 4)], 5),
        _ => rep(sel(vec![seq(vec![lit(1), tag("y", 2)], 3), other], 4), true, 5),
    };
    let t = if num { str_of(max, b"15e-.xy_") } else { let mut v = vec![b'"']; v.extend_from_slice(&bytes(max, b"\"\\nuxy0")); string(v) };
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
#[no_mangle] pub fn h_c08_literals() { literal_alternatives(Q::Err, 5) }
#[no_mangle] pub fn h_c09_literals() { literal_alternatives(Q::Opt, 4) }
/// The last rule reads the document, whatever the rules are called.
#[no_mangle] pub fn h_c01_names() {
    let n = 1 + pick(3);
    let mut x = Syntax::new();
    for i in 0..n {
        let name = ["document", "doc", "root", "main", "a", ""][pick(6) as usize];
        x.push(s(name), tagp(["a", "b", "c"][i as usize], "p", i as usize));
    }
    judge(Q::Full, &x, &str_of(2, b"abc"), IndentSettings::default());
    if n > 1 { cover(4); }
}

// ---- deeper bounds ----

#[no_mangle] pub fn h_c01_two7() { f_two(Q::Accept, 7) }
#[no_mangle] pub fn h_c01_lines6() { f_lines(Q::Accept, 13, 6, 6, b"ab \n", false) }
#[no_mangle] pub fn h_c01_json9() { f_json(Q::Accept, 9) }
#[no_mangle] pub fn h_c03_two7() { f_two(Q::Peg, 7) }
#[no_mangle] pub fn h_c02_num6() { let t = str_of(6, b"0179.eE+-_ a"); judge(Q::Full, &syn(vec![seq(vec![number(flag(), Some("n"), 1), until("", true, Some("rest"), 2)], 3)]), &t, IndentSettings::default()) }
#[no_mangle] pub fn h_c02_text7() { let t = str_of(7, b"\"\\nuax\n\0"); judge(Q::Full, &syn(vec![seq(vec![text(flag(), Some("t"), 1), until("", true, Some("rest"), 2)], 3)]), &t, IndentSettings::default()) }
#[no_mangle] pub fn h_c15_all0() { total(&mutated(DOCS[0], 0, DOCS[0].len(), &all())) }
#[no_mangle] pub fn h_c15_all1() { total(&mutated(DOCS[1], 0, DOCS[1].len(), &all())) }
#[no_mangle] pub fn h_c23_rule5() { let o = own(); let b = bootstrap::rules(); let r = str_of(5, b"\"_a:=1. [{(w?!$tsrl"); both(&format!("1 a = {}\n", r), &o, &b) }
fn all() -> Vec<u8> { (0..128).collect() }

//! The optimizer: same reading before and after, and what its analysis claims.
use crate::gen::*;
use crate::h_core::*;
use crate::prelude::*;
use crate::sx::*;
use piston_meta::optimize::{unique_byte, unique_table_from_select};
use piston_meta::tokenizer::TokenizerState;

const ALL_LEAVES: &[L] = &[L::Tag, L::TagNot, L::Tag2, L::TagEmpty, L::Ws, L::Until, L::Text, L::Num, L::Node, L::Loop];

/// Alternatives of every kind of first byte.
fn alt(g: &mut Gen) -> Rule {
    let id = { g.id += 1; 50 + g.id };
    let a = |g: &mut Gen| g.leaf_of(L::Tag);
    match pick(9) {
        0 => a(g),
        1 => g.leaf_of(L::Text),
        2 => { let x = a(g); let y = a(g); seq(vec![x, y], id) }
        3 => { let x = a(g); let y = a(g); seq(vec![opt(x, id), y], id) }
        4 => { let x = a(g); not(not(x, id), id) }
        5 => { let x = a(g); rep(x, flag(), id) }
        6 => { let x = a(g); let y = a(g); sep(x, y, flag(), flag(), id) }
        7 => node("r0", Some("n"), Some(0), id),
        _ => g.leaf_of(L::TagAny),
    }
}
fn f_select(n: u32, len: u32) {
    let mut g = Gen::new(AB, &[L::Tag], &[Sel2]);
    let r0 = g.rule(1);
    let args = (0..n).map(|_| alt(&mut g)).collect();
    let t = str_of(len, b"ab\"");
    judge(Q::Opt, &syn(vec![r0, sel(args, 90)]), &t, IndentSettings::default());
}
#[no_mangle] pub fn h_c09_select2() { f_select(2, 3) }
#[no_mangle] pub fn h_c09_select3() { f_select(3, 2) }
/// Five short alternatives with overlapping first bytes: leading part of the table and the rest.
#[no_mangle] pub fn h_c09_tail() {
    let args = (0..5).map(|i| { let mut v = vec![one_of(b"abc")]; if i == 2 { v.push(b'x'); } tagx(Arc::new(string(v)), false, false, Some(pname(i)), i + 1) }).collect();
    let t = str_of(2, b"abcx");
    judge(Q::Opt, &syn(vec![sel(args, 9)]), &t, IndentSettings::default());
}
/// Selects of many alternatives: every first byte a text can have, with repetitions, a failing table entry and a rest.
#[no_mangle] pub fn h_c09_many() {
    let mut args = vec![];
    let mut id = 0;
    let mut put = |v: Vec<u8>| { id += 1; args.push(tagx(Arc::new(string(v)), false, false, Some(pname(id)), id)); };
    for b in 0u8..128 { if b != b'q' { put(if b == b'k' { vec![b, b'!'] } else { vec![b] }); } }
    for b in 0xc2u8..0xe0 { put(vec![b, 0x80]); }
    for b in 0xe1u8..0xec { put(vec![b, 0x80, 0x80]); }
    for b in 0xf0u8..0xf5 { put(vec![b, if b == 0xf0 { 0x90 } else { 0x80 }, 0x80, 0x80]); }
    if pick(2) == 1 {
        // the same again, then the rest
        for b in b'a'..=b'm' { put(vec![b]); }
        for i in 0..80u8 { put(vec![b'q', 33 + i]); }
    }
    let x = syn(vec![sel(args, 300)]);
    let k = pick(3);
    let t = if k == 0 { String::new() } else { let mut v = vec![]; any_char(&mut v, if k == 1 { 1 } else { 14 }, &ascii_all()); v.extend_from_slice(&bytes(1, b"!+")); string(v) };
    judge(Q::Opt, &x, &t, IndentSettings::default());
}
/// A select of more than 255 alternatives that share first bytes from some point on.
#[no_mangle] pub fn h_c09_huge() {
    let lead = pick(3) as usize;
    let n = [255usize, 256, 300][pick(3) as usize];
    let args = (0..n).map(|i| if i < lead { tagx(s1(b'a' + i as u8), false, false, Some(pname(i)), i) } else { tagx(Arc::new(string(vec![b'c', b'A' + (i / 40) as u8, b'A' + (i % 40) as u8])), false, false, Some(s("z")), i) }).collect();
    let x = syn(vec![sel(args, 300)]);
    let t = match pick(3) { 0 => str_of(1, b"abc"), 1 => { let v = vec![b'c', b'A' + 6, byte_in(&Set::range(b'A', b'k'))]; string(v) } _ => s("cGZ").to_string() };
    judge(Q::Opt, &x, &t, IndentSettings::default());
}
/// A select below every composite, with every option of the composite.
#[no_mangle] pub fn h_c09_within() {
    let inner = sel(vec![tagp("a", "a", 1), tagp("b", "b", 2), seq(vec![tagp("c", "c", 3), tagp("a", "ca", 4)], 5)], 6);
    let other = sel(vec![tagp(",", "k", 7), tagp(";", "l", 8)], 9);
    let r = match pick(12) {
        0 => seq(vec![inner, other], 10),
        1 => sep(inner, other, flag(), flag(), 10),
        2 => sep(other, inner, flag(), flag(), 10),
        3 => rep(inner, flag(), 10),
        4 => lines(inner, flag(), 10),
        5 => opt(inner, 10),
        6 => seq(vec![not(inner, 10), tagp(",", "m", 11)], 12),
        7 => sel(vec![inner, other], 10),
        8 => sel(vec![ws(false, 11), inner, other], 10),
        9 => sel(vec![tagp(",", "m", 11), tagp(";", "n", 12), inner], 10),
        10 => sel(vec![seq(vec![opt(tagp("a", "o", 13), 14), tagp("b", "p", 15)], 16), tagp("a", "a", 17), tagp("c", "c", 18), inner], 10),
        _ => seq(vec![node("r0", Some("n"), Some(0), 10), rep(sel(vec![node("r0", None, Some(0), 11), other], 12), true, 13)], 14),
    };
    let x = syn(vec![sel(vec![tagp("a", "ra", 20), tagp("b", "rb", 21)], 22), r]);
    let t = str_of(4, b"abc,; \n");
    judge(Q::Opt, &x, &t, IndentSettings::default());
}
#[no_mangle] pub fn h_c09_two() { f_two(Q::Opt, 5) }
#[no_mangle] pub fn h_c09_chain() { f_chain(Q::Opt, 4) }
#[no_mangle] pub fn h_c09_refs() { f_refs(Q::Opt, 5) }
#[no_mangle] pub fn h_c09_terms() { f_terms(Q::Opt, 5) }
#[no_mangle] pub fn h_c09_utf8() { f_utf8(Q::Opt, 3) }
#[no_mangle] pub fn h_c09_json() { f_json(Q::Opt, 6) }
#[no_mangle] pub fn h_c09_stmts() { f_stmts(Q::Opt, 6) }
#[no_mangle] pub fn h_c09_lines() { f_lines(Q::Opt, 13, 4, 3, b" ab\n", false) }

/// A rule with a claimed first byte fails on every other text.
fn claim(r: &Rule, refs: &[Rule], text: &str) {
    let u = unique_byte(r, refs);
    observe(match u { Some(b) => b as u64, None => 256 });
    if let Some(b) = u {
        cover(0);
        let t = text.as_bytes();
        if t.is_empty() || t[0] != b {
            let mut toks = vec![];
            let mut ind = IndentSettings::default();
            let res = r.parse(&mut toks, &TokenizerState::new(), &read_token::ReadToken::new(text, 0), refs, &mut ind);
            check(res.is_err(), 110);
            cover(1);
        }
    } else { cover(2); }
}
fn left_free(refs: &[Rule], text: &str) {
    // the reference reading rejects left recursive grammars
    let mut rf = crate::refp::Ref::new(refs, text.as_bytes());
    rf.parse(Default::default());
}
fn f_claim(leaves: &'static [L], comps: &'static [C], d: u32, e: u32, len: u32, set: &[u8]) {
    let mut g = Gen::new(AB, leaves, comps);
    let r0 = { let mut h = Gen::new(AB, &[L::Tag, L::TagNot, L::TagEmpty, L::Loop], &[Opt, Seq2]); h.id = 30; h.rule(1) };
    let r = g.top(d, e);
    let t = str_of(len, set);
    let refs = vec![r0, r];
    left_free(&refs, &t);
    claim(&refs[1], &refs, &t);
}
const C10C: &[C] = &[Sel1, Sel2, Seq0, Seq2, Opt, C::Not, Rep, Sep, C::Lines];
#[no_mangle] pub fn h_c10_leaf() {
    let mut g = Gen::new(AB, &[L::Tag, L::TagWide, L::TagAny, L::Tag2, L::TagEmpty, L::Ws, L::Until, L::UntilW, L::Text, L::Num], ALLC);
    let r = g.leaf();
    let t = wide_of(2, b"ab\"1 -", &WIDE, 2);
    let refs = vec![r];
    claim(&refs[0], &refs, &t);
}
#[no_mangle] pub fn h_c10_one() { f_claim(ALL_LEAVES, C10C, 0, 0, 2, b"ab\"1 ") }
#[no_mangle] pub fn h_c10_two() { f_claim(&[L::Tag, L::TagNot, L::TagEmpty, L::Node, L::Loop], C10C, 1, 0, 2, b"ab ") }
#[no_mangle] pub fn h_c10_three() { f_claim(&[L::Tag, L::TagEmpty], C10C, 2, 0, 2, b"ab ") }
#[no_mangle] pub fn h_c10_four() { f_claim(&[L::Tag], &[Sel1, Seq0, Seq2, Opt, C::Not, Rep, Sep], 3, 0, 1, b"ab") }
/// A chain of references, as many as there are rules and around in circles.
#[no_mangle] pub fn h_c10_chain() {
    let n = 3;
    let mut g = Gen::new(AB, &[L::Tag], &[]);
    let mut rules = vec![];
    for _ in 0..n {
        let i = pick(n as u32) as usize;
        let id = { g.id += 1; 50 + g.id };
        let nd = node(["r0", "r1", "r2"][i], None, Some(i), id);
        rules.push(match pick(5) { 0 => g.leaf(), 1 => nd, 2 => { let x = g.leaf(); seq(vec![nd, x], id) } 3 => { let x = g.leaf(); seq(vec![opt(x, id), nd], id) } _ => { let x = g.leaf(); seq(vec![x, nd], id) } });
    }
    let t = str_of(2, AB);
    // the analysis itself must return, whatever the references are
    let u = unique_byte(&rules[n - 1], &rules);
    observe(match u { Some(b) => b as u64, None => 256 });
    left_free(&rules, &t);
    claim(&rules[n - 1], &rules, &t);
}
/// The dispatch table holds exactly the leading alternatives with distinct claimed bytes.
fn table(sel: &Select, refs: &[Rule]) {
    let (t, n) = unique_table_from_select(sel, refs);
    observe(n as u64);
    check(n <= sel.args.len() && n <= 255, 111);
    let mut claimed = [false; 256];
    for i in 0..n {
        match unique_byte(&sel.args[i], refs) {
            None => fail(112),
            Some(b) => {
                check(!claimed[b as usize], 113);
                claimed[b as usize] = true;
                check(t[b as usize] as usize == i, 114);
            }
        }
    }
    for b in 0..256 { if !claimed[b] { check(t[b] == 255, 115); } }
    if n > 1 { cover(3); }
}
#[no_mangle] pub fn h_c10_table() {
    let mut g = Gen::new(b"abc", &[L::Tag, L::TagNot, L::TagEmpty, L::Ws, L::Text, L::Node, L::TagWide], &[]);
    let n = pick(5);
    let args = (0..n).map(|_| g.leaf()).collect();
    let refs = vec![tagx(s1(one_of(b"abc")), flag(), false, None, 30)];
    table(&Select { args, debug_id: 1 }, &refs)
}
#[no_mangle] pub fn h_c10_table_big() {
    let n = [130usize, 254, 255, 256, 300][pick(5) as usize];
    let dup = one_of(b"\x01\x40\x7e\x7f");
    let args = (0..n).map(|i| if i < 128 { tagx(s1(if i == 127 { dup } else { i as u8 }), false, false, None, i) } else { let c = 0xc2 + ((i - 128) % 30) as u8; tagx(Arc::new(string(vec![c, 0x80])), false, false, None, i) }).collect();
    table(&Select { args, debug_id: 1 }, &[])
}
#[no_mangle] pub fn h_c09_wide3() { f_wide3(Q::Opt, 4) }
#[no_mangle] pub fn h_c09_last() { f_last(Q::Opt, 5) }
#[no_mangle] pub fn h_c09_expr() { f_expr(Q::Opt, 7) }
#[no_mangle] pub fn h_c09_json8() { f_json(Q::Opt, 8) }
#[no_mangle] pub fn h_c09_stmts8() { f_stmts(Q::Opt, 8) }
#[no_mangle] pub fn h_c09_mixed() { f_mixed(Q::Opt, 2) }
#[no_mangle] pub fn h_c09_indent() { f_indent(Q::Opt, 0, 8, 6, b"abc \n", false) }

//! Terminal rules, alone and at a place inside the text.
use crate::h_core::*;
use crate::prelude::*;
use crate::sx::*;

/// The rule under test with something before it and the rest of the text after it.
fn at(rule: Rule, text: &str) {
    let k = pick(3);
    let before = ["", "x", "\u{3042}"][k as usize];
    let mut args = vec![];
    if k > 0 { args.push(tag(before, 40)); }
    args.push(rule);
    args.push(until("", true, Some("rest"), 42));
    let t = format!("{}{}", before, text);
    judge(Q::Full, &syn(vec![seq(args, 41)]), &t, IndentSettings::default());
}
fn prop() -> Option<Arc<String>> { if pick(2) == 1 { Some(s("p")) } else { None } }

/// Token: its text and the text read are any characters.
#[no_mangle] pub fn h_c02_tag() {
    let a = Set::of(b"ab \n\0\x7f");
    let w = any_str(2, 3, &a);
    let t = any_str(3, 3, &a);
    at(tagx(Arc::new(w), flag(), flag(), prop(), 7), &t)
}
#[no_mangle] pub fn h_c02_tag_long() {
    let w = str_n(3 + pick(2), b"ab");
    let t = str_of(5, b"ab");
    at(tagx(Arc::new(w), flag(), flag(), prop(), 7), &t)
}
#[no_mangle] pub fn h_c02_tag_wide() {
    let w = any_str(1, 15, &Set::of(b"a"));
    let t = any_str(2, 15, &Set::of(b"ab"));
    at(tagx(Arc::new(w), flag(), flag(), prop(), 7), &t)
}
#[no_mangle] pub fn h_c02_ws() { let t = any_str(3, 3, &ascii_all()); at(ws(flag(), 7), &t) }
#[no_mangle] pub fn h_c02_ws_wide() { let mut v = bytes(1, b" a"); any_char(&mut v, 14, &Set::of(b"a")); v.extend_from_slice(&bytes(1, b" a")); at(ws(flag(), 7), &string(v)) }
#[no_mangle] pub fn h_c02_until() {
    let any = any_str(2, 3, &Set::of(b"ab \n"));
    let t = any_str(2, 3, &ascii_all());
    at(Rule::UntilAny(UntilAny { any_characters: Arc::new(any), optional: flag(), property: prop(), debug_id: 7 }), &t)
}
#[no_mangle] pub fn h_c02_until_ws() {
    let any = any_str(1, 3, &Set::of(b"ab \n"));
    let t = any_str(2, 1, &ascii_all());
    at(Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: Arc::new(any), optional: flag(), property: prop(), debug_id: 7 }), &t)
}
#[no_mangle] pub fn h_c02_until_wide() {
    let any = wide_of(2, b"a", &WIDE[..4], 1);
    let mut v = bytes(1, b"a");
    any_char(&mut v, 6, &Set::of(b"a"));
    v.push(b'a');
    let t = string(v);
    let o = flag();
    let r = if pick(2) == 0 { Rule::UntilAny(UntilAny { any_characters: Arc::new(any), optional: o, property: prop(), debug_id: 7 }) }
        else { Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: Arc::new(any), optional: o, property: prop(), debug_id: 7 }) };
    at(r, &t)
}
fn text_rule() -> Rule { Rule::Text(Text { allow_empty: flag(), property: prop(), debug_id: 7 }) }
#[no_mangle] pub fn h_c02_text() { let t = str_of(5, b"\"\\nuax\n\0"); at(text_rule(), &t) }
#[no_mangle] pub fn h_c02_text_esc() {
    // every escape character, and characters of several bytes around escapes
    let mut v = vec![b'"'];
    any_char(&mut v, 3, &Set::of(b"ab\x01\x7f"));
    v.push(b'\\');
    any_char(&mut v, 3, &ascii_all());
    if flag() { v.push(b'"'); }
    v.extend_from_slice(&bytes(1, b"x\""));
    at(text_rule(), &string(v))
}
#[no_mangle] pub fn h_c02_text_unicode() {
    let mut v = b"\"\\u".to_vec();
    let h = Set::range(b'0', b'9').or(Set::range(b'a', b'g')).or(Set::range(b'A', b'G')).or(Set::of(b"\"\\"));
    for _ in 0..4 { v.push(byte_in(&h)); }
    v.extend_from_slice(&bytes(2, b"x\""));
    at(text_rule(), &string(v))
}
fn num_rule() -> Rule { Rule::Number(Number { allow_underscore: flag(), property: prop(), debug_id: 7 }) }
#[no_mangle] pub fn h_c02_num() { let t = str_of(4, b"0179.eE+-_ a"); at(num_rule(), &t) }
#[no_mangle] pub fn h_c02_num_digits() {
    let mut v = vec![];
    if flag() { v.push(b'-'); }
    for _ in 0..pick(4) { v.push(one_of(b"039")); }
    if pick(2) == 1 { v.push(b'.'); for _ in 0..pick(3) { v.push(one_of(b"05")); } }
    if pick(2) == 1 { v.push(b'e'); if pick(2) == 1 { v.push(one_of(b"+-")); } v.push(one_of(b"029")); }
    at(num_rule(), &string(v))
}
#[no_mangle] pub fn h_c02_num_all_digits() {
    let mut v = vec![];
    let d = Set::range(b'0', b'9');
    for _ in 0..2 { v.push(byte_in(&d)); }
    match pick(3) { 0 => { v.push(b'.'); v.push(byte_in(&d)); } 1 => { v.push(b'e'); v.push(byte_in(&d)); } _ => {} }
    at(num_rule(), &string(v))
}

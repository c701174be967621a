//! Error reports.
use crate::prelude::*;
use crate::sx::*;
use piston_meta::ParseErrorHandler;
use read_token::{ParseNumberError, ParseStringError};

fn split_lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut st = 0;
    let mut i = 0;
    while i < b.len() { if b[i] == b'\n' { v.push(&b[st..i]); st = i + 1; } i += 1; }
    v.push(&b[st..]);
    v
}
/// Start offsets of the characters.
fn starts(b: &[u8]) -> Vec<usize> { let mut v = vec![]; let mut i = 0; while i < b.len() { if b[i] & 0xc0 != 0x80 { v.push(i); } i += 1; } v }
fn number_of(n: usize) -> Vec<u8> { n.to_string().into_bytes() }
fn after<'a>(b: &'a [u8], p: &[u8]) -> Option<&'a [u8]> { if b.len() >= p.len() && &b[..p.len()] == p { Some(&b[p.len()..]) } else { None } }

/// Judges a report for an error at `off..off+len` of a text.
pub fn judge_report(t: &str, off: usize, len: usize, head: &str, context: bool, out: &[u8]) {
    let t = t.as_bytes();
    let src = split_lines(t);
    // where the error is
    let (mut line, mut st) = (0, 0);
    while st + src[line].len() < off { st += src[line].len() + 1; line += 1; }
    let l = src[line];
    let cs = starts(l);
    let mut col = 0;
    while col < cs.len() && cs[col] < off - st { col += 1; }
    observe(line as u64); observe(col as u64);
    // the message comes first; it may have several lines
    let mut rest = match after(out, head.as_bytes()) { Some(x) => x, None => fail(300) };
    check(!rest.is_empty() && rest[rest.len() - 1] == b'\n', 301);
    rest = match after(rest, b"\n") { Some(x) => x, None => fail(302) };
    let outl = split_lines(rest);
    let mut k = 0;
    let mut pos = number_of(line + 1);
    pos.push(b','); pos.extend_from_slice(&number_of(col + 1)); pos.extend_from_slice(b": ");
    // lines before the error, for an expected token: a run of numbered lines that ends right before it
    if context {
        let mut want = None;
        while k < outl.len() && after(outl[k], &pos).is_none() {
            let mut first = 0;
            if want.is_none() { let mut j = 0; while j < line { let mut p = number_of(j + 1); p.extend_from_slice(b": "); if after(outl[k], &p).is_some() { want = Some(j); first = 1; } j += 1; } if first == 0 { fail(303); } }
            let j = want.unwrap();
            check(j < line, 304);
            let mut p = number_of(j + 1); p.extend_from_slice(b": ");
            match after(outl[k], &p) { Some(x) => check(x == src[j], 305), None => fail(306) }
            want = Some(j + 1);
            k += 1;
        }
        if let Some(j) = want { check(j == line, 307); cover(3); }
    }
    check(k + 1 < outl.len(), 308);
    let win = match after(outl[k], &pos) { Some(x) => x, None => fail(309) };
    let caret = match after(outl[k + 1], &pos) { Some(x) => x, None => fail(310) };
    check(!caret.is_empty() && caret[caret.len() - 1] == b'^', 311);
    let pad = &caret[..caret.len() - 1];
    // the window is a part of the line in which the caret stands under the character at the position
    check(pad.len() <= col, 312);
    let from = col - pad.len();
    let ws = starts(win);
    check(pad.len() <= ws.len(), 313);
    check(ws.len() <= 100, 314);
    check(from + ws.len() <= cs.len(), 315);
    let a = if from < cs.len() { cs[from] } else { l.len() };
    check(a + win.len() <= l.len() && win == &l[a..a + win.len()], 316);
    if cs.len() <= 75 { check(from == 0 && win.len() == l.len(), 317); }
    if from > 0 { cover(1); }
    if ws.len() < cs.len() { cover(2); }
    // the character at the position is shown when there is one
    if col < cs.len() { check(pad.len() < ws.len(), 318); }
    let mut i = 0;
    while i < pad.len() { let tab = win[ws[i]] == b'\t'; check(pad[i] == if tab { b'\t' } else { b' ' }, 319); i += 1; }
    // the lines that follow belong to the rest of the range
    let mut j = line;
    let mut i = k + 2;
    while i + 1 < outl.len() {
        j += 1;
        st += src[j - 1].len() + 1;
        check(j < src.len() && st <= off + len, 320);
        let mut p = number_of(j + 1); p.extend_from_slice(b",1: ");
        match after(outl[i], &p) { Some(x) => check(after(src[j], x).is_some(), 321), None => fail(322) }
        i += 1;
        cover(4);
    }
    cover(0);
}

/// Every kind of error with the text it is documented to have.
fn error(k: u32) -> (ParseError, &'static str, bool) {
    match k {
        0 => (ParseError::ExpectedTag(s(";"), 7), "Error #7, Expected: `;`", true),
        1 => (ParseError::ExpectedEnd, "Error Expected end", false),
        2 => (ParseError::ExpectedWhitespace(1001), "Error #1001, Expected whitespace", false),
        3 => (ParseError::ExpectedNewLine(12), "Error #12, Expected new line", false),
        4 => (ParseError::ExpectedSomething(0), "Error #0, Expected something", false),
        5 => (ParseError::ExpectedNumber(3), "Error #3, Expected number", false),
        6 => (ParseError::ParseNumberError(ParseNumberError::Invalid, 4), "4", false),
        7 => (ParseError::ExpectedText(5), "Error #5, Expected text", false),
        8 => (ParseError::EmptyTextNotAllowed(6), "Error #6, Empty text not allowed", false),
        9 => (ParseError::ParseStringError(ParseStringError::ExpectedFourHexadecimals, 8), "8", false),
        10 => (ParseError::DidNotExpectTag(s("\u{3042}`"), 9), "Error #9, Did not expect: `\u{3042}``", false),
        11 => (ParseError::InvalidRule("msg", 10), "Error #10, Invalid rule: msg", false),
        12 => (ParseError::NoRules, "Error No rules are specified", false),
        _ => (ParseError::Conversion("m\n2,1: x".to_string()), "Error Conversion, m\n2,1: x", false),
    }
}
fn report(t: &str, off: usize, len: usize, k: u32) {
    let (e, head, ctx) = error(k);
    let head = match head { "4" => format!("Error #4, Invalid number format: {}", ParseNumberError::Invalid), "8" => format!("Error #8, Invalid string format: {}", ParseStringError::ExpectedFourHexadecimals), h => h.to_string() };
    let mut o: Vec<u8> = vec![];
    check(ParseErrorHandler::new(t).write(&mut o, Range::new(off, len).wrap(e)).is_ok(), 330);
    observe_bytes(&o);
    judge_report(t, off, len, &head, ctx, &o);
}
fn message(t: &str, off: usize, len: usize) {
    let mut o: Vec<u8> = vec![];
    let m = ["hello", "", "two\nlines", "\u{e9}"][pick(4) as usize];
    check(ParseErrorHandler::new(t).write_msg(&mut o, Range::new(off, len), m).is_ok(), 331);
    observe_bytes(&o);
    judge_report(t, off, len, m, false, &o);
}
/// A place in a text: at a character, with some length inside the text.
fn place(t: &str) -> (usize, usize) {
    let b = t.as_bytes();
    let p = pick(b.len() as u32 + 1) as usize;
    if p < b.len() && b[p] & 0xc0 == 0x80 { reject(); }
    (p, pick((b.len() - p).min(3) as u32 + 1) as usize)
}
const SET: &[u8] = b"a \t\n";
#[no_mangle] pub fn h_c19_short() { let t = wide_of(4, SET, &WIDE_LETTERS, 1); let (p, n) = place(&t); report(&t, p, n, pick(2)) }
#[no_mangle] pub fn h_c19_msg() { let t = wide_of(3, SET, &WIDE_LETTERS, 1); let (p, n) = place(&t); message(&t, p, n) }
#[no_mangle] pub fn h_c19_kinds() { let t = str_of(2, b"a\n\t"); let (p, n) = place(&t); report(&t, p, n, pick(14)) }
#[no_mangle] pub fn h_c19_ascii() { let t = str_of(7, SET); let (p, n) = place(&t); report(&t, p, n, pick(2)) }
#[no_mangle] pub fn h_c19_wide5() { let t = wide_of(5, SET, &WIDE, 3); let (p, n) = place(&t); report(&t, p, n, pick(2)) }
/// Long lines: a filler of a length around every limit, with something else in it.
fn long(full: bool) {
    let n = if full { 45 + pick(112) } else { [0, 1, 24, 25, 49, 50, 51, 73, 74, 75, 76, 77, 98, 99, 100, 101, 125, 126, 149, 150, 151, 152, 175, 176, 200][pick(25) as usize] };
    let fill = ["x", "\t", "\u{e9}", "\u{1f600}", "xxx\u{3042}"][pick(5) as usize];
    let mut v = vec![];
    if pick(2) == 1 { v.extend_from_slice(b"ab\n"); }
    let mut c = 0;
    let mut places = vec![v.len()];
    let mid = pick(2) * 60;
    for ch in fill.chars().cycle() {
        if c == n { break; }
        if mid > 0 && c == mid { v.push(one_of(b"a\t ")); }
        if c % 25 == 0 || c > 45 && c < 55 || c > 70 && c < 80 || c > 96 && c < 104 { places.push(v.len()); }
        let mut b = [0; 4];
        v.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
        c += 1;
    }
    places.push(v.len());
    let k = pick(3);
    for _ in 0..k { places.push(v.len()); v.push(one_of(b"a\n\t")); }
    places.push(v.len());
    let p = places[pick(places.len() as u32) as usize];
    let t = string(v);
    report(&t, p, if p < t.len() { pick(2) as usize * (t.len() - p) } else { 0 }, pick(2));
}
#[no_mangle] pub fn h_c19_long() { long(false) }
#[no_mangle] pub fn h_c19_every() { long(true) }
/// Lines numbers of more digits, blank lines before an expected token.
#[no_mangle] pub fn h_c19_lines() {
    let n = [0usize, 7, 8, 9, 10, 98, 99][pick(7) as usize];
    let mut v = vec![];
    for i in 0..n { if i % 3 != 1 { v.push(b'a' + (i % 26) as u8); } v.push(b'\n'); }
    for _ in 0..4 { v.push(one_of(b"a \n")); }
    let t = string(v);
    let p = t.len() - pick(6).min(t.len() as u32) as usize;
    report(&t, p, 0, pick(2));
}
/// From a grammar and a text to the report.
#[no_mangle] pub fn h_c19_parse() {
    let x = syn(vec![seq(vec![rep(sel(vec![seq(vec![tag("a", 1), ws(true, 2), tag("b", 3), ws(true, 4)], 5), seq(vec![tag("\u{e9}", 6), ws(false, 7)], 8)], 9), true, 10), tag("c", 11)], 12)]);
    let t = wide_of(5, b"abc\n", &["\u{e9}"], 2);
    let mut toks = vec![];
    match piston_meta::parse(&x, &t, &mut toks) {
        Ok(()) => cover(5),
        Err(e) => {
            let m = match piston_meta::parse_errstr(&x, &t, &mut vec![]) { Err(m) => m, Ok(()) => fail(332) };
            let head = format!("Error {}", e.data);
            let ctx = if let ParseError::ExpectedTag(_, _) = e.data { true } else { false };
            judge_report(&t, e.offset, e.length, &head, ctx, m.as_bytes());
        }
    }
}
#[no_mangle] pub fn h_c19_syntax() {
    let t = { let mut v = b"1 a = ".to_vec(); for _ in 0..3 { v.push(one_of(b"\"a\n[.:{ w")); } v.extend_from_slice("\u{e9}\n2 b".as_bytes()); string(v) };
    match piston_meta::syntax(&t) {
        Ok(_) => cover(5),
        Err(e) => {
            let m = match piston_meta::syntax_errstr(&t) { Err(m) => m, Ok(_) => fail(333) };
            let head = format!("Error {}", e.data);
            let ctx = if let ParseError::ExpectedTag(_, _) = e.data { true } else { false };
            judge_report(&t, e.offset, e.length, &head, ctx, m.as_bytes());
        }
    }
}

//! Threads that share a syntax, or first use the built-in one together (C25).
use crate::h_meta::same_syntax;
use crate::prelude::*;
use crate::sx::*;
use piston_meta::{parse, parse_errstr, syntax, syntax_errstr, json};

type R = Option<Result<Vec<Md>, Range<ParseError>>>;
fn one(rules: &Syntax, t: &str) -> R { let mut v = vec![]; Some(parse(rules, t, &mut v).map(|_| v)) }
/// Into a list that has something in it.
fn onto(rules: &Syntax, t: &str) -> R { let mut v = vec![Range::new(0, 0).wrap(MetaData::Bool(s("old"), true))]; Some(parse(rules, t, &mut v).map(|_| v)) }
fn same_err(a: &Range<ParseError>, b: &Range<ParseError>) -> bool { a == b }
/// A thread's result against the one of a single thread.
fn agree(a: &R, b: &R) {
    match (a, b) {
        (Some(Ok(x)), Some(Ok(y))) => { check(same_tokens(x, y), 412); observe_tokens(x); cover(0); }
        (Some(Err(x)), Some(Err(y))) => { check(same_err(x, y), 413); observe(x.offset as u64); cover(1); }
        (None, _) => fail(415),
        _ => fail(414),
    }
}

const RULES: &str = "1 num = .$:\"n\"\n2 it = {\"w\":\"t\" \"v\":!\"t\" .t?:\"s\" num:\"k\"}\n3 doc = .s?.([\",\" .w?] it:\"i\")\n";
fn rules() -> Syntax { match syntax(RULES) { Ok(x) => x, Err(_) => fail(155) } }

/// Two threads first use the built-in rules.
#[no_mangle] pub fn h_c25_first() { first(1) }
#[no_mangle] pub fn h_c25_first2() { first(2) }
#[no_mangle] pub fn h_c25_first3() { first(3) }
#[no_mangle] pub fn h_c25_first5() { first(5) }
fn first(n: u32) {
    let c = one_of(b"a\"\n");
    let ts = [string(vec![b'1', b' ', b'a', b' ', b'=', b' ', b'{', b'"', c, b'"', b'"', b'b', b'"', b'}', b'\n']), "0 b = {.t?:\"x\" \"a\" \"b\"}\n".to_string()];
    let mut rs: [Option<Result<Syntax, Range<ParseError>>>; 2] = [None, None];
    {
        let (a, b) = rs.split_at_mut(1);
        let (t0, t1) = (&ts[0], &ts[1]);
        together(n, vec![Box::new(|| a[0] = Some(syntax(t0))), Box::new(|| b[0] = Some(syntax(t1)))]);
    }
    for i in 0..2 {
        match (&rs[i], &Some(syntax(&ts[i]))) {
            (Some(Ok(x)), Some(Ok(y))) => { check(same_syntax(x, y, true), 412); cover(0); observe(x.rules.len() as u64); }
            (Some(Err(x)), Some(Err(y))) => { check(same_err(x, y), 413); cover(1); }
            (None, _) => fail(415),
            _ => fail(414),
        }
    }
}
/// Three threads first use the built-in rules.
#[no_mangle] pub fn h_c25_first_three() { first_three(2) }
#[no_mangle] pub fn h_c25_first_three3() { first_three(3) }
fn first_three(n: u32) {
    let ts = ["1 a = {\"x\" \"y\" \"z\"}\n".to_string(), "0 b = {.t?:\"x\" \"a\" \"b\"}\n".to_string(), "?".to_string()];
    let mut rs: Vec<Option<Result<Syntax, Range<ParseError>>>> = vec![None, None, None];
    {
        let mut fs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (r, t) in rs.iter_mut().zip(&ts) { fs.push(Box::new(move || *r = Some(syntax(t)))); }
        together(n, fs);
    }
    for i in 0..3 {
        match (&rs[i], &Some(syntax(&ts[i]))) {
            (Some(Ok(x)), Some(Ok(y))) => { check(same_syntax(x, y, true), 412); cover(0); }
            (Some(Err(x)), Some(Err(y))) => { check(same_err(x, y), 413); cover(1); }
            (None, _) => fail(415),
            _ => fail(414),
        }
    }
}
fn parse_both(n: u32, rules: &Syntax, a: &str, b: &str) {
    let (mut x, mut y): (R, R) = (None, None);
    together(n, vec![Box::new(|| x = one(rules, a)), Box::new(|| y = onto(rules, b))]);
    agree(&x, &one(rules, a));
    agree(&y, &onto(rules, b));
}
/// Two threads parse different documents with one syntax.
#[no_mangle] pub fn h_c25_parse() {
    let a = str_of(3, b"wv,1\"e");
    let b = str_of(2, b"w,1\"");
    let r = rules();
    parse_both(1, &r, &a, &b);
}
#[no_mangle] pub fn h_c25_parse_deep() {
    let a = str_of(3, b"wv,1\"e.\\");
    let b = str_of(3, b"w,1\"");
    let r = rules();
    parse_both(2, &r, &a, &b);
}
#[no_mangle] pub fn h_c25_parse_more() {
    let a = str_of(4, b"wv,1\"e.\\");
    let b = str_of(4, b"w,1\"");
    let r = rules();
    parse_both(4, &r, &a, &b);
}
/// Every kind of rule.
#[no_mangle] pub fn h_c25_kinds() { kinds(1, 2, 1) }
#[no_mangle] pub fn h_c25_kinds_more() { kinds(3, 3, 3) }
fn kinds(n: u32, la: u32, lb: u32) {
    let t = |id: usize, c: &str| tagp(c, "p", id);
    let k = pick(9);
    let rule = match k {
        0 => rep(sel(vec![t(2, "a"), t(3, "b")], 1), true, 0),
        1 => Rule::Repeat(Box::new(Repeat { rule: sel(vec![t(2, "a"), t(3, "b"), number(true, Some("n"), 4)], 1), optional: true, debug_id: 0 })),
        2 => sep(until("b,", false, Some("u"), 1), tag(",", 2), true, true, 0),
        3 => lines(until_w("b", false, Some("u"), 1), true, 0),
        4 => seq(vec![opt(t(2, "a"), 1), not(t(4, "b"), 3), text(true, Some("s"), 5)], 0),
        5 => node("r1", Some("x"), Some(1), 0),
        6 => seq(vec![ws(true, 1), number(false, Some("n"), 2), ws(true, 3)], 0),
        7 => rep(text(false, Some("s"), 1), true, 0),
        _ => rep(tagx(s("a"), true, true, Some(s("q")), 1), false, 0),
    };
    let mut rs = vec![];
    if k == 5 { rs.push(rule.clone()); rs.push(rep(sel(vec![t(2, "a"), node("r1", None, Some(1), 6)], 1), false, 3)); }
    rs.push(rule);
    let mut x = syn(rs);
    if k == 5 { x.rules[1] = sel(vec![t(2, "a"), t(3, "b")], 1); }
    let x = if pick(2) == 1 { x.optimize() } else { x };
    let a = str_of(la, b"ab,1\"\n");
    let b = str_n(lb, b"ab\"1");
    parse_both(n, &x, &a, &b);
}
/// One thread parses while another first uses the built-in rules, and reports errors.
#[no_mangle] pub fn h_c25_mixed() {
    let a = str_of(2, b"ab");
    let bad = one_of(b"\"=?");
    let doc = string(vec![b'1', b' ', b'a', b' ', bad, b'"', b'x', b'"', b'\n']);
    let x = syn(vec![rep(sel(vec![tagp("a", "p", 2), tagp("b", "q", 3)], 1), false, 0)]).optimize();
    let mut p: Option<(Result<(), String>, Vec<Md>)> = None;
    let mut q: Option<Result<Syntax, String>> = None;
    together(2, vec![Box::new(|| { let mut v = vec![]; p = Some((parse_errstr(&x, &a, &mut v), v)); }), Box::new(|| q = Some(syntax_errstr(&doc)))]);
    let mut v = vec![];
    match (p, parse_errstr(&x, &a, &mut v)) {
        (Some((Ok(()), t)), Ok(())) => { check(same_tokens(&t, &v), 412); cover(0); }
        (Some((Err(e), _)), Err(f)) => { check(e.as_bytes() == f.as_bytes(), 413); cover(1); }
        _ => fail(414),
    }
    match (q, syntax_errstr(&doc)) {
        (Some(Ok(x)), Ok(y)) => { check(same_syntax(&x, &y, true), 412); cover(2); }
        (Some(Err(e)), Err(f)) => { check(e.as_bytes() == f.as_bytes(), 413); cover(3); }
        _ => fail(414),
    }
}
/// Copies of one syntax and of what was read with it, used, optimized and let go by different threads.
#[no_mangle] pub fn h_c25_copies() {
    let a = str_of(2, b"ab1");
    let x = Arc::new(syn(vec![rep(sel(vec![tagp("a", "p", 2), tagp("b", "q", 3), number(false, Some("n"), 4)], 1), true, 0)]));
    let mut v = vec![];
    let r = parse(&x, &a, &mut v);
    let v = Arc::new(v);
    let (x1, x2, v1, v2, a1) = (x.clone(), x.clone(), v.clone(), v.clone(), a.clone());
    let mut p: R = None;
    let (mut j1, mut j2): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    together(3, vec![
        Box::new(|| { let y = (*x1).clone(); drop(x1); let y = y.optimize(); p = one(&y, &a1); drop(y); let _ = json::write(&mut j1, &v1); drop(v1); }),
        Box::new(|| { let _ = json::write(&mut j2, &v2); drop(v2); drop(x2); }),
    ]);
    let mut j = vec![];
    let _ = json::write(&mut j, &v);
    check(j1 == j && j2 == j, 412);
    match (&p, r) { (Some(Ok(t)), Ok(())) => { check(same_tokens(t, &v), 412); cover(0); } (Some(Err(_)), Err(_)) => cover(1), (None, _) => fail(415), _ => fail(414) }
    check(Arc::strong_count(&x) == 1 && Arc::strong_count(&v) == 1, 416);
}
/// Threads that read documents as syntaxes and parse with them.
#[no_mangle] pub fn h_c25_pipeline() {
    let c = one_of(b"ab");
    let t = str_of(2, b"ab");
    let docs = [string(vec![b'1', b' ', b'a', b' ', b'=', b' ', b'.', b'r', b'?', b'(', b'"', c, b'"', b':', b'"', b'p', b'"', b')', b'\n']), "0 b = .r?({\"a\" \"b\":\"x\" .$})\n".to_string()];
    let go = |d: &str| -> R { match syntax(d) { Ok(x) => one(&x, &t), Err(e) => Some(Err(e)) } };
    let (mut p, mut q): (R, R) = (None, None);
    together(2, vec![Box::new(|| p = go(&docs[0])), Box::new(|| q = go(&docs[1]))]);
    agree(&p, &go(&docs[0]));
    agree(&q, &go(&docs[1]));
}
/// Three threads and one syntax.
#[no_mangle] pub fn h_c25_three() {
    let a = str_n(1, b"ab"); let b = str_n(2, b"ab1"); let c = str_n(1, b"a1");
    let x = syn(vec![rep(sel(vec![tagp("a", "p", 2), tagp("b", "q", 3), number(false, Some("n"), 4)], 1), true, 0)]).optimize();
    let (mut p, mut q, mut r): (R, R, R) = (None, None, None);
    together(2, vec![Box::new(|| p = one(&x, &a)), Box::new(|| q = one(&x, &b)), Box::new(|| r = one(&x, &c))]);
    agree(&p, &one(&x, &a)); agree(&q, &one(&x, &b)); agree(&r, &one(&x, &c));
}
/// Two threads load files, one of them the same for both.
#[no_mangle] pub fn h_c25_files() {
    let c = one_of(b"wv"); let e = one_of(b"wv");
    let sx = "1 it = [{\"w\":\"t\" \"v\":!\"t\"} ?.$:\"n\"]\n2 doc = .r?(it:\"i\")\n";
    let (a, b) = (string(vec![c]), string(vec![e, b'7', c]));
    let (sp, ap, bp) = (file("s", sx.as_bytes(), FileKind::Plain), file("a", a.as_bytes(), FileKind::Plain), file("b", b.as_bytes(), FileKind::Plain));
    let (mut p, mut q) = (None, None);
    together(2, vec![Box::new(|| p = Some(piston_meta::load_syntax_data(&sp, &ap))), Box::new(|| q = Some(piston_meta::load_syntax_data(&sp, &bp)))]);
    let x = match syntax(sx) { Ok(x) => x, Err(_) => fail(155) };
    for (t, r) in [(&a, p), (&b, q)] {
        match (one(&x, t), r) { (Some(Ok(y)), Some(z)) => { check(same_tokens(&y, &z), 412); cover(0); } _ => fail(414) }
    }
}

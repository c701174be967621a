//! Loading through files (C26).
use crate::prelude::*;
use crate::sx::*;
use piston_meta::{load_syntax_data, parse, parse_errstr, stderr_unwrap, syntax, syntax_errstr};

const SYNTAX: &str = "1 item = {\"w\":\"t\" .$:\"n\"}\n2 doc = .s?.(\",\" item:\"i\")\n";

fn contains(v: &[u8], x: &[u8]) -> bool {
    if v.len() == x.len() { return v == x; }
    v.len() > x.len() && (0..v.len() - x.len() + 1).any(|i| &v[i..i + x.len()] == x)
}

/// What must come of loading the two contents.
fn judge(sx: &[u8], dx: &[u8], readable: bool, r: Option<Vec<Md>>) {
    let (st, dt) = match (std::str::from_utf8(sx), std::str::from_utf8(dx), readable) {
        (Ok(a), Ok(b), true) => (a, b),
        (a, _, _) => {
            // a file that cannot be read as text
            if r.is_some() { fail(400); }
            cover(2);
            if readable { if let Ok(a) = a { if let Err(e) = syntax_errstr(a) { check(contains(&stderr(), e.as_bytes()), 403); } } }
            return;
        }
    };
    match syntax(st) {
        Err(_) => {
            if r.is_some() { fail(401); }
            let e = match syntax_errstr(st) { Err(e) => e, Ok(_) => fail(333) };
            check(contains(&stderr(), e.as_bytes()), 403);
            cover(3);
        }
        Ok(rules) => {
            let mut t = vec![];
            match parse(&rules, dt, &mut t) {
                Ok(()) => match r {
                    Some(r) => { observe_tokens(&r); check(same_tokens(&r, &t), 404); check(stderr().is_empty(), 405); cover(0); }
                    None => fail(406),
                },
                Err(_) => {
                    if r.is_some() { fail(402); }
                    let e = match parse_errstr(&rules, dt, &mut vec![]) { Err(e) => e, Ok(_) => fail(332) };
                    check(contains(&stderr(), e.as_bytes()), 403);
                    cover(1);
                }
            }
        }
    }
}
fn load(sx: &[u8], dx: &[u8], sk: FileKind, dk: FileKind) -> Option<Vec<Md>> {
    let sp = file("syntax.txt", sx, sk);
    let dp = file("data.txt", dx, dk);
    attempt(|| load_syntax_data(&sp, &dp))
}
fn plain(sx: &[u8], dx: &[u8]) { let r = load(sx, dx, FileKind::Plain, FileKind::Plain); judge(sx, dx, true, r); }

/// Any document of up to 5 bytes.
#[no_mangle] pub fn h_c26_data() { let d = bytes(5, b"wx1,. \n\"\\-"); plain(SYNTAX.as_bytes(), &d); }
/// Documents of any bytes, text or not.
#[no_mangle] pub fn h_c26_bytes() { let n = pick(3); let d: Vec<u8> = (0..n + 1).map(|_| byte()).collect(); plain(b"0 document = .t?:\"a\"\n", &d); }
/// A syntax with one byte replaced.
#[no_mangle] pub fn h_c26_syntax() {
    let mut sx = b"1 a = .t!:\"v\"\n2 b = a\n".to_vec();
    let n = sx.len() as u32;
    let i = pick(n) as usize;
    sx[i] = one_of(b"ab12 =.:\"$\n\\?![](),t");
    // left recursion
    assume(i != 20 || sx[i] != b'b');
    plain(&sx, b"\"x\"");
}
/// A syntax file of any bytes.
#[no_mangle] pub fn h_c26_syntax_bytes() {
    let mut sx = b"1 a = \"".to_vec();
    let n = pick(3);
    for _ in 0..n { sx.push(byte()); }
    sx.extend_from_slice(b"\"\n");
    plain(&sx, b"b");
}
/// Files that are missing, directories, or fail while being read.
#[no_mangle] pub fn h_c26_faults() {
    let d = bytes(2, b"w1,");
    let sk = pick(3); let dk = pick(3);
    let k = pick(4);
    let at = if k == 1 || k == 2 { pick(6) } else { 0 };
    let mk = |name: &str, c: &[u8], k: u32| match k { 0 => file(name, c, FileKind::Plain), 1 => path(name), _ => file(name, c, FileKind::Directory) };
    let sp = mk("syntax.txt", SYNTAX.as_bytes(), sk);
    let dp = mk("data.txt", &d, dk);
    fault(at, k);
    let r = attempt(|| load_syntax_data(&sp, &dp));
    fault(0, 0);
    if sk != 0 || dk != 0 { check(r.is_none(), 400); cover(2); return; }
    // a failing read may come after the end was seen
    if k == 2 {
        let used = r.is_some();
        if used { judge(SYNTAX.as_bytes(), &d, true, r); check(at > 1, 407); }
        else { cover(2); }
        return;
    }
    judge(SYNTAX.as_bytes(), &d, true, r);
}
/// Long files: the change may lie beyond any buffer.
#[no_mangle] pub fn h_c26_long() {
    let n = [31u32, 32, 33, 63, 1000, 4095, 8191, 8192, 8193, 20000][pick(10) as usize] as usize;
    let mut d = Vec::with_capacity(n + 4);
    for i in 0..n { d.push(if i % 2 == 0 { b'w' } else { b',' }); }
    let k = pick(3);
    for _ in 0..k { d.push(one_of(b"w,1 ")); }
    if k == 2 && flag() { let i = n / 2; d[i] = one_of(b"w,1"); }
    plain(SYNTAX.as_bytes(), &d);
}
/// Long syntax files.
#[no_mangle] pub fn h_c26_long_syntax() {
    let mut sx = vec![];
    let n = [10u32, 130, 300][pick(3) as usize];
    for _ in 0..n { sx.extend_from_slice(b"// a line that says nothing at all.\n"); }
    sx.extend_from_slice(b"1 a = .t?:\"v\"");
    sx.push(one_of(b"\nx?\""));
    plain(&sx, b"\"x\"");
}
/// The same two paths loaded twice with other contents in between.
#[no_mangle] pub fn h_c26_twice() {
    let d1 = bytes(2, b"w1,"); let d2 = bytes(2, b"w1,");
    let sp = file("s1", SYNTAX.as_bytes(), FileKind::Plain);
    let p1 = file("d1", &d1, FileKind::Plain);
    let p2 = file("d2", &d2, FileKind::Plain);
    let r1 = attempt(|| load_syntax_data(&sp, &p1));
    let r2 = attempt(|| load_syntax_data(&sp, &p2));
    let rules = match syntax(SYNTAX) { Ok(x) => x, Err(_) => fail(155) };
    for (d, r) in [(&d1, r1), (&d2, r2)] {
        let mut t = vec![];
        let t0 = string(d.to_vec());
        match (parse(&rules, &t0, &mut t), r) {
            (Ok(()), Some(r)) => { check(same_tokens(&r, &t), 404); cover(0); }
            (Ok(()), None) => fail(406),
            (Err(_), Some(_)) => fail(402),
            (Err(_), None) => cover(1),
        }
    }
}
/// The helper on its own.
#[no_mangle] pub fn h_c26_unwrap() {
    let src = str_of(3, b"ab\n\t");
    let o = pick(4); let l = pick(3);
    let ok = pick(2) == 0;
    let k = pick(3);
    let e = || match k { 0 => ParseError::ExpectedTag(s("t"), 5), 1 => ParseError::ExpectedEnd, _ => ParseError::Conversion("c".to_string()) };
    if ok {
        let v = byte();
        let r = attempt(|| stderr_unwrap(&src, Ok::<u8, Range<ParseError>>(v)));
        match r { Some(x) => check(x == v, 408), None => fail(406) }
        check(stderr().is_empty(), 405);
        cover(0);
    } else {
        let mut w: Vec<u8> = vec![];
        if piston_meta::ParseErrorHandler::new(&src).write(&mut w, Range::new(o as usize, l as usize).wrap(e())).is_err() { fail(330); }
        let r = attempt(|| stderr_unwrap(&src, Err::<u8, _>(Range::new(o as usize, l as usize).wrap(e()))));
        check(r.is_none(), 402);
        check(contains(&stderr(), &w), 403);
        cover(1);
    }
}
/// A syntax with two changes, a document with any of its bytes.
#[no_mangle] pub fn h_c26_both() {
    let mut sx = b"1 a = [\"w\":\"t\" ?\"1\"]\n2 b = a:\"n\"\n".to_vec();
    let n = sx.len() as u32;
    match pick(3) {
        0 => { let i = pick(n) as usize; sx[i] = one_of(b"aw12 =:\"!?]\n"); }
        1 => { let i = pick(n) as usize; sx.remove(i); }
        _ => { let i = pick(n) as usize; sx.truncate(i); }
    }
    let d = str_n(2, b"w1 ");
    plain(&sx, d.as_bytes());
}
/// One file as both.
#[no_mangle] pub fn h_c26_same() {
    let mut sx = b"1 a = ...\"\\u0007\"!:\"t\"\n".to_vec();
    let n = sx.len() as u32;
    let i = pick(n) as usize;
    sx[i] = one_of(b"a1.:\"!\n");
    let p = file("both.txt", &sx, FileKind::Plain);
    let r = attempt(|| load_syntax_data(&p, &p));
    judge(&sx, &sx, true, r);
}
#[no_mangle] pub fn h_c26_data7() { let d = bytes(7, b"wx1,. \n\"\\-"); plain(SYNTAX.as_bytes(), &d); }
#[no_mangle] pub fn h_c26_bytes4() { let d: Vec<u8> = (0..4).map(|_| byte()).collect(); plain(b"0 document = .t?:\"a\"\n", &d); }

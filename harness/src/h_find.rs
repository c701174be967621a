//! Reading meta data: search and conversion cursor.
use crate::prelude::*;
use crate::sx::*;
use piston_meta::bootstrap::Convert;
use piston_meta_search::Search;

const NUM: [f64; 8] = [1.0, 1.0000000000000002, 0.0, -0.0, f64::NAN, 1e-20, 2.0, f64::INFINITY];
#[derive(Clone, Copy)]
pub struct Sizes { name: u32, nums: u32 }
fn nm(z: Sizes) -> Arc<String> { Arc::new(if z.name == 1 { str_n(1, b"aA") } else { str_of(z.name, b"aA") }) }
fn item(k: u32, i: usize, z: Sizes) -> Md {
    let r = Range::new(10 * i + 3, i + 1);
    let n = nm(z);
    r.wrap(match k { 0 => MetaData::StartNode(n), 1 => MetaData::EndNode(n), 2 => MetaData::Bool(n, flag()), 3 => MetaData::F64(n, NUM[pick(z.nums) as usize]), _ => MetaData::String(n, Arc::new(str_n(1, b"xX"))) })
}
fn data(max: u32, z: Sizes) -> Vec<Md> { let n = pick(max + 1) as usize; (0..n).map(|i| item(pick(5), i, z)).collect() }
fn kind(d: &Md) -> (u32, &Arc<String>) { match &d.data { MetaData::StartNode(n) => (0, n), MetaData::EndNode(n) => (1, n), MetaData::Bool(n, _) => (2, n), MetaData::F64(n, _) => (3, n), MetaData::String(n, _) => (4, n) } }
fn same(a: &Arc<String>, b: &str) -> bool { a.as_bytes() == b.as_bytes() }
fn conversion(e: &Range<ParseError>) { match &e.data { ParseError::Conversion(m) => check(!m.is_empty(), 350), _ => fail(351) } }
fn at(x: &Search, d: &[Md], pos: usize) -> bool { x.data.len() == d.len() - pos && x.data.as_ptr() == d[pos..].as_ptr() }

fn reads(max: u32, ops: u32, z: Sizes) {
    let d = data(max, z);
    let mut x = Search::new(&d);
    let mut pos = 0;
    let mut last: Option<Range> = None;
    check(x.range.is_none() && at(&x, &d, 0), 352);
    for _ in 0..ops {
        let (k, n) = (pick(5), nm(z));
        let hit = pos < d.len() && { let (a, b) = kind(&d[pos]); a == k && b == &n };
        let (ok, err) = match k {
            0 => { let r = x.node(&n); (r.is_ok(), r.err()) }
            1 => { let r = x.end_node(&n); (r.is_ok(), r.err()) }
            2 => match x.bool(&n) { Ok(v) => { check(hit, 353); if let MetaData::Bool(_, w) = d[pos].data { check(v == w, 354); } (true, None) } Err(e) => (false, Some(e)) },
            3 => match x.f64(&n) { Ok(v) => { check(hit, 353); if let MetaData::F64(_, w) = d[pos].data { check(v.to_bits() == w.to_bits(), 354); } (true, None) } Err(e) => (false, Some(e)) },
            _ => match x.string(&n) { Ok(v) => { check(hit, 353); if let MetaData::String(_, w) = &d[pos].data { check(v.as_bytes() == w.as_bytes(), 354); } (true, None) } Err(e) => (false, Some(e)) },
        };
        check(ok == hit, 355);
        observe(ok as u64);
        if let Some(e) = err {
            conversion(&e);
            // where the error is: at the item, or at the last one read
            let want = if pos < d.len() { d[pos].range() } else { last.unwrap_or(Range::empty(0)) };
            check(e.range() == want, 356);
            cover(1);
            if pos == d.len() { cover(2); }
        }
        if hit { last = Some(d[pos].range()); pos += 1; cover(0); }
        check(at(&x, &d, pos), 357);
        check(x.range == last, 358);
    }
}
const Z1: Sizes = Sizes { name: 1, nums: 2 };
const Z2: Sizes = Sizes { name: 2, nums: 8 };
#[no_mangle] pub fn h_c20_two() { reads(2, 2, Z2) }
#[no_mangle] pub fn h_c20_three() { reads(3, 3, Z1) }
#[no_mangle] pub fn h_c20_four() { reads(4, 4, Z1) }
/// A search that starts inside a scan.
#[no_mangle] pub fn h_c20_after_scan() {
    let d = data(3, Z1);
    let x = Search::new(&d);
    let n = nm(Z1);
    let mut at_ = usize::MAX;
    let _ = x.for_node(&n, |mut y| {
        let pos = d.len() - y.data.len();
        at_ = pos;
        let m = nm(Z1);
        let hit = pos < d.len() && { let (a, b) = kind(&d[pos]); a == 2 && b == &m };
        let r = y.bool(&m);
        check(r.is_ok() == hit, 355);
        check(at(&y, &d, pos + hit as usize), 357);
        if let Err(e) = &r { check(e.range() == if pos < d.len() { d[pos].range() } else { d[pos - 1].range() }, 356); cover(1); } else { cover(0); }
        Ok(())
    });
    observe(at_ as u64);
}

fn scans(max: u32, z: Sizes) {
    let d = data(max, z);
    // scan all of it, or what an earlier read left
    let skip = if d.is_empty() { 0 } else { pick(2) as usize };
    let x = Search { data: &d[skip..], range: if skip > 0 { Some(d[0].range()) } else { None } };
    let k = pick(5);
    let n = nm(z);
    let (vb, vf, vs) = (if k == 2 { flag() } else { false }, NUM[if k == 3 { pick(z.nums) } else { 0 } as usize], if k == 4 { str_n(1, b"xX") } else { String::new() });
    let mut want = None;
    let mut i = skip;
    while i < d.len() {
        let (a, b) = kind(&d[i]);
        let hit = a == k && b.as_bytes() == n.as_bytes() && match &d[i].data { MetaData::Bool(_, v) => *v == vb, MetaData::F64(_, v) => *v == vf, MetaData::String(_, v) => same(v, &vs), _ => true };
        if hit { want = Some(i); break; }
        i += 1;
    }
    let calls = std::cell::Cell::new(0);
    let answer = pick(2) == 0;
    let f = |y: Search| {
        calls.set(calls.get() + 1);
        match want { Some(i) => { check(at(&y, &d, i + 1), 360); check(y.range == Some(d[i].range()), 361); } None => fail(362) }
        if answer { Ok(77u32) } else { Err(Range::new(5, 6).wrap(ParseError::NoRules)) }
    };
    let r = match k { 0 => x.for_node(&n, f), 1 => x.for_end_node(&n, f), 2 => x.for_bool(&n, vb, f), 3 => x.for_f64(&n, vf, f), _ => x.for_string(&n, &vs, f) };
    check(calls.get() == want.is_some() as u32, 363);
    match (want, &r) {
        (Some(_), Ok(v)) => { cover(0); check(answer && *v == 77, 364); }
        (Some(_), Err(e)) => { cover(1); check(!answer && e.offset == 5 && e.length == 6 && e.data == ParseError::NoRules, 365); }
        (None, Ok(_)) => fail(366),
        (None, Err(e)) => { cover(2); conversion(e); check(e.range() == if skip > 0 { d[0].range() } else { Range::empty(0) }, 367); }
    }
    // the search itself is unchanged
    check(at(&x, &d, skip), 368);
}
#[no_mangle] pub fn h_c21_three() { scans(3, Z1) }
#[no_mangle] pub fn h_c21_two() { scans(2, Z2) }
#[no_mangle] pub fn h_c21_four() { scans(4, Z1) }
#[no_mangle] pub fn h_c21_five() { scans(5, Z1) }
/// A scan within a scan.
#[no_mangle] pub fn h_c21_nested() {
    let d = data(4, Z1);
    let x = Search::new(&d);
    let (k, n, m) = (pick(2), nm(Z1), nm(Z1));
    let first = |from: usize, k: u32, n: &Arc<String>| { let mut i = from; while i < d.len() { let (a, b) = kind(&d[i]); if a == k && b == n { return Some(i); } i += 1; } None };
    let a = first(0, k, &n);
    let b = a.and_then(|i| first(i + 1, 1, &m));
    // what the callback gets can be scanned itself
    let f = |y: Search| {
        let d2 = y.data;
        let z = Search { data: d2, range: y.range };
        z.for_end_node(&m, |w| Ok(w.data.len()))
    };
    let r = if k == 0 { x.for_node(&n, f) } else { x.for_end_node(&n, f) };
    check(r.is_ok() == b.is_some(), 369);
    if let (Ok(l), Some(i)) = (&r, b) { check(*l == d.len() - i - 1, 369); cover(0); } else { cover(1); }
}

/// Any double at all, as stored, read and found.
fn double() -> f64 { let mut x = 0u64; for _ in 0..8 { x = x << 8 | byte() as u64; } f64::from_bits(x) }
#[no_mangle] pub fn h_c21_double() {
    let (n, m) = (nm(Z1), nm(Z1));
    let (a, b) = (double(), double());
    let d = vec![Range::new(3, 1).wrap(MetaData::F64(n.clone(), a)), Range::new(5, 2).wrap(MetaData::F64(n.clone(), b))];
    let val = NUM[pick(8) as usize];
    let x = Search::new(&d);
    let (fa, fb) = (n == m && a == val, n == m && b == val);
    let r = x.for_f64(&m, val, |y| Ok(y.data.len()));
    match r {
        Ok(1) => { cover(0); check(fa, 360) }
        Ok(0) => { cover(1); check(!fa && fb, 360) }
        Ok(_) => fail(360),
        Err(_) => { cover(2); check(!fa && !fb, 363) }
    }
}
#[no_mangle] pub fn h_c20_double() {
    let (n, m) = (nm(Z1), nm(Z1));
    let a = double();
    let d = vec![Range::new(3, 1).wrap(MetaData::F64(n.clone(), a))];
    let mut x = Search::new(&d);
    match x.f64(&m) {
        Ok(v) => { cover(0); check(n == m, 353); check(v.to_bits() == a.to_bits(), 354); check(at(&x, &d, 1), 357) }
        Err(e) => { cover(1); check(n != m, 355); conversion(&e); check(e.range() == d[0].range() && at(&x, &d, 0), 356) }
    }
}
#[no_mangle] pub fn h_c22_double() {
    let (n, m) = (nm(Z1), nm(Z1));
    let a = double();
    let d = vec![Range::new(3, 1).wrap(MetaData::F64(n.clone(), a))];
    let c = Convert::new(&d);
    match c.meta_f64(&m) {
        Ok((r, v)) => { cover(0); check(n == m, 381); check(v.to_bits() == a.to_bits(), 382); check(r.length == 1, 385) }
        Err(()) => { cover(1); check(n != m, 383) }
    }
}

// ---- conversion cursor ----

fn cursor(max: u32, ops: u32, z: Sizes) {
    let d = data(max, z);
    let mut c = Convert::new(&d);
    let mut pos = 0;
    let mut marks = vec![(c, 0usize)];
    check(c.remaining_data_len() == d.len(), 380);
    for _ in 0..ops {
        let k = pick(7);
        let n = nm(z);
        if k < 5 {
            let hit = pos < d.len() && { let (a, b) = kind(&d[pos]); a == k && b == &n };
            let r = match k {
                0 => c.start_node(&n),
                1 => c.end_node(&n),
                2 => c.meta_bool(&n).map(|(r, v)| { check(hit, 381); if let MetaData::Bool(_, w) = d[pos].data { check(v == w, 382); } r }),
                3 => c.meta_f64(&n).map(|(r, v)| { check(hit, 381); if let MetaData::F64(_, w) = d[pos].data { check(v.to_bits() == w.to_bits(), 382); } r }),
                _ => c.meta_string(&n).map(|(r, v)| { check(hit, 381); if let MetaData::String(_, w) = &d[pos].data { check(v.as_bytes() == w.as_bytes(), 382); } r }),
            };
            check(r.is_ok() == hit, 383);
            check(c.remaining_data_len() == d.len() - pos, 384);
            if let Ok(r) = r { check(r.length == 1, 385); c.update(r); pos += 1; cover(0); } else { cover(1); }
        } else if k == 5 {
            // one item, or a node to its end
            let r = c.ignore();
            let mut depth = 0i32;
            let mut i = pos;
            let mut balanced = false;
            while i < d.len() {
                match d[i].data { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} }
                i += 1;
                if depth <= 0 { balanced = true; break; }
            }
            if balanced { check(r.length == i - pos, 386); cover(2); if r.length > 1 { cover(3); } } else { check(r.length <= d.len() - pos, 387); }
            pos += r.length;
            c.update(r);
        } else {
            // back to an earlier cursor, then forward by the difference
            let (m, p) = marks[pick(marks.len() as u32) as usize];
            let r = c.subtract(m);
            check(r.length == pos - p, 388);
            let src = c.source(m);
            if pos == p { check(src.is_none(), 389); } else {
                cover(4);
                match src { Some(x) => check(x.offset == d[p].offset && x.next_offset() == d[pos - 1].next_offset(), 390), None => fail(391) }
            }
            let mut e = m;
            check(e.remaining_data_len() == d.len() - p, 392);
            e.update(r);
            c = e;
        }
        check(c.remaining_data_len() == d.len() - pos, 393);
        observe(pos as u64);
        marks.push((c, pos));
    }
}
#[no_mangle] pub fn h_c22_two() { cursor(2, 3, Z1) }
#[no_mangle] pub fn h_c22_three() { cursor(3, 2, Z1) }
#[no_mangle] pub fn h_c22_four() { cursor(4, 3, Z1) }
#[no_mangle] pub fn h_c22_names() { cursor(2, 2, Z2) }
#[no_mangle] pub fn h_c22_five() { cursor(5, 4, Z1) }
/// Skipping in longer lists of nodes.
#[no_mangle] pub fn h_c22_ignore() {
    let n = pick(9);
    let mut d = vec![];
    for i in 0..n { let r = Range::new(2 * i as usize, 1); d.push(r.wrap(match pick(3) { 0 => MetaData::StartNode(s1(one_of(b"ab"))), 1 => MetaData::EndNode(s1(one_of(b"ab"))), _ => MetaData::Bool(s("c"), true) })); }
    let c0 = Convert::new(&d);
    let mut c = c0;
    let mut pos = 0;
    while c.remaining_data_len() > 0 {
        let r = c.ignore();
        let (mut depth, mut i, mut balanced) = (0i32, pos, false);
        while i < d.len() {
            match d[i].data { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} }
            i += 1;
            if depth <= 0 { balanced = true; break; }
        }
        if balanced { check(r.length == i - pos, 386); cover(0); } else { check(r.length >= 1 && r.length <= d.len() - pos, 387); cover(1); }
        pos += r.length;
        c.update(r);
        check(c.remaining_data_len() == d.len() - pos && c.subtract(c0).length == pos, 393);
    }
}

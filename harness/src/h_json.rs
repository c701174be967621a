//! JSON output: string literals and meta data.
use crate::prelude::*;
use crate::sx::*;
use piston_meta::json;

/// Reads a JSON string literal at `p`; the position after it and the decoded text. None when it is not one.
fn literal(b: &[u8], p: usize) -> Option<(usize, Vec<u8>)> {
    let mut v = vec![];
    if p >= b.len() || b[p] != b'"' { return None; }
    let mut i = p + 1;
    loop {
        if i >= b.len() { return None; }
        match b[i] {
            b'"' => return Some((i + 1, v)),
            b'\\' => {
                if i + 1 >= b.len() { return None; }
                let k = b[i + 1];
                let c = match k {
                    b'"' => 34u32, b'\\' => 92, b'/' => 47, b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9,
                    b'u' => {
                        if i + 5 >= b.len() { return None; }
                        let mut n = 0u32;
                        let mut j = i + 2;
                        while j < i + 6 {
                            let d = b[j];
                            let x = if d >= b'0' && d <= b'9' { d - b'0' } else if d >= b'a' && d <= b'f' { d - b'a' + 10 } else if d >= b'A' && d <= b'F' { d - b'A' + 10 } else { return None };
                            n = n * 16 + x as u32;
                            j += 1;
                        }
                        i += 4;
                        n
                    }
                    _ => return None,
                };
                i += 2;
                if c < 0x80 { v.push(c as u8); }
                else if c < 0x800 { v.push(0xc0 | (c >> 6) as u8); v.push(0x80 | (c & 63) as u8); }
                else if c >= 0xd800 && c < 0xe000 { return None; }
                else { v.push(0xe0 | (c >> 12) as u8); v.push(0x80 | (c >> 6 & 63) as u8); v.push(0x80 | (c & 63) as u8); }
            }
            c => { if c < 0x20 { return None; } v.push(c); i += 1; }
        }
    }
}
fn string_back(t: &str) {
    let mut o: Vec<u8> = vec![];
    check(json::write_string(&mut o, t).is_ok(), 260);
    match literal(&o, 0) {
        None => fail(261),
        Some((p, v)) => { check(p == o.len(), 262); check(v.as_slice() == t.as_bytes(), 263); }
    }
    observe_bytes(&o);
    if o.len() > t.len() + 2 { cover(0); }
    // the library's own reader
    let o = string(o);
    let x = syn(vec![text(true, Some("t"), 1)]);
    let mut toks = vec![];
    match piston_meta::parse(&x, &o, &mut toks) {
        Ok(()) => {
            check(toks.len() == 1, 264);
            match &toks[0].data { MetaData::String(_, v) => check(v.as_bytes() == t.as_bytes(), 265), _ => fail(266) }
            check(toks[0].offset == 0 && toks[0].length == o.len(), 267);
            cover(1);
        }
        Err(_) => fail(268),
    }
}
#[no_mangle] pub fn h_c17_ascii() { let t = any_str(3, 1, &ascii_all()); string_back(&t) }
#[no_mangle] pub fn h_c17_ascii4() { let t = any_str(4, 1, &ascii_all()); string_back(&t) }
#[no_mangle] pub fn h_c17_two() { let t = any_str(1, 15, &ascii_all()); string_back(&t) }
/// A wide character, then anything in front and behind.
#[no_mangle] pub fn h_c17_mixed() {
    let mut v = vec![];
    let a = pick(2);
    if a > 0 { v.push(byte_in(&ascii_all())); }
    any_char(&mut v, 14, &ascii_all());
    if pick(2) > 0 { v.push(byte_in(&ascii_all())); }
    string_back(&string(v))
}
/// One or two symbolic characters in a long text.
#[no_mangle] pub fn h_c17_long() {
    let n = [7usize, 8, 15, 16, 31, 32, 40][pick(7) as usize];
    let mut v = vec![b'x'; n];
    let p = pick(n as u32) as usize;
    v[p] = byte_in(&ascii_all());
    if p + 1 < n { v[p + 1] = one_of(b"\\\"\n\x01x\x7fu0"); }
    string_back(&string(v))
}

// ---- meta data ----

const NUMS: [f64; 16] = [0.0, -0.0, 1.0, -1.5, 1e300, 1e-300, 0.1, 9007199254740993.0, 123456.789, 5e-324, -1.7976931348623157e308, 1e21, 4.35, -2.2250738585072014e-308, 100.0, 0.30000000000000004];
struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
    fn ws(&mut self) { while self.p < self.b.len() && matches!(self.b[self.p], b' ' | b'\n' | b'\r' | b'\t') { self.p += 1; } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.p < self.b.len() && self.b[self.p] == c { self.p += 1; true } else { false } }
    fn lit(&mut self) -> Vec<u8> { self.ws(); match literal(self.b, self.p) { Some((p, v)) => { self.p = p; v } None => fail(270) } }
    fn word(&mut self, w: &[u8]) -> bool { if self.b.len() - self.p >= w.len() && &self.b[self.p..self.p + w.len()] == w { self.p += w.len(); true } else { false } }
    /// A JSON number, strictly.
    fn num(&mut self) -> f64 {
        let st = self.p;
        let dig = |r: &mut R, code: u32| { let s = r.p; while r.p < r.b.len() && r.b[r.p].is_ascii_digit() { r.p += 1; } check(r.p > s, code); s };
        if self.word(b"-") {}
        let s = dig(self, 271);
        check(self.b[s] != b'0' || self.p == s + 1, 272);
        if self.word(b".") { dig(self, 273); }
        if self.word(b"e") || self.word(b"E") { if !self.word(b"+") { self.word(b"-"); } dig(self, 274); }
        match std::str::from_utf8(&self.b[st..self.p]).unwrap().parse::<f64>() { Ok(x) => x, Err(_) => fail(275) }
    }
    /// Members of an object up to its end; compares them with the data.
    fn members(&mut self, d: &[Md], k: &mut usize, top: bool) {
        let mut n = 0;
        loop {
            self.ws();
            let over = *k >= d.len() || matches!(d[*k].data, MetaData::EndNode(_));
            if over { break; }
            if n > 0 { check(self.eat(b','), 276); }
            n += 1;
            let key = self.lit();
            check(self.eat(b':'), 277);
            self.ws();
            let (name, _) = match &d[*k].data { MetaData::StartNode(n) | MetaData::EndNode(n) | MetaData::Bool(n, _) | MetaData::F64(n, _) | MetaData::String(n, _) => (n.clone(), 0) };
            check(key.as_slice() == name.as_bytes(), 278);
            match &d[*k].data {
                MetaData::Bool(_, v) => { check(self.word(if *v { b"true" } else { b"false" }), 279); *k += 1; }
                MetaData::F64(_, v) => { let x = self.num(); check(x.to_bits() == v.to_bits(), 280); *k += 1; }
                MetaData::String(_, v) => { let x = self.lit(); check(x.as_slice() == v.as_bytes(), 281); *k += 1; }
                MetaData::StartNode(_) => {
                    check(self.eat(b'{'), 282);
                    *k += 1;
                    self.members(d, k, false);
                    check(self.eat(b'}'), 283);
                    *k += 1;
                    cover(1);
                }
                MetaData::EndNode(_) => fail(999),
            }
        }
        if !top { check(*k < d.len(), 284); }
        if n > 1 { cover(2); }
    }
}
fn written(d: &[Md]) {
    let mut o: Vec<u8> = vec![];
    check(json::write(&mut o, d).is_ok(), 285);
    observe_bytes(&o);
    let mut r = R { b: &o, p: 0 };
    let mut k = 0;
    r.members(d, &mut k, true);
    r.ws();
    check(k == d.len() && r.p == o.len(), 286);
    cover(0);
}
fn name(set: &[u8], max: u32) -> Arc<String> { Arc::new(str_of(max, set)) }
/// A well nested list of n items (ends not counted); `full` adds symbolic names and values.
fn nested(n: u32, full: bool) -> Vec<Md> {
    let mut d: Vec<Md> = vec![];
    let mut open: Vec<Arc<String>> = vec![];
    let mut left = n;
    loop {
        // 0 stop, 1 bool, 2 number, 3 string, 4 open, 5 close
        let k = pick(if open.is_empty() { 5 } else { 6 });
        if k == 0 { break; }
        let r = Range::new(d.len(), 1);
        if k == 5 { let n = open.pop().unwrap(); d.push(r.wrap(MetaData::EndNode(n))); continue; }
        if left == 0 { reject(); }
        left -= 1;
        let nm = if full { name(b"a\"\\\n", 1) } else { s("k") };
        match k {
            1 => d.push(r.wrap(MetaData::Bool(nm, flag()))),
            2 => d.push(r.wrap(MetaData::F64(nm, NUMS[if full { pick(16) as usize } else { 2 }]))),
            3 => d.push(r.wrap(MetaData::String(nm, if full { name(b"{},:\"\\\x01", 2) } else { s("{v}") }))),
            _ => { open.push(nm.clone()); d.push(r.wrap(MetaData::StartNode(nm))); }
        }
    }
    while let Some(n) = open.pop() { let r = Range::new(d.len(), 0); d.push(r.wrap(MetaData::EndNode(n))); }
    d
}
#[no_mangle] pub fn h_c18_shape() { let d = nested(4, false); written(&d) }
#[no_mangle] pub fn h_c18_shape5() { let d = nested(5, false); written(&d) }
#[no_mangle] pub fn h_c18_shape6() { let d = nested(6, false); written(&d) }
#[no_mangle] pub fn h_c18_values() { let d = nested(2, true); written(&d) }
#[no_mangle] pub fn h_c18_values3() { let d = nested(3, true); written(&d) }
/// Nodes inside nodes, many levels.
#[no_mangle] pub fn h_c18_deep() {
    let n = 1 + pick(40) as usize;
    let mut d = vec![];
    for i in 0..n { d.push(Range::new(i, 0).wrap(MetaData::StartNode(s1(b'a' + (i % 26) as u8)))); if i % 7 == 3 && pick(2) == 1 { d.push(Range::new(i, 1).wrap(MetaData::Bool(s("b"), i % 2 == 0))); } }
    for i in (0..n).rev() { d.push(Range::new(i, 0).wrap(MetaData::EndNode(s1(b'a' + (i % 26) as u8)))); }
    written(&d)
}
/// Any list of items, nested or not.
#[no_mangle] pub fn h_c18_any() {
    let n = pick(7);
    let mut d = vec![];
    for i in 0..n {
        let r = Range::new(i as usize, 1);
        d.push(r.wrap(match pick(4) { 0 => MetaData::StartNode(s("a")), 1 => MetaData::EndNode(s("b")), 2 => MetaData::Bool(s("c"), flag()), _ => MetaData::String(s("d"), s("e")) }));
    }
    let mut o: Vec<u8> = vec![];
    check(json::write(&mut o, &d).is_ok(), 287);
    observe_bytes(&o);
    let (mut a, mut ok) = (0i32, true);
    for x in &d { match x.data { MetaData::StartNode(_) => a += 1, MetaData::EndNode(_) => { a -= 1; if a < 0 { ok = false; } } _ => {} } }
    if ok && a == 0 { cover(0); } else { cover(1); }
}
/// Numbers that are not finite have no JSON form, but do not panic.
#[no_mangle] pub fn h_c18_odd() {
    let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][pick(3) as usize];
    let mut o: Vec<u8> = vec![];
    check(json::write(&mut o, &[Range::new(0, 1).wrap(MetaData::F64(s("x"), v))]).is_ok(), 287);
    cover(0);
}
/// What is read can be written and read again with a grammar for it.
#[no_mangle] pub fn h_c18_parsed() {
    let x = syn(vec![
        seq(vec![opt(tagp("+", "plus", 1), 2), until_w("[]+;", true, Some("w"), 3), opt(seq(vec![tag("[", 4), sep(node("r0", Some("n"), Some(0), 5), tag(";", 6), true, true, 7), tag("]", 8)], 9), 10)], 11),
        sep(node("r0", Some("m"), Some(0), 12), tag(";", 13), true, true, 14),
    ]);
    let t = str_of(5, b"a[];+\"");
    let mut d = vec![];
    if piston_meta::parse(&x, &t, &mut d).is_ok() { written(&d); } else { cover(3); }
}

//! Reference reading of a rule tree: a direct interpreter of the documented meaning of every rule,
//! over bytes, written without any of the library's parsing code. It records every failure.
#![allow(dead_code)]
use crate::prelude::*;
use read_token::{ParseNumberError, ParseStringError};

pub fn is_ws(c: u32) -> bool {
    (c >= 9 && c <= 13) || c == 32
        || (c >= 0x80 && matches!(c, 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000))
}
/// Character at a position: (code point, length in bytes).
pub fn char_at(t: &[u8], p: usize) -> Option<(u32, usize)> {
    if p >= t.len() { return None; }
    let b = t[p] as u32;
    if b < 0x80 { return Some((b, 1)); }
    let c = |i: usize| (t[p + i] & 0x3f) as u32;
    if b < 0xe0 { return Some(((b & 0x1f) << 6 | c(1), 2)); }
    if b < 0xf0 { return Some(((b & 0xf) << 12 | c(1) << 6 | c(2), 3)); }
    Some(((b & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4))
}
pub fn put_char(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 { v.push(c as u8) }
    else if c < 0x800 { v.push(0xc0 | (c >> 6) as u8); v.push(0x80 | (c & 0x3f) as u8) }
    else if c < 0x10000 { v.push(0xe0 | (c >> 12) as u8); v.push(0x80 | (c >> 6 & 0x3f) as u8); v.push(0x80 | (c & 0x3f) as u8) }
    else { v.push(0xf0 | (c >> 18) as u8); v.push(0x80 | (c >> 12 & 0x3f) as u8); v.push(0x80 | (c >> 6 & 0x3f) as u8); v.push(0x80 | (c & 0x3f) as u8) }
}
pub fn on_boundary(t: &[u8], p: usize) -> bool { p == t.len() || (p < t.len() && (t[p] & 0xc0) != 0x80) }

#[derive(Clone, Copy)]
pub struct Ind { pub indent: usize, pub align_first: bool, pub tab: usize }
impl Default for Ind { fn default() -> Ind { Ind { indent: 0, align_first: true, tab: 4 } } }

pub struct Ref<'a> {
    pub refs: &'a [Rule],
    pub t: &'a [u8],
    pub out: Vec<Md>,
    pub fails: Vec<Range<ParseError>>,
    pub quiet: u32,
    pub depth: u32,
    /// rules tried, for coverage
    pub tried: u32,
    /// string literals among the emitted items (their value is decoded)
    pub literals: u32,
    /// selects that failed without a not-rule around them: (position, id)
    pub sels: Vec<(usize, usize)>,
}

impl<'a> Ref<'a> {
    pub fn new(refs: &'a [Rule], t: &'a [u8]) -> Ref<'a> { Ref { refs, t, out: vec![], fails: vec![], quiet: 0, depth: 0, tried: 0, literals: 0, sels: vec![] } }
    fn fail(&mut self, off: usize, len: usize, e: ParseError) -> Option<usize> {
        if self.quiet == 0 { self.fails.push(Range::new(off, len).wrap(e)); }
        None
    }
    fn has(&self, p: usize, w: &[u8]) -> bool { p + w.len() <= self.t.len() && &self.t[p..p + w.len()] == w }
    fn emit(&mut self, a: usize, b: usize, d: MetaData) { self.out.push(Range::new(a, b - a).wrap(d)); }
    fn slice(&self, a: usize, b: usize) -> Arc<String> { Arc::new(string(self.t[a..b].to_vec())) }

    pub fn rule(&mut self, r: &Rule, p: usize, ind: &mut Ind) -> Option<usize> {
        self.tried += 1;
        let mark = self.out.len();
        self.depth += 1;
        // deeper than any text of these sizes can justify: left recursion
        if self.depth > 60 { crate::sx::reject(); }
        let x = self.rule_(r, p, ind);
        self.depth -= 1;
        if x.is_none() { self.out.truncate(mark); }
        x
    }
    fn until(&self, p: usize, any: &[u8], ws: bool) -> usize {
        let mut q = p;
        'o: while let Some((c, n)) = char_at(self.t, q) {
            if ws && is_ws(c) { break; }
            let mut k = 0;
            while let Some((d, m)) = char_at(any, k) { if c == d { break 'o; } k += m; }
            q += n;
        }
        q
    }
    fn rule_(&mut self, r: &Rule, p: usize, ind: &mut Ind) -> Option<usize> {
        match r {
            Rule::Whitespace(w) => {
                let mut q = p;
                while let Some((c, n)) = char_at(self.t, q) { if !is_ws(c) { break; } q += n; }
                if q == p && !w.optional { return self.fail(p, 0, ParseError::ExpectedWhitespace(w.debug_id)); }
                Some(q)
            }
            Rule::Tag(g) => {
                let m = self.has(p, g.text.as_bytes());
                let e = if m { p + g.text.len() } else { p };
                match (m, g.not) {
                    (true, true) => return self.fail(p, e - p, ParseError::DidNotExpectTag(g.text.clone(), g.debug_id)),
                    (false, false) => return self.fail(p, 0, ParseError::ExpectedTag(g.text.clone(), g.debug_id)),
                    _ => {}
                }
                if let Some(n) = &g.property { self.emit(p, e, MetaData::Bool(n.clone(), !g.inverted)); }
                Some(e)
            }
            Rule::UntilAny(u) => self.read_until(p, &u.any_characters, false, u.optional, &u.property, u.debug_id),
            Rule::UntilAnyOrWhitespace(u) => self.read_until(p, &u.any_characters, true, u.optional, &u.property, u.debug_id),
            Rule::Text(x) => self.text(p, x),
            Rule::Number(n) => self.number(p, n),
            Rule::Select(x) => {
                if x.args.is_empty() { return self.fail(p, 0, ParseError::InvalidRule("`Select` requires at least one sub rule", x.debug_id)); }
                if self.quiet == 0 { self.sels.push((p, x.debug_id)); }
                for a in &x.args { if let Some(q) = self.rule(a, p, ind) { return Some(q); } }
                None
            }
            Rule::FastSelect(_) => crate::sx::reject(),
            Rule::Sequence(x) => {
                let mut q = p;
                for a in &x.args { q = self.rule(a, q, ind)?; }
                Some(q)
            }
            Rule::Optional(o) => Some(self.rule(&o.rule, p, ind).unwrap_or(p)),
            Rule::Not(n) => {
                self.quiet += 1;
                let mark = self.out.len();
                let q = self.rule(&n.rule, p, ind);
                self.out.truncate(mark);
                self.quiet -= 1;
                match q {
                    None => Some(p),
                    Some(q) => { let t = self.slice(p, q); self.fail(p, q - p, ParseError::DidNotExpectTag(t, n.debug_id)) }
                }
            }
            Rule::Repeat(x) => {
                let mut q = p;
                let mut n = 0;
                while let Some(e) = self.rule(&x.rule, q, ind) {
                    n += 1;
                    // reading nothing once is reading nothing any number of times
                    if e == q { break; }
                    q = e;
                }
                if n == 0 && !x.optional { return None; }
                Some(q)
            }
            Rule::SeparateBy(x) => {
                let mut q = p;
                let mut first = true;
                loop {
                    let round = q;
                    match self.rule(&x.rule, q, ind) {
                        None => {
                            if (first && !x.optional) || (!first && !x.allow_trail) { return None; }
                            return Some(q);
                        }
                        Some(e) => q = e,
                    }
                    match self.rule(&x.by, q, ind) { None => return Some(q), Some(e) => q = e }
                    if q == round { return Some(q); }
                    first = false;
                }
            }
            Rule::Node(n) => {
                let i = match n.index { Some(i) => i, None => return self.fail(p, 0, ParseError::InvalidRule("Node rule is not updated to reference", n.debug_id)) };
                if let Some(x) = &n.property { self.emit(p, p, MetaData::StartNode(x.clone())); }
                let refs = self.refs;
                let q = self.rule(&refs[i], p, ind)?;
                if let Some(x) = &n.property { self.emit(p, q, MetaData::EndNode(x.clone())); }
                Some(q)
            }
            Rule::Lines(l) => self.lines(p, l, ind),
        }
    }
    fn read_until(&mut self, p: usize, any: &str, ws: bool, optional: bool, prop: &Option<Arc<String>>, id: usize) -> Option<usize> {
        let q = self.until(p, any.as_bytes(), ws);
        if q == p && !optional { return self.fail(p, 0, ParseError::ExpectedSomething(id)); }
        if let Some(n) = prop { let t = self.slice(p, q); self.emit(p, q, MetaData::String(n.clone(), t)); }
        Some(q)
    }
    /// A JSON string literal.
    fn text(&mut self, p: usize, x: &Text) -> Option<usize> {
        let id = x.debug_id;
        if self.t.get(p) != Some(&b'"') { return self.fail(p, 0, ParseError::ExpectedText(id)); }
        // find the closing quote
        let mut q = p + 1;
        loop {
            match char_at(self.t, q) {
                None => return self.fail(p, 0, ParseError::ExpectedText(id)),
                Some((34, _)) => break,
                Some((92, _)) => match char_at(self.t, q + 1) { None => return self.fail(p, 0, ParseError::ExpectedText(id)), Some((_, n)) => q += 1 + n },
                Some((_, n)) => q += n,
            }
        }
        let end = q + 1;
        if end == p + 2 && !x.allow_empty { return self.fail(p, 2, ParseError::EmptyTextNotAllowed(id)); }
        let mut v: Vec<u8> = vec![];
        let mut k = p + 1;
        while k < q {
            if self.t[k] != b'\\' { v.push(self.t[k]); k += 1; continue; }
            let e = self.t[k + 1];
            let c = match e {
                b'"' => 34, b'\\' => 92, b'/' => 47, b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9,
                b'u' => {
                    let mut code = 0u32;
                    for i in 0..4 {
                        let h = if k + 2 + i < self.t.len() { self.t[k + 2 + i] } else { 0 };
                        let d = match h { b'0'..=b'9' => h - b'0', b'a'..=b'f' => h - b'a' + 10, b'A'..=b'F' => h - b'A' + 10, _ => return self.fail(k + 2 + i, 1, ParseError::ParseStringError(ParseStringError::ExpectedHexadecimal, id)) };
                        code = code << 4 | d as u32;
                    }
                    if code >= 0xd800 && code < 0xe000 { return self.fail(k + 2, 3, ParseError::ParseStringError(ParseStringError::ExpectedValidUnicode, id)); }
                    k += 4;
                    code
                }
                _ => return self.fail(k + 1, 1, ParseError::ParseStringError(ParseStringError::ExpectedValidEscapeCharacter, id)),
            };
            put_char(&mut v, c);
            k += 2;
        }
        if let Some(n) = &x.property { self.literals += 1; self.emit(p, end, MetaData::String(n.clone(), Arc::new(string(v)))); }
        Some(end)
    }
    /// A number: sign, digits with an optional point, optional exponent with sign; underscores after the first digit when allowed.
    fn number(&mut self, p: usize, n: &Number) -> Option<usize> {
        let id = n.debug_id;
        let t = self.t;
        let at = |k: usize| if k < t.len() { t[k] } else { 0 };
        let dig = |b: u8| b >= b'0' && b <= b'9';
        let mut q = p;
        if at(q) == b'+' || at(q) == b'-' { q += 1; }
        let (mut point, mut exp, mut esign, mut digit) = (false, false, false, false);
        loop {
            let c = at(q);
            if q >= t.len() { break; }
            if dig(c) { digit = true; }
            else if digit && n.allow_underscore && c == b'_' {}
            else if !point && c == b'.' { point = true; }
            else if !exp && (c == b'e' || c == b'E') && q > p { exp = true; }
            else if exp && !esign && (c == b'+' || c == b'-') { esign = true; }
            else { break; }
            // the exponent sign may come at any later place, a malformed number then
            q += 1;
        }
        if q == p { return self.fail(p, 0, ParseError::ExpectedNumber(id)); }
        let bad = |e| ParseError::ParseNumberError(e, id);
        // value of t[p..q]
        let mut k = p;
        let neg = at(k) == b'-';
        if neg { k += 1; if k == q { return self.fail(p, q - p, bad(ParseNumberError::ExpectedDigits)); } }
        let (mut m, mut frac) = (0f64, 0i32);
        let us = n.allow_underscore;
        while k < q && (dig(t[k]) || (us && t[k] == b'_')) { if t[k] != b'_' { m = m * 10.0 + (t[k] - b'0') as f64; } k += 1; }
        if k < q && t[k] == b'.' {
            k += 1;
            while k < q && (dig(t[k]) || (us && t[k] == b'_')) { if t[k] != b'_' { m = m * 10.0 + (t[k] - b'0') as f64; frac += 1; } k += 1; }
        }
        let mut ex = 0i32;
        if k < q {
            if t[k] != b'e' && t[k] != b'E' { return self.fail(p, q - p, bad(ParseNumberError::Invalid)); }
            k += 1;
            if k == q { return self.fail(p, q - p, bad(ParseNumberError::Invalid)); }
            let mut en = false;
            if t[k] == b'-' || t[k] == b'+' { en = t[k] == b'-'; k += 1; }
            while k < q {
                if us && t[k] == b'_' { k += 1; continue; }
                if !dig(t[k]) { return self.fail(p, q - p, bad(ParseNumberError::Invalid)); }
                ex = ex * 10 + (t[k] - b'0') as i32;
                k += 1;
            }
            if en { ex = -ex; }
        }
        let mut v = m;
        let mut e10 = ex - frac;
        while e10 > 0 { v *= 10.0; e10 -= 1; }
        let mut d = 1.0;
        while e10 < 0 { d *= 10.0; e10 += 1; }
        v /= d;
        if neg { v = -v; }
        if let Some(x) = &n.property { self.emit(p, q, MetaData::F64(x.clone(), v)); }
        Some(q)
    }
    /// First position at or after p that is not white space, and the position after the last new line before it.
    fn blank(&self, p: usize) -> (usize, Option<usize>) {
        let (mut q, mut nl) = (p, None);
        while let Some((c, n)) = char_at(self.t, q) { if !is_ws(c) { break; } q += n; if c == 10 { nl = Some(q); } }
        (q, nl)
    }
    fn lines(&mut self, p: usize, l: &Lines, ind: &mut Ind) -> Option<usize> {
        let saved = *ind;
        let mut q = p;
        let mut fresh = true; // a new line separates this place from the previous item
        let mut first = true;
        let res = loop {
            let (text_at, nl) = self.blank(q);
            if text_at == self.t.len() { break Some(text_at); }
            if let Some(n) = nl { q = n; fresh = true; }
            if !fresh { break self.fail(q, 0, ParseError::ExpectedNewLine(l.debug_id)); }
            let e = if l.indent { self.indented(q, text_at, l, ind, &mut first) } else { self.rule(&l.rule, q, ind) };
            match e {
                None => break Some(q),
                Some(e) => {
                    // an item that itself ends in a new line needs no further one
                    fresh = false;
                    let mut k = q;
                    while let Some((c, n)) = if k < e { char_at(self.t, k) } else { None } { if c == 10 { fresh = true; } else if !is_ws(c) { fresh = false; } k += n; }
                    q = e;
                }
            }
        };
        ind.indent = saved.indent;
        res
    }
    /// One line of an indented block that starts at q with its text at `at`.
    fn indented(&mut self, q: usize, _at: usize, l: &Lines, ind: &mut Ind, first: &mut bool) -> Option<usize> {
        let mut k = q;
        let mut need = ind.indent;
        while need > 0 {
            match self.t.get(k) {
                Some(32) => { k += 1; need -= 1; }
                Some(9) => { k += 1; need = if need <= ind.tab { 0 } else { need - ind.tab }; if need == 0 { break; } }
                _ => return None,
            }
        }
        if *first && ind.align_first {
            loop {
                match self.t.get(k) { Some(32) => { k += 1; ind.indent += 1; } Some(9) => { k += 1; ind.indent += ind.tab; } _ => break }
            }
        } else if matches!(self.t.get(k), Some(32) | Some(9)) { return None; }
        *first = false;
        let level = ind.indent;
        ind.indent = level + 1;
        let e = self.rule(&l.rule, k, ind);
        ind.indent = level;
        e
    }
    /// Whole document: Ok or every failure that was met.
    pub fn parse(&mut self, ind: Ind) -> bool {
        let n = self.refs.len();
        if n == 0 { self.fail(0, 0, ParseError::NoRules); return false; }
        let mut ind = ind;
        let refs = self.refs;
        match self.rule(&refs[n - 1], 0, &mut ind) {
            None => false,
            Some(q) if q == self.t.len() => true,
            Some(q) => { self.fail(q, 0, ParseError::ExpectedEnd); self.out.clear(); false }
        }
    }
    /// Furthest end of any recorded failure.
    pub fn deepest(&self) -> usize { let mut m = 0; for f in &self.fails { let e = f.offset + f.length; if e > m { m = e; } } m }
}

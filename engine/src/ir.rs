//! Textual LLVM IR: module index (globals, functions, metadata) and lazy decoding of function bodies.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(Rc<Ty>, u64), Struct(Rc<Vec<Ty>>, bool), Vec(Rc<Ty>, u64), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 8 { b.next_power_of_two() } else { (b + 15) / 16 * 16 } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => match **t { Ty::Int(1) => ((*n + 7) / 8).next_power_of_two(), _ => t.size() * n },
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut al = 1;
                for t in f.iter() { let a = if *packed { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a; o += t.size(); }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 8 { b.next_power_of_two() } else { 16 } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(t, _) | Ty::Vec(t, _) => t.size() * i as u64,
            _ => panic!("offset in {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(), _ => panic!("elem of {:?}", self) }
    }
    /// Bit width of a scalar.
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {:?}", self) } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

/// Constant values.
#[derive(Clone, Debug)]
pub enum K { I(u128), Agg(Vec<K>), Bytes(Vec<u8>), Zero }

/// Operands of instructions.
#[derive(Clone, Debug)]
pub enum O { Reg(u32), I(u64), K(Rc<K>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum I {
    Bin(crate::expr::Op, u32, O, O),
    BinV(crate::expr::Op, Ty, O, O),
    FBin(u8, u32, O, O),
    FNeg(u32, O),
    Icmp(Pred, u32, O, O),
    IcmpV(Pred, Ty, O, O),
    Fcmp(u8, u32, O, O),
    ZExt(u32, u32, O), SExt(u32, u32, O), Trunc(u32, u32, O),
    CastV(u8, Ty, Ty, O),
    /// float conversions: kind, from width, to width
    FCast(u8, u32, u32, O),
    BitcastV(Ty, Ty, O),
    Mov(O),
    Load(Ty, O), Store(Ty, O, O),
    Gep(O, u64, Box<[(O, u32, u64)]>),
    Alloca(u64, O),
    Select(Ty, O, Ty, O, O),
    Call(Box<Call>),
    ExtractV(O, Ty, Box<[u32]>), InsertV(Ty, O, O, Box<[u32]>),
    ExtractE(Ty, O, O), InsertE(Ty, O, O, O), Shuffle(Ty, O, O, Box<[u32]>),
    /// atomic accesses carry their ordering: bit 0 acquire, bit 1 release
    LoadA(Ty, O, u8), StoreA(Ty, O, O, u8),
    AtomicRmw(u8, Ty, O, O, u8), CmpXchg(Ty, O, O, O, u8, u8),
    Fence(u8),
    Br(Edge), CondBr(O, Edge, Edge), Switch(u32, O, Edge, Box<[(u128, Edge)]>),
    Ret(Option<O>),
    Unreachable,
    LandingPad,
}
#[derive(Clone, Debug)]
pub struct Edge { pub block: u32, pub moves: Rc<[(u32, O)]> }
#[derive(Clone, Debug)]
pub struct Call { pub ret: Ty, pub callee: O, pub args: Vec<(Ty, O)>, pub normal: Option<Edge> }

pub struct Inst { pub dst: u32, pub dbg: u32, pub i: I }
pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
}
pub const NODST: u32 = u32::MAX;

pub struct Decl { pub name: String, pub body: Option<(usize, usize)>, pub head: (usize, usize), pub sp: u32 }
pub struct Global { pub name: String, pub addr: u64, pub ty: Ty, pub init: Option<K>, pub constant: bool }

pub struct Module {
    pub text: Vec<u8>,
    pub decls: Vec<Decl>,
    pub fn_by_name: HashMap<String, u32>,
    pub addr: HashMap<String, u64>,
    pub globals: Vec<Global>,
    pub meta: HashMap<u32, usize>,
    pub cache: RefCell<Vec<Option<&'static Func>>>,
    pub aliases: HashMap<String, String>,
}

pub const SLOT: u64 = 1 << 20;
pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const GLOBAL_SLOT0: u64 = 16;

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Id(&'a str), Num(&'a str), Local(String), Global(String), Meta(&'a str), Str(Vec<u8>), CStr(Vec<u8>), P(u8), Attr, End }

pub struct Lx<'a> { pub s: &'a [u8], pub i: usize, pub end: usize, pk: Option<(T<'a>, usize, usize)> }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lx<'a> {
    pub fn new(s: &'a [u8], i: usize, end: usize) -> Lx<'a> { Lx { s, i, end, pk: None } }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { v.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        v
    }
    fn raw(&mut self) -> T<'a> {
        loop {
            if self.i >= self.end { return T::End; }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; continue; }
            if c == b';' { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        let st = self.i;
        let c = self.s[st];
        let word = |me: &mut Self| { let b = me.i; while me.i < me.end && idc(me.s[me.i]) { me.i += 1; } unsafe { std::str::from_utf8_unchecked(&me.s[b..me.i]) } };
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' { String::from_utf8_lossy(&self.quoted()).into_owned() } else { word(self).to_string() };
                if c == b'%' { T::Local(n) } else { T::Global(n) }
            }
            b'!' => { self.i += 1; if self.i < self.end && (idc(self.s[self.i])) { T::Meta(word(self)) } else { T::P(b'!') } }
            b'#' => { self.i += 1; word(self); T::Attr }
            b'"' => T::Str(self.quoted()),
            b'c' if self.s[st + 1] == b'"' => { self.i += 1; T::CStr(self.quoted()) }
            b'0'..=b'9' | b'-' | b'+' => {
                self.i += 1;
                while self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                T::Num(unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) })
            }
            b'.' if self.s[st + 1] == b'.' => { self.i += 3; T::Id("...") }
            c if idc(c) => T::Id(word(self)),
            c => { self.i += 1; T::P(c) }
        }
    }
    pub fn next(&mut self) -> T<'a> { if let Some((t, _, e)) = self.pk.take() { self.i = e; return t; } self.raw() }
    pub fn peek(&mut self) -> &T<'a> {
        if self.pk.is_none() { let st = self.i; let t = self.raw(); let e = self.i; self.i = st; self.pk = Some((t, st, e)); }
        &self.pk.as_ref().unwrap().0
    }
    pub fn isp(&mut self, c: u8) -> bool { *self.peek() == T::P(c) }
    pub fn eat(&mut self, c: u8) -> bool { if self.isp(c) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected {:?} got {:?} at: {}", c as char, t, self.ctx()) } }
    pub fn eatid(&mut self, s: &str) -> bool { if let T::Id(x) = self.peek() { if *x == s { self.next(); return true; } } false }
    pub fn ctx(&self) -> String { let e = (self.i + 120).min(self.end); let b = self.i.saturating_sub(120); String::from_utf8_lossy(&self.s[b..e]).into_owned() }
    /// Rest of the current line (consumed).
    pub fn rest(&mut self) -> &'a str {
        if let Some((_, st, _)) = self.pk.take() { self.i = st; }
        let b = self.i;
        // a peek may have skipped white space; start from the current index
        while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.s[b..self.i]) }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::End => panic!("eof"), _ => {} } }
    }

    pub fn try_ty(&mut self) -> Option<Ty> {
        let t = match self.peek().clone() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => { self.next(); if self.eatid("addrspace") { self.skip_parens(); } return Some(Ty::Ptr); }
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("half") | T::Id("fp128") | T::Id("x86_fp80") | T::Id("label") | T::Id("metadata") | T::Id("token") | T::Id("bfloat") => Ty::Other,
            T::Id(s) if s.len() > 1 && s.as_bytes()[0] == b'i' && s.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
            T::P(b'[') => { self.next(); let n = self.num() as u64; assert!(self.eatid("x")); let t = self.ty(); self.expect(b']'); return Some(Ty::Arr(Rc::new(t), n)); }
            T::P(b'<') => {
                self.next();
                if self.isp(b'{') { let t = self.strct(true); self.expect(b'>'); return Some(t); }
                let n = self.num() as u64; assert!(self.eatid("x")); let t = self.ty(); self.expect(b'>'); return Some(Ty::Vec(Rc::new(t), n));
            }
            T::P(b'{') => return Some(self.strct(false)),
            _ => return None,
        };
        self.next();
        Some(t)
    }
    fn strct(&mut self, packed: bool) -> Ty {
        self.expect(b'{');
        let mut f = vec![];
        while !self.eat(b'}') { f.push(self.ty()); self.eat(b','); }
        Ty::Struct(Rc::new(f), packed)
    }
    pub fn ty(&mut self) -> Ty { match self.try_ty() { Some(t) => t, None => panic!("type expected at: {}", self.ctx()) } }
    pub fn num(&mut self) -> i128 { match self.next() { T::Num(s) => parse_int(s) as i128, t => panic!("number expected, got {:?} at {}", t, self.ctx()) } }
    /// Skips attribute words before a type or value.
    fn skip_attrs(&mut self, before_type: bool) {
        loop {
            match self.peek().clone() {
                T::Id(w) => {
                    if before_type && is_ty_word(w) { return; }
                    if !before_type && is_val_word(w) { return; }
                    self.next();
                    if w == "align" { if self.isp(b'(') { self.skip_parens() } else { self.next(); } }
                    else if self.isp(b'(') { self.skip_parens(); }
                }
                T::Attr | T::Str(_) => { self.next(); if self.eat(b'=') { self.next(); } }
                _ => return,
            }
        }
    }
}
fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}
fn is_val_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "asm" | "splat" | "addrspacecast" | "ptrtoaddr")
}
pub fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') { r.parse::<u128>().unwrap().wrapping_neg() } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s)) }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read IR");
        let mut m = Module { text, decls: vec![], fn_by_name: HashMap::new(), addr: HashMap::new(), globals: vec![], meta: HashMap::new(), cache: RefCell::new(vec![]), aliases: HashMap::new() };
        // index lines
        let text = std::mem::take(&mut m.text);
        let n = text.len();
        let mut i = 0;
        let mut glob: Vec<(usize, usize)> = vec![];
        while i < n {
            let e = memchr(&text, i);
            let l = &text[i..e];
            if l.starts_with(b"define ") {
                // find the end
                let mut j = e + 1;
                loop { let k = memchr(&text, j); if &text[j..k] == b"}" { break; } j = k + 1; }
                m.decl(&text, i, e, Some((e + 1, j)));
                i = j + 2;
                continue;
            } else if l.starts_with(b"declare ") { m.decl(&text, i, e, None); }
            else if l.starts_with(b"@") { glob.push((i, e)); }
            else if l.starts_with(b"!") {
                let mut k = 1; let mut v = 0u32;
                while k < l.len() && l[k].is_ascii_digit() { v = v * 10 + (l[k] - b'0') as u32; k += 1; }
                if k > 1 { m.meta.insert(v, i); }
            }
            i = e + 1;
        }
        // global addresses first (initialisers refer to each other)
        let mut parsed: Vec<(usize, usize, usize)> = vec![];
        let mut slot = GLOBAL_SLOT0;
        for (b, e) in glob {
            let mut lx = Lx::new(&text, b, e);
            let name = match lx.next() { T::Global(s) => s, _ => panic!() };
            lx.expect(b'=');
            let mut external = false; let constant;
            loop {
                match lx.next() {
                    T::Id("constant") => { constant = true; break; }
                    T::Id("global") => { constant = false; break; }
                    T::Id("alias") => { constant = false; external = true; lx.ty(); lx.expect(b','); lx.ty(); if let T::Global(g) = lx.next() { m.aliases.insert(name.clone(), g); } break; }
                    T::Id("external") | T::Id("extern_weak") => external = true,
                    T::Id(_) => { if lx.isp(b'(') { lx.skip_parens(); } }
                    t => panic!("global {:?}", t),
                }
            }
            if m.aliases.contains_key(&name) { continue; }
            let ty = lx.ty();
            let size = ty.size().max(1);
            let addr = if external { 0 } else { let a = slot * SLOT; slot += (size + SLOT - 1) / SLOT; a };
            m.addr.insert(name.clone(), addr);
            if !external { parsed.push((lx.i, e, m.globals.len())); m.globals.push(Global { name, addr, ty, init: None, constant }); }
        }
        for (id, d) in m.decls.iter().enumerate() {
            // extern_weak functions are null: the code under test takes its fallback path
            let weak = std::str::from_utf8(&text[d.head.0..d.head.1]).map(|h| h.contains("extern_weak")).unwrap_or(false);
            m.addr.insert(d.name.clone(), if weak { 0 } else { FN_BASE + id as u64 * 16 });
        }
        let al: Vec<_> = m.aliases.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (a, b) in al { let v = m.addr[&b]; m.addr.insert(a.clone(), v); if let Some(&f) = m.fn_by_name.get(&b) { m.fn_by_name.insert(a, f); } }
        for (b, e, gi) in parsed {
            let mut lx = Lx::new(&text, b, e);
            let ty = m.globals[gi].ty.clone();
            let k = m.konst(&mut lx, &ty);
            m.globals[gi].init = Some(k);
        }
        m.cache = RefCell::new(vec![None; m.decls.len()]);
        m.text = text;
        m
    }
    pub fn first_free_slot(&self) -> u64 {
        self.globals.iter().map(|g| g.addr / SLOT + (g.ty.size().max(1) + SLOT - 1) / SLOT).max().unwrap_or(GLOBAL_SLOT0) + 1
    }
    fn decl(&mut self, text: &[u8], b: usize, e: usize, body: Option<(usize, usize)>) {
        let mut i = b;
        while text[i] != b'@' { i += 1; }
        let mut lx = Lx::new(text, i, e);
        let name = match lx.next() { T::Global(s) => s, _ => panic!() };
        let id = self.decls.len() as u32;
        let l = std::str::from_utf8(&text[b..e]).unwrap_or("");
        let sp = l.rfind("!dbg !").map(|p| l[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0);
        self.fn_by_name.insert(name.clone(), id);
        self.decls.push(Decl { name, body, head: (b, e), sp });
    }
    fn konst(&self, lx: &mut Lx, ty: &Ty) -> K {
        match lx.peek().clone() {
            T::Num(s) => {
                lx.next();
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { if s.ends_with("inf") { (if s.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY }).to_bits() } else if s.contains("nan") { let b = f64::NAN.to_bits(); if s.starts_with('-') { b | 1 << 63 } else { b } } else { s.parse::<f64>().unwrap_or_else(|_| panic!("float {}", s)).to_bits() } };
                        if *ty == Ty::F32 { K::I((f64::from_bits(bits) as f32).to_bits() as u128) } else { K::I(bits as u128) }
                    }
                    _ => K::I(parse_int(s) & crate::expr::mask(ty.bits())),
                }
            }
            T::Id(h) if h.starts_with("f0x") && matches!(ty, Ty::F64 | Ty::F32) => { lx.next(); K::I(u128::from_str_radix(&h[3..], 16).unwrap()) }
            T::Id("true") => { lx.next(); K::I(1) }
            T::Id("false") => { lx.next(); K::I(0) }
            T::Id("null") => { lx.next(); K::I(0) }
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => { lx.next(); if ty.scalar() { K::I(0) } else { K::Zero } }
            T::Global(g) => { lx.next(); K::I(*self.addr.get(&g).unwrap_or_else(|| panic!("unknown global {}", g)) as u128) }
            T::CStr(b) => { lx.next(); K::Bytes(b) }
            T::P(b'[') | T::P(b'{') | T::P(b'<') => {
                let o = lx.next();
                let mut close = if o == T::P(b'[') { b']' } else if o == T::P(b'{') { b'}' } else { b'>' };
                if o == T::P(b'<') && lx.isp(b'{') { lx.next(); close = b'}'; }
                let mut v = vec![];
                while !lx.eat(close) { let t = lx.ty(); v.push(self.konst(lx, &t)); lx.eat(b','); }
                if o == T::P(b'<') && close == b'}' { lx.expect(b'>'); }
                K::Agg(v)
            }
            T::Id("splat") => {
                lx.next(); lx.expect(b'('); let t = lx.ty(); let k = self.konst(lx, &t); lx.expect(b')');
                let n = match ty { Ty::Vec(_, n) => *n, _ => panic!() };
                K::Agg(vec![k; n as usize])
            }
            T::Id("getelementptr") => {
                lx.next();
                while !lx.isp(b'(') { if lx.eatid("inrange") { lx.skip_parens(); } else { lx.next(); } }
                lx.expect(b'(');
                let t = lx.ty(); lx.expect(b',');
                lx.ty();
                let base = match self.konst(lx, &Ty::Ptr) { K::I(v) => v as u64, _ => panic!() };
                let mut off = 0u64; let mut cur = t.clone(); let mut first = true;
                while lx.eat(b',') {
                    let it = lx.ty();
                    let i = match self.konst(lx, &it) { K::I(v) => crate::expr::sext(v, it.bits()) as i64, _ => panic!() };
                    if first { off = off.wrapping_add((t.size() as i64).wrapping_mul(i) as u64); first = false; }
                    else { off = off.wrapping_add(match &cur { Ty::Arr(e, _) | Ty::Vec(e, _) => (e.size() as i64).wrapping_mul(i) as u64, _ => cur.offset(i as usize) }); cur = cur.elem(i as usize); }
                }
                lx.expect(b')');
                K::I(base.wrapping_add(off) as u128)
            }
            T::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr")) => {
                lx.next(); lx.expect(b'('); let t = lx.ty(); let k = self.konst(lx, &t); lx.eatid("to"); let t2 = lx.ty(); lx.expect(b')');
                match k { K::I(v) => K::I(v & crate::expr::mask(t2.bits())), k => { let _ = op; k } }
            }
            T::Id(op @ ("sub" | "add" | "xor")) => {
                lx.next(); while !lx.isp(b'(') { lx.next(); }
                lx.expect(b'('); let t = lx.ty(); let a = self.konst(lx, &t); lx.expect(b','); lx.ty(); let b = self.konst(lx, &t); lx.expect(b')');
                match (a, b) { (K::I(a), K::I(b)) => K::I((match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }) & crate::expr::mask(t.bits())), _ => panic!() }
            }
            T::P(b'!') | T::Meta(_) => { lx.next(); if lx.isp(b'(') { lx.skip_parens(); } K::Zero }
            t => panic!("constant expected, got {:?} at: {}", t, lx.ctx()),
        }
    }

    pub fn func(&self, id: u32) -> &'static Func {
        if let Some(f) = self.cache.borrow()[id as usize] { return f; }
        let f: &'static Func = Box::leak(Box::new(self.decode(id)));
        self.cache.borrow_mut()[id as usize] = Some(f);
        f
    }

    fn decode(&self, id: u32) -> Func {
        let d = &self.decls[id as usize];
        let mut params = vec![];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header
        let mut lx = Lx::new(&self.text, d.head.0, d.head.1);
        lx.next();
        let ret;
        loop {
            if let T::Id(w) = lx.peek().clone() { if !is_ty_word(w) { lx.next(); if w == "align" { lx.next(); } else if lx.isp(b'(') { lx.skip_parens(); } continue; } }
            ret = lx.ty();
            break;
        }
        lx.next();
        lx.expect(b'(');
        let mut unnamed = 0u32;
        while !lx.eat(b')') {
            if lx.eatid("...") { continue; }
            let t = lx.ty();
            lx.skip_attrs(false);
            let n = regs.len() as u32;
            match lx.peek().clone() { T::Local(s) => { lx.next(); regs.insert(s, n); } _ => { regs.insert(format!("{}", unnamed), n); } }
            unnamed += 1;
            params.push(t);
            lx.eat(b',');
        }
        let (b, e) = d.body.unwrap_or_else(|| panic!("no body for {}", d.name));
        // block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        {
            let mut i = b;
            let mut first = true;
            while i < e {
                let k = memchr(&self.text, i).min(e);
                let l = &self.text[i..k];
                if !l.is_empty() && l[0] != b' ' && l[0] != b';' && l[0] != b'\t' {
                    let name = label_name(l);
                    if let Some(nm) = name { let n = labels.len() as u32; labels.insert(nm, n); first = false; }
                } else if first && l.iter().any(|c| *c != b' ') && l[0] == b' ' && labels.is_empty() {
                    // unnamed entry block
                    labels.insert("\0entry".into(), 0); first = false;
                }
                i = k + 1;
            }
        }
        let mut dc = Dec { m: self, regs, labels, };
        let mut blocks: Vec<Vec<Inst>> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(O, String)>)>> = vec![];
        let mut names: Vec<String> = vec![];
        let mut i = b;
        while i < e {
            let k = memchr(&self.text, i).min(e);
            let l = &self.text[i..k];
            if l.is_empty() || l[0] == b';' || l.iter().all(|c| *c == b' ') { i = k + 1; continue; }
            if l[0] != b' ' && l[0] != b'\t' {
                if let Some(nm) = label_name(l) { blocks.push(vec![]); phis.push(vec![]); names.push(nm); }
                i = k + 1;
                continue;
            }
            if blocks.is_empty() { blocks.push(vec![]); phis.push(vec![]); names.push("\0entry".into()); }
            let mut lx = Lx::new(&self.text, i, e);
            // debug records
            if matches!(lx.peek(), T::Attr) { i = k + 1; continue; }
            if let T::Id("cleanup" | "catch" | "filter") = lx.peek() { i = k + 1; continue; }
            let mut dst = NODST;
            if let T::Local(n) = lx.peek().clone() { lx.next(); lx.expect(b'='); dst = dc.reg(n); }
            let bi = blocks.len() - 1;
            if lx.eatid("phi") {
                while let T::Id("fast" | "nnan" | "ninf" | "nsz" | "contract" | "arcp" | "afn" | "reassoc") = lx.peek() { lx.next(); }
                let t = lx.ty();
                let mut v = vec![];
                loop {
                    lx.expect(b'[');
                    let o = dc.val(&mut lx, &t);
                    lx.expect(b',');
                    let l = match lx.next() { T::Local(s) => s, _ => panic!() };
                    lx.expect(b']');
                    v.push((o, l));
                    if !lx.isp(b',') { break; }
                    lx.next();
                    if !lx.isp(b'[') { break; }
                }
                phis[bi].push((dst, v));
                lx.rest();
                i = lx.i + 1;
                continue;
            }
            let ins = dc.inst(&mut lx);
            let rest = lx.rest();
            let mut dbg = 0;
            if let Some(p) = rest.find("!dbg !") { dbg = rest[p + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32); }
            i = lx.i + 1;
            blocks[bi].push(Inst { dst, dbg, i: ins });
        }
        // phi moves on edges
        let fill = |e: &mut Edge, from: &str| {
            let v: Vec<(u32, O)> = phis[e.block as usize].iter().map(|(d, ins)| {
                let from = if from == "\0entry" { None } else { Some(from) };
                let o = ins.iter().find(|(_, l)| Some(l.as_str()) == from || (from.is_none() && !dc.labels.contains_key(l))).map(|(o, _)| o.clone());
                (*d, o.unwrap_or_else(|| panic!("phi edge {:?} in {}", from, d)))
            }).collect();
            e.moves = v.into();
        };
        for (bi, b) in blocks.iter_mut().enumerate() {
            let from = names[bi].clone();
            for ins in b.iter_mut() {
                match &mut ins.i {
                    I::Br(e) => fill(e, &from),
                    I::CondBr(_, a, b) => { fill(a, &from); fill(b, &from); }
                    I::Switch(_, _, d, cs) => { fill(d, &from); for (_, e) in cs.iter_mut() { fill(e, &from); } }
                    I::Call(c) => if let Some(e) = &mut c.normal { fill(e, &from); },
                    _ => {}
                }
            }
        }
        Func { id, name: d.name.clone(), params, ret, nregs: dc.regs.len() as u32, blocks }
    }

    fn meta_line(&self, id: u32) -> Option<&str> {
        let b = *self.meta.get(&id)?;
        let e = memchr(&self.text, b);
        std::str::from_utf8(&self.text[b..e]).ok()
    }
    fn field_num(l: &str, f: &str) -> Option<u32> {
        let p = l.find(f)?;
        let r = &l[p + f.len()..];
        let r = r.strip_prefix('!').unwrap_or(r);
        r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    }
    fn field_str<'a>(l: &'a str, f: &str) -> Option<&'a str> { let p = l.find(f)?; let r = &l[p + f.len()..]; Some(&r[..r.find('"')?]) }
    /// Source locations of a debug id, innermost first: (file, line, function).
    pub fn locs(&self, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = dbg;
        while cur != 0 {
            let l = match self.meta_line(cur) { Some(l) => l, None => break };
            let line = Self::field_num(l, "line: ").unwrap_or(0);
            let mut sc = Self::field_num(l, "scope: ").unwrap_or(0);
            let inl = Self::field_num(l, "inlinedAt: ").unwrap_or(0);
            let mut func = String::new(); let mut file = String::new();
            for _ in 0..50 {
                let sl = match self.meta_line(sc) { Some(s) => s, None => break };
                if file.is_empty() { if let Some(f) = Self::field_num(sl, "file: ") { if let Some(fl) = self.meta_line(f) {
                    let nm = Self::field_str(fl, "filename: \"").unwrap_or(""); let dir = Self::field_str(fl, "directory: \"").unwrap_or("");
                    file = if nm.starts_with('/') { nm.into() } else { format!("{}/{}", dir, nm) };
                } } }
                if sl.contains("!DISubprogram(") {
                    func = self.spname(sl);
                    break;
                }
                sc = Self::field_num(sl, "scope: ").unwrap_or(0);
            }
            out.push((file, line, func));
            cur = inl;
        }
        out
    }
    fn spname(&self, sl: &str) -> String {
        let mut n = Self::field_str(sl, "name: \"").unwrap_or("?").to_string();
        let mut sc = Self::field_num(sl, "scope: ").unwrap_or(0);
        for _ in 0..8 {
            let l = match self.meta_line(sc) { Some(s) => s, None => break };
            if let Some(x) = Self::field_str(l, "name: \"") { n = format!("{}::{}", x, n); }
            sc = Self::field_num(l, "scope: ").unwrap_or(0);
        }
        n
    }
    pub fn fn_display(&self, id: u32) -> String {
        let d = &self.decls[id as usize];
        if d.sp != 0 { if let Some(l) = self.meta_line(d.sp) { return self.spname(l); } }
        d.name.clone()
    }
}

fn label_name(l: &[u8]) -> Option<String> {
    let mut lx = Lx::new(l, 0, l.len());
    if l[0] == b'"' { let q = lx.quoted(); return Some(String::from_utf8_lossy(&q).into_owned()); }
    let e = l.iter().position(|c| *c == b':')?;
    Some(String::from_utf8_lossy(&l[..e]).into_owned())
}
pub fn memchr(t: &[u8], i: usize) -> usize {
    extern "C" { fn memchr(p: *const u8, c: i32, n: usize) -> *const u8; }
    if i >= t.len() { return t.len(); }
    unsafe { let p = memchr(t.as_ptr().add(i), 10, t.len() - i); if p.is_null() { t.len() } else { p as usize - t.as_ptr() as usize } }
}

struct Dec<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32> }

impl<'m> Dec<'m> {
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn val(&mut self, lx: &mut Lx, t: &Ty) -> O {
        if let T::Local(n) = lx.peek().clone() { lx.next(); return O::Reg(self.reg(n)); }
        match self.m.konst(lx, t) {
            K::I(v) if v <= u64::MAX as u128 && t.bits() <= 64 => O::I(v as u64),
            k => O::K(Rc::new(k)),
        }
    }
    fn tval(&mut self, lx: &mut Lx) -> (Ty, O) { let t = lx.ty(); lx.skip_attrs(false); let v = self.val(lx, &t); (t, v) }
    fn edge(&mut self, lx: &mut Lx) -> Edge {
        assert!(lx.eatid("label"));
        match lx.next() { T::Local(s) => Edge { block: *self.labels.get(&s).unwrap_or_else(|| panic!("label {}", s)), moves: Rc::new([]) }, t => panic!("{:?}", t) }
    }
    fn flags(&mut self, lx: &mut Lx) {
        while let T::Id(w) = lx.peek().clone() {
            if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "arcp" | "afn" | "reassoc" | "inbounds" | "nusw" | "inrange" | "volatile" | "atomic" | "weak") { lx.next(); if lx.isp(b'(') { lx.skip_parens(); } } else { break; }
        }
    }
    fn ordering(lx: &mut Lx) -> u8 {
        while let T::Id("syncscope") = lx.peek() { lx.next(); if lx.isp(b'(') { lx.skip_parens(); } }
        let o = match lx.peek() { T::Id(s) => match *s { "acquire" => 1, "release" => 2, "acq_rel" | "seq_cst" => 3, "monotonic" | "unordered" => 0, _ => return 0 }, _ => return 0 };
        lx.next();
        o
    }
    fn inst(&mut self, lx: &mut Lx) -> I {
        use crate::expr::Op::*;
        let op = match lx.next() { T::Id(s) => s, t => panic!("opcode {:?} at {}", t, lx.ctx()) };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let o = match op { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, _ => AShr };
                self.flags(lx);
                let t = lx.ty(); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                if t.scalar() { I::Bin(o, t.bits(), a, b) } else { I::BinV(o, t, a, b) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let k = match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 };
                self.flags(lx);
                let t = lx.ty(); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                I::FBin(k, t.bits(), a, b)
            }
            "fneg" => { self.flags(lx); let t = lx.ty(); let a = self.val(lx, &t); I::FNeg(t.bits(), a) }
            "icmp" => {
                self.flags(lx);
                let p = match lx.next() { T::Id(s) => match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() }, _ => panic!() };
                let t = lx.ty(); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                if t.scalar() { I::Icmp(p, t.bits(), a, b) } else { I::IcmpV(p, t, a, b) }
            }
            "fcmp" => {
                self.flags(lx);
                let p = match lx.next() { T::Id(s) => match s { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "ueq" => 8, "ugt" => 9, "uge" => 10, "ult" => 11, "ule" => 12, "une" => 13, "uno" => 14, _ => 15 }, _ => panic!() };
                let t = lx.ty(); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                I::Fcmp(p, t.bits(), a, b)
            }
            "zext" | "sext" | "trunc" => {
                self.flags(lx);
                let (t, v) = self.tval(lx); lx.eatid("to"); let t2 = lx.ty();
                if !t.scalar() { return I::CastV(match op { "zext" => 0, "sext" => 1, _ => 2 }, t, t2, v); }
                match op { "zext" => I::ZExt(t.bits(), t2.bits(), v), "sext" => I::SExt(t.bits(), t2.bits(), v), _ => I::Trunc(t.bits(), t2.bits(), v) }
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" | "ptrtoaddr" => {
                let (t, v) = self.tval(lx);
                if op == "freeze" { return I::Mov(v); }
                lx.eatid("to"); let t2 = lx.ty();
                if !t.scalar() || !t2.scalar() { return I::BitcastV(t, t2, v); }
                let (a, b) = (t.bits(), t2.bits());
                if a == b { I::Mov(v) } else if a < b { I::ZExt(a, b, v) } else { I::Trunc(a, b, v) }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.flags(lx);
                let k = match op { "uitofp" => 0, "sitofp" => 1, "fptoui" => 2, "fptosi" => 3, "fpext" => 4, _ => 5 };
                let (t, v) = self.tval(lx); lx.eatid("to"); let t2 = lx.ty();
                I::FCast(k, t.bits(), t2.bits(), v)
            }
            "load" => { let at = lx.peek() == &T::Id("atomic"); self.flags(lx); let t = lx.ty(); lx.expect(b','); let (_, p) = self.tval(lx); if at { let o = Self::ordering(lx); I::LoadA(t, p, o) } else { I::Load(t, p) } }
            "store" => { let at = lx.peek() == &T::Id("atomic"); self.flags(lx); let (t, v) = self.tval(lx); lx.expect(b','); let (_, p) = self.tval(lx); if at { let o = Self::ordering(lx); I::StoreA(t, v, p, o) } else { I::Store(t, v, p) } }
            "getelementptr" => {
                self.flags(lx);
                let t = lx.ty(); lx.expect(b',');
                let (_, base) = self.tval(lx);
                let mut off = 0u64; let mut dynv = vec![]; let mut cur = t.clone(); let mut first = true;
                while lx.isp(b',') {
                    lx.next();
                    if matches!(lx.peek(), T::Meta(_)) { break; }
                    let it = lx.ty();
                    let v = self.val(lx, &it);
                    let scale;
                    if first { scale = t.size(); first = false; }
                    else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match v { O::I(i) => i as usize, _ => panic!() };
                                off = off.wrapping_add(cur.offset(i)); cur = cur.elem(i);
                                continue;
                            }
                            Ty::Arr(e, _) | Ty::Vec(e, _) => { scale = e.size(); let e = (**e).clone(); cur = e; }
                            _ => panic!("gep into {:?}", cur),
                        }
                    }
                    match v {
                        O::I(i) => { let i = crate::expr::sext(i as u128, it.bits()) as i64; off = off.wrapping_add((scale as i64).wrapping_mul(i) as u64); }
                        o => dynv.push((o, it.bits(), scale)),
                    }
                }
                I::Gep(base, off, dynv.into())
            }
            "alloca" => {
                lx.eatid("inalloca");
                let t = lx.ty();
                let mut n = O::I(1);
                if lx.isp(b',') {
                    let save = lx.i;
                    lx.next();
                    if let T::Id(w) = lx.peek().clone() { if is_ty_word(w) { let (_, v) = self.tval(lx); n = v; } }
                    let _ = save;
                }
                I::Alloca(t.size(), n)
            }
            "select" => {
                self.flags(lx);
                let (ct, c) = self.tval(lx); lx.expect(b','); let (t, a) = self.tval(lx); lx.expect(b','); let (_, b) = self.tval(lx);
                I::Select(ct, c, t, a, b)
            }
            "extractvalue" => {
                let (t, v) = self.tval(lx);
                let mut idx = vec![]; let mut cur = t.clone();
                while lx.isp(b',') { lx.next(); if matches!(lx.peek(), T::Meta(_)) { break; } let i = lx.num() as u32; idx.push(i); cur = cur.elem(i as usize); }
                I::ExtractV(v, cur, idx.into())
            }
            "insertvalue" => {
                let (t, v) = self.tval(lx); lx.expect(b','); let (_, e) = self.tval(lx);
                let mut idx = vec![];
                while lx.isp(b',') { lx.next(); if matches!(lx.peek(), T::Meta(_)) { break; } idx.push(lx.num() as u32); }
                I::InsertV(t, v, e, idx.into())
            }
            "extractelement" => { let (t, v) = self.tval(lx); lx.expect(b','); let (_, i) = self.tval(lx); I::ExtractE(t, v, i) }
            "insertelement" => { let (t, v) = self.tval(lx); lx.expect(b','); let (_, e) = self.tval(lx); lx.expect(b','); let (_, i) = self.tval(lx); I::InsertE(t, v, e, i) }
            "shufflevector" => {
                let (t, a) = self.tval(lx); lx.expect(b','); let (_, b) = self.tval(lx); lx.expect(b','); let mt = lx.ty();
                let n = match &mt { Ty::Vec(_, n) => *n as usize, _ => panic!() };
                let mk = match self.m.konst(lx, &mt) { K::Agg(v) => v.iter().map(|k| match k { K::I(x) => *x as u32, _ => 0 }).collect(), _ => vec![0u32; n] };
                I::Shuffle(t, a, b, mk.into())
            }
            "atomicrmw" => {
                self.flags(lx);
                let k = match lx.next() { T::Id(s) => match s { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 5, "xor" => 6, "max" => 7, "min" => 8, "umax" => 9, "umin" => 10, "nand" => 4, _ => panic!("atomicrmw {}", s) }, _ => panic!() };
                let (_, p) = self.tval(lx); lx.expect(b','); let (t, v) = self.tval(lx);
                let o = Self::ordering(lx);
                I::AtomicRmw(k, t, p, v, o)
            }
            "cmpxchg" => { self.flags(lx); let (_, p) = self.tval(lx); lx.expect(b','); let (t, a) = self.tval(lx); lx.expect(b','); let (_, b) = self.tval(lx); let o = Self::ordering(lx); let f = Self::ordering(lx); I::CmpXchg(t, p, a, b, o, f) }
            "fence" => I::Fence(Self::ordering(lx)),
            "br" => {
                if let T::Id("label") = lx.peek() { return I::Br(self.edge(lx)); }
                let (_, c) = self.tval(lx); lx.expect(b','); let a = self.edge(lx); lx.expect(b','); let b = self.edge(lx);
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tval(lx); lx.expect(b','); let d = self.edge(lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let ct = lx.ty();
                    let k = match self.m.konst(lx, &ct) { K::I(v) => v, _ => panic!() };
                    lx.expect(b',');
                    cs.push((k, self.edge(lx)));
                }
                I::Switch(t.bits(), v, d, cs.into())
            }
            "ret" => { if lx.eatid("void") { I::Ret(None) } else { let (_, v) = self.tval(lx); I::Ret(Some(v)) } }
            "unreachable" => I::Unreachable,
            "resume" => I::LandingPad,
            "landingpad" => I::LandingPad,
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { lx.eatid("call"); }
                let inv = op == "invoke";
                loop {
                    match lx.peek().clone() {
                        T::Id(w) if !is_ty_word(w) => { lx.next(); if w == "align" { lx.next(); } else if lx.isp(b'(') { lx.skip_parens(); } }
                        T::Attr => { lx.next(); }
                        _ => break,
                    }
                }
                let ret = lx.ty();
                if lx.isp(b'(') { lx.skip_parens(); } // explicit function type (varargs)
                if let T::Id("asm") = lx.peek() {
                    while !lx.isp(b'(') { lx.next(); }
                    lx.skip_parens();
                    return I::Mov(O::I(0));
                }
                let callee = self.val(lx, &Ty::Ptr);
                lx.expect(b'(');
                let mut args = vec![];
                while !lx.eat(b')') {
                    if let T::Id("metadata") = lx.peek() { lx.next(); lx.next(); lx.eat(b','); args.push((Ty::Other, O::I(0))); continue; }
                    let (t, v) = self.tval(lx);
                    args.push((t, v)); lx.eat(b',');
                }
                let mut normal = None;
                if inv {
                    loop {
                        match lx.peek().clone() { T::Id("to") => { lx.next(); break; } T::P(b'[') => { lx.next(); while !lx.eat(b']') { lx.next(); } } _ => { lx.next(); } }
                    }
                    normal = Some(self.edge(lx));
                    assert!(lx.eatid("unwind"));
                    self.edge(lx);
                }
                I::Call(Box::new(Call { ret, callee, args, normal }))
            }
            "va_arg" => panic!("va_arg"),
            _ => panic!("opcode {} at {}", op, lx.ctx()),
        }
    }
}

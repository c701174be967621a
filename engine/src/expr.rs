//! Hash-consed bit-vector expressions over 8-bit variables.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var, Tab,
    Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub d: u32 }

pub type Set = [u64; 4];

pub struct Cx {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>,
    map: HashMap<Node, E, BuildFx>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tabmap: HashMap<Rc<Vec<u64>>, u32>,
    tt: HashMap<E, Set, BuildFx>,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

#[inline] pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

/// Concrete semantics of a binary operator on `w` bit values.
pub fn bin(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { x << y },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let a = sext(x, w); (if y >= w as u128 { if a < 0 { -1 } else { 0 } } else { a >> y }) as u128 }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    };
    match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r & 1, _ => r & m }
}

impl Cx {
    pub fn new() -> Cx {
        Cx { nodes: vec![], sup: vec![], map: Default::default(), tables: vec![], tabmap: HashMap::new(), tt: Default::default(), memo: vec![], stamp: 0 }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let s = match n.op {
            Op::Const => 0,
            Op::Var | Op::Tab => 1u128 << n.a,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.sup[n.a as usize],
            Op::Ite => self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize],
            _ => self.sup[n.a as usize] | self.sup[n.b as usize],
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn constant(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        self.intern(Node { op: Op::Const, w: w as u16, a: v as u32, b: (v >> 32) as u32, c: (v >> 64) as u32, d: (v >> 96) as u32 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96) } else { None }
    }
    pub fn var(&mut self, id: u32) -> E {
        assert!(id < 128, "too many symbolic bytes");
        self.intern(Node { op: Op::Var, w: 8, a: id, b: 0, c: 0, d: 0 })
    }
    /// A function of one variable given by its 256 values.
    pub fn tab(&mut self, var: u32, w: u32, t: Vec<u64>) -> E {
        let t: Vec<u64> = t.into_iter().map(|x| x & mask(w) as u64).collect();
        if t.iter().all(|x| *x == t[0]) { return self.constant(w, t[0] as u128); }
        if w == 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) { return self.var(var); }
        let t = Rc::new(t);
        let id = match self.tabmap.get(&t) {
            Some(&i) => i,
            None => { let i = self.tables.len() as u32; self.tables.push(t.clone()); self.tabmap.insert(t, i); i }
        };
        self.intern(Node { op: Op::Tab, w: w as u16, a: var, b: id, c: 0, d: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.nodes[a as usize];
        if let Some(c) = self.as_const(a) { return self.constant(n.w as u32, !c); }
        if n.op == Op::Not { return n.a; }
        if n.w == 1 {
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, d: 0 })
    }
    pub fn eq0(&mut self, a: E) -> E { let w = self.w(a); let z = self.constant(w, 0); self.bin(Op::Eq, a, z) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width {:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) { return self.constant(rw, bin(op, w, x, y)); }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        if a == b {
            match op {
                Op::Eq | Op::Ule | Op::Sle => return self.constant(1, 1),
                Op::Ult | Op::Slt => return self.constant(1, 0),
                Op::Sub | Op::Xor => return self.constant(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Mul | Op::UDiv if y == 1 => return a,
                Op::Mul | Op::And if y == 0 => return self.constant(w, 0),
                Op::And if y == m => return a,
                Op::Or if y == m => return self.constant(w, m),
                Op::Xor if y == m => return self.not(a),
                Op::Shl | Op::LShr if y >= w as u128 => return self.constant(w, 0),
                Op::Ult if y == 0 => return self.constant(1, 0),
                Op::Ule if y == m => return self.constant(1, 1),
                _ => {}
            }
            let na = self.nodes[a as usize];
            // reassociate constants
            if op == Op::Add && na.op == Op::Add {
                if let Some(x) = self.as_const(na.b) { let k = self.constant(w, x.wrapping_add(y)); return self.bin(Op::Add, na.a, k); }
            }
            if op == Op::Sub { let k = self.constant(w, y.wrapping_neg()); return self.bin(Op::Add, a, k); }
            if op == Op::Eq {
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if y > mask(iw) { return self.constant(1, 0); }
                        let k = self.constant(iw, y); return self.bin(Op::Eq, na.a, k);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b); let hw = self.w(na.a);
                        let kl = self.constant(lw, y); let kh = self.constant(hw, y >> lw);
                        let l = self.bin(Op::Eq, na.b, kl); let h = self.bin(Op::Eq, na.a, kh);
                        return self.bin(Op::And, h, l);
                    }
                    Op::Add => if let Some(x) = self.as_const(na.b) {
                        let k = self.constant(w, y.wrapping_sub(x)); return self.bin(Op::Eq, na.a, k);
                    },
                    Op::Xor => if let Some(x) = self.as_const(na.b) {
                        let k = self.constant(w, y ^ x); return self.bin(Op::Eq, na.a, k);
                    },
                    Op::Ite => {
                        if let (Some(t), Some(f)) = (self.as_const(na.b), self.as_const(na.c)) {
                            return match (t == y, f == y) {
                                (true, true) => self.constant(1, 1),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                                (false, false) => self.constant(1, 0),
                            };
                        }
                    }
                    _ => {}
                }
                if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            }
            if (op == Op::Ult || op == Op::Ule) && na.op == Op::ZExt {
                let iw = self.w(na.a);
                if y > mask(iw) { return self.constant(1, 1); }
                let k = self.constant(iw, y); return self.bin(op, na.a, k);
            }
            if op == Op::And && na.op == Op::ZExt {
                let iw = self.w(na.a);
                let k = self.constant(iw, y & mask(iw));
                let r = self.bin(Op::And, na.a, k);
                return self.zext(r, w);
            }
            if op == Op::LShr && na.op == Op::ZExt {
                let iw = self.w(na.a);
                if y >= iw as u128 { return self.constant(w, 0); }
                let k = self.constant(iw, y);
                let r = self.bin(Op::LShr, na.a, k);
                return self.zext(r, w);
            }
            if op == Op::LShr && (na.op == Op::Concat) {
                let r = self.extract(a, y as u32, w - y as u32);
                return self.zext(r, w);
            }
            if op == Op::Shl && y < w as u128 && y % 8 == 0 && y > 0 {
                let r = self.extract(a, 0, w - y as u32);
                let z = self.constant(y as u32, 0);
                return self.concat(r, z);
            }
        }
        if let Some(x) = ca {
            match op {
                Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if x == 0 => return self.constant(w, 0),
                Op::Ult if x == m => return self.constant(1, 0),
                Op::Ule if x == 0 => return self.constant(1, 1),
                _ => {}
            }
            let nb = self.nodes[b as usize];
            if (op == Op::Ult || op == Op::Ule) && nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if x > mask(iw) { return self.constant(1, 0); }
                let k = self.constant(iw, x); return self.bin(op, k, nb.a);
            }
        }
        // disjoint or of shifted parts: zext(lo) | concat(hi, 0)
        if op == Op::Or || op == Op::Add {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            for (x, y) in [(na, nb), (nb, na)] {
                if x.op == Op::Concat && y.op == Op::ZExt && self.as_const(x.b) == Some(0) {
                    let lw = self.w(x.b); let iw = self.w(y.a);
                    if iw <= lw {
                        let lo = self.zext(y.a, lw);
                        return self.concat(x.a, lo);
                    }
                }
            }
        }
        if op == Op::Eq {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
        }
        self.intern(Node { op, w: rw as u16, a, b, c: 0, d: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.constant(w, c); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0, d: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.constant(w, sext(c, aw) as u128); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0, d: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(c) = self.as_const(a) { return self.constant(w, c >> lo); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt | Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if n.op == Op::ZExt {
                    if lo >= iw { return self.constant(w, 0); }
                    let r = self.extract(n.a, lo, iw - lo);
                    return self.zext(r, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0, d: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.constant(hw + lw, x << lw | y); }
        if self.as_const(h) == Some(0) { return self.zext(l, hw + lw); }
        let (nh, nl) = (self.nodes[h as usize], self.nodes[l as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw {
            return self.extract(nh.a, nl.b, hw + lw);
        }
        if nh.op == Op::Extract && nh.a == l && nh.b == lw { return self.extract(l, 0, hw + lw); }
        // concat(zext(extract(x, lw, k)), extract(x,0,lw)) where x is narrower than the result
        if nl.op == Op::Extract && nl.b == 0 && nh.op == Op::ZExt {
            let ni = self.nodes[nh.a as usize];
            if ni.op == Op::Extract && ni.a == nl.a && ni.b == lw {
                let r = self.extract(nl.a, 0, lw + self.w(nh.a));
                return self.zext(r, hw + lw);
            }
        }
        if nl.op == Op::Concat {
            // reassociate to the left so that neighbouring extracts meet: (h . l1) . l2
            let nl1 = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && nl1.op == Op::Extract && nh.a == nl1.a {
                let x = self.concat(h, nl.a);
                if self.nodes[x as usize].op != Op::Concat { return self.concat(x, nl.b); }
            }
        }
        self.intern(Node { op: Op::Concat, w: (hw + lw) as u16, a: h, b: l, c: 0, d: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.as_const(c) { return if x == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let n = self.nodes[c as usize];
        if n.op == Op::Not { return self.ite(n.a, b, a); }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, d: 0 })
    }

    /// The single variable `e` depends on, if it depends on exactly one.
    #[inline] pub fn single(&self, e: E) -> Option<u32> {
        let s = self.sup[e as usize];
        if s != 0 && s & (s - 1) == 0 { Some(s.trailing_zeros()) } else { None }
    }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len() + 1024, (0, 0)); }
        self.stamp += 1;
        if self.stamp == u32::MAX { self.stamp = 1; for m in self.memo.iter_mut() { m.0 = 0; } }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.as_const(e).unwrap(),
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) as u128,
            Op::Tab => return self.tables[n.b as usize][model.get(n.a as usize).copied().unwrap_or(0) as usize] as u128,
            _ => {}
        }
        if self.memo[e as usize].0 == self.stamp { return self.memo[e as usize].1; }
        let m = mask(n.w as u32);
        let r = match n.op {
            Op::Not => !self.ev(n.a, model) & m,
            Op::Concat => { let lw = self.w(n.b); self.ev(n.a, model) << lw | self.ev(n.b, model) }
            Op::Extract => self.ev(n.a, model) >> n.b & m,
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => { let iw = self.w(n.a); sext(self.ev(n.a, model), iw) as u128 & m }
            Op::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            op => { let w = self.w(n.a); let x = self.ev(n.a, model); let y = self.ev(n.b, model); bin(op, w, x, y) }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
    /// All 256 values of an expression of one variable.
    pub fn values(&mut self, e: E, var: u32) -> Vec<u128> {
        let mut cache: HashMap<E, Rc<Vec<u128>>, BuildFx> = Default::default();
        self.vals(e, var, &mut cache).as_ref().clone()
    }
    fn vals(&mut self, e: E, var: u32, cache: &mut HashMap<E, Rc<Vec<u128>>, BuildFx>) -> Rc<Vec<u128>> {
        if let Some(r) = cache.get(&e) { return r.clone(); }
        let n = self.nodes[e as usize];
        let m = mask(n.w as u32);
        let r: Vec<u128> = match n.op {
            Op::Const => vec![self.as_const(e).unwrap(); 256],
            Op::Var => (0..256).collect(),
            Op::Tab => self.tables[n.b as usize].iter().map(|x| *x as u128).collect(),
            Op::Not => self.vals(n.a, var, cache).iter().map(|x| !x & m).collect(),
            Op::Concat => { let lw = self.w(n.b); let a = self.vals(n.a, var, cache); let b = self.vals(n.b, var, cache); (0..256).map(|i| a[i] << lw | b[i]).collect() }
            Op::Extract => self.vals(n.a, var, cache).iter().map(|x| x >> n.b & m).collect(),
            Op::ZExt => { let r = self.vals(n.a, var, cache); cache.insert(e, r.clone()); return r; }
            Op::SExt => { let iw = self.w(n.a); self.vals(n.a, var, cache).iter().map(|x| sext(*x, iw) as u128 & m).collect() }
            Op::Ite => { let c = self.vals(n.a, var, cache); let a = self.vals(n.b, var, cache); let b = self.vals(n.c, var, cache); (0..256).map(|i| if c[i] == 1 { a[i] } else { b[i] }).collect() }
            op => { let w = self.w(n.a); let a = self.vals(n.a, var, cache); let b = self.vals(n.b, var, cache); (0..256).map(|i| bin(op, w, a[i], b[i])).collect() }
        };
        let r = Rc::new(r);
        cache.insert(e, r.clone());
        r
    }
    /// Truth table of a one-bit expression of one variable.
    pub fn truth(&mut self, e: E, var: u32) -> Set {
        if let Some(t) = self.tt.get(&e) { return *t; }
        let v = self.values(e, var);
        let mut t = [0u64; 4];
        for i in 0..256 { if v[i] == 1 { t[i / 64] |= 1 << (i % 64); } }
        self.tt.insert(e, t);
        t
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nodes[e as usize];
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{}:{}", self.as_const(e).unwrap(), n.w),
            Op::Var => format!("b{}", n.a),
            Op::Tab => format!("tab{}(b{})", n.b, n.a),
            Op::Not | Op::ZExt | Op::SExt => format!("({:?} {})", n.op, self.show(n.a, depth - 1)),
            Op::Extract => format!("({}[{}+:{}])", self.show(n.a, depth - 1), n.b, n.w),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

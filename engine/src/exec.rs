//! Symbolic execution of the IR.
use crate::expr::*;
use crate::ir::{self, Edge, Func, Module, Pred, Ty, FN_BASE, I, K, NODST, O};
use crate::mem::*;
use crate::solver::{self, *};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { I(u64), E(E), W(Rc<u128>), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub regs: Vec<V>, pub block: u32, pub pc: u32, pub allocas: Vec<u64> }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub stack: Vec<Rc<Frame>>,
    pub top: Frame,
    pub dom: Vec<Set>,
    pub multi: Rc<Vec<E>>,
    pub mvmask: u128,
    pub model: Vec<u8>,
    pub conc: Rc<HashMap<E, u128>>,
    pub obs: Rc<Vec<V>>,
    pub steps: u64,
    pub covers: u128,
    pub forks: u32,
    pub nsym: u32,
    pub errno: u64,
    /// log2 of the number of inputs before any decision
    pub lg0: f64,
    /// depths of the stack at which a panic is caught
    pub tries: Vec<usize>,
    pub io: Rc<Io>,
    pub th: Option<Box<Threads>>,
}
pub type Vc = [u16; NTH];
pub const NTH: usize = 4;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status { Ready, Blocked(u64), Joining, Done }
#[derive(Clone)]
pub struct Thread { stack: Vec<Rc<Frame>>, top: Frame, tries: Vec<usize>, errno: u64, status: Status, tls: HashMap<u64, u64>, vc: Vc, pend: Vc, relf: Vc, skip: bool }
/// Threads of a path: the current one lives in the state itself, its entry here holds the rest.
#[derive(Clone)]
pub struct Threads { all: Vec<Thread>, cur: usize, want: bool, pre: Vec<E>, used: usize, count: u32, sync: HashMap<u64, Vc>, over: bool }
fn vjoin(a: &mut Vc, b: &Vc) { for i in 0..NTH { a[i] = a[i].max(b[i]); } }
/// The files, open descriptors, captured standard error and planned faults of a path.
#[derive(Clone, Default)]
pub struct Io { files: Vec<(Vec<u8>, Vec<V>, u64)>, fds: Vec<Option<(usize, usize)>>, err: Vec<V>, reads: u64, fault_at: u64, fault: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Done, Reject, Assert, Panic, Steps, Depth, Memory, Alloc, Unreachable, Unsupported }
impl Kind {
    pub fn name(self) -> &'static str {
        match self { Kind::Done => "done", Kind::Reject => "reject", Kind::Assert => "assert", Kind::Panic => "panic", Kind::Steps => "steps", Kind::Depth => "depth", Kind::Memory => "memory", Kind::Alloc => "alloc", Kind::Unreachable => "unreachable", Kind::Unsupported => "unsupported" }
    }
}
pub struct PathRes { pub kind: Kind, pub code: String, pub model: Vec<u8>, pub digest: u64, pub locs: Vec<(String, u32, String)>, pub covers: u128, pub volume: f64, pub steps: u64, pub unary: bool }

pub struct Cfg { pub max_steps: u64, pub max_depth: usize, pub max_alloc: u64, pub audit: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fk { Unknown, Body, Panic, B(Bi) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    Nop, Zero, Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Strlen, Write, Abort, Errno,
    Memcpy, Memset, Assume, Umax, Umin, Smax, Smin, UsubSat, UaddSat, Ctlz, Cttz, Ctpop, Fshl, Fshr, Bswap, Bitreverse, UmulO, UaddO, UsubO, SaddO, SsubO, SmulO, Ucmp, Scmp, Abs, Powi, FptouiSat, FptosiSat, Identity, IsConstant, Expect,
    Fabs, Trap, Objectsize,
    VsByte, VsByteIn, VsChoose, VsConc, VsAssume, VsAssert, VsReject, VsObs, VsObsBytes, VsCover, VsNsym, VsFail,
    Unsup, Getenv, Minus1, Fcopysign, Ffloor, Fceil, Fround, Ftrunc, Fsqrt, Fma,
    One, Syscall, Getrandom, Lseek, Open, Read, Close, NoSys, Fstat, VsTry, Tls, Pause, Futex, VsThreads, VsSpawn, VsJoin, VsFile, VsFault, VsStderr,
}

/// Ends the execution of the current path.
pub struct End(pub Kind, pub String);
type R<T> = Result<T, End>;

pub struct Ex {
    pub m: &'static Module,
    pub cx: Cx,
    pub z3: Z3,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub results: Vec<PathRes>,
    kinds: Vec<Fk>,
    pub blocks: Vec<Vec<bool>>,
    pub forks: u64,
    pub insts: u64,
    pub branch_sym: u64,
    pub concretizations: u64,
    audit_ctr: u64,
    pub audit_fail: u64,
    first_slot: u64,
    globals: Option<Mem>,
}

enum Feas { No, Yes(Vec<(u32, u8)>) }

fn wval(v: u128, w: u32) -> V { if w <= 64 { V::I(v as u64) } else { V::W(Rc::new(v)) } }

impl Ex {
    pub fn new(m: &'static Module, cfg: Cfg) -> Ex {
        let n = m.decls.len();
        Ex { m, cx: Cx::new(), z3: Z3::new(), work: vec![], cfg, results: vec![], kinds: vec![Fk::Unknown; n], blocks: vec![vec![]; n], forks: 0, insts: 0, branch_sym: 0, concretizations: 0, audit_ctr: 0, audit_fail: 0, first_slot: m.first_free_slot(), globals: None }
    }

    fn init_mem(&mut self) -> Mem {
        if let Some(m) = &self.globals { return m.clone(); }
        let mut mem = Mem::new(self.first_slot);
        for g in &self.m.globals {
            let mut data = vec![0u8; g.ty.size() as usize];
            if let Some(k) = &g.init { fill(&mut data, 0, &g.ty, k); }
            mem.place(g.addr, Obj { data, sym: None, ro: g.constant, heap: false, sh: None });
        }
        self.globals = Some(mem.clone());
        mem
    }

    pub fn start(&mut self, entry: &str) -> State {
        let id = *self.m.fn_by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(id);
        let mem = self.init_mem();
        let top = Frame { f, regs: vec![V::I(0); f.nregs as usize], block: 0, pc: 0, allocas: vec![] };
        self.mark(f, 0);
        State { mem, stack: vec![], top, dom: vec![], multi: Rc::new(vec![]), mvmask: 0, model: vec![], conc: Rc::new(HashMap::new()), obs: Rc::new(vec![]), steps: 0, covers: 0, forks: 0, nsym: 0, errno: 0, lg0: 0.0, tries: vec![], io: Rc::new(Io::default()), th: None }
    }
    fn mark(&mut self, f: &'static Func, b: u32) {
        let v = &mut self.blocks[f.id as usize];
        if v.is_empty() { v.resize(f.blocks.len(), false); }
        v[b as usize] = true;
    }

    // ---- decisions -------------------------------------------------------------------------

    fn flatten(&self, op: Op, e: E, out: &mut Vec<E>) {
        let n = self.cx.nodes[e as usize];
        if n.op == op && n.w == 1 { self.flatten(op, n.a, out); self.flatten(op, n.b, out); } else { out.push(e); }
    }
    /// Conjuncts of a condition, with negated disjunctions opened up.
    fn conj(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.cx.nodes[e as usize];
        if n.w == 1 {
            if n.op == Op::And { self.conj(n.a, out); self.conj(n.b, out); return; }
            if n.op == Op::Not {
                let k = self.cx.nodes[n.a as usize];
                if k.op == Op::Or && k.w == 1 { let a = self.cx.not(k.a); let b = self.cx.not(k.b); self.conj(a, out); self.conj(b, out); return; }
            }
        }
        out.push(e);
    }
    fn disj(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.cx.nodes[e as usize];
        if n.w == 1 {
            if n.op == Op::Or { self.disj(n.a, out); self.disj(n.b, out); return; }
            if n.op == Op::Not {
                let k = self.cx.nodes[n.a as usize];
                if k.op == Op::And && k.w == 1 { let a = self.cx.not(k.a); let b = self.cx.not(k.b); self.disj(a, out); self.disj(b, out); return; }
            }
        }
        out.push(e);
    }
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut sup = self.cx.sup[c as usize];
        let mut out = vec![c];
        if sup & st.mvmask == 0 { return out; }
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, m) in st.multi.iter().enumerate() {
                if !used[i] && self.cx.sup[*m as usize] & sup != 0 { used[i] = true; sup |= self.cx.sup[*m as usize]; out.push(*m); ch = true; }
            }
            if !ch { break; }
        }
        out
    }
    fn ask(&mut self, st: &State, c: E) -> Feas {
        let cons = self.slice(st, c);
        match self.z3.check(&self.cx, &cons, &|v| st.dom[v as usize]) { None => Feas::No, Some(p) => Feas::Yes(p) }
    }
    fn feasible(&mut self, st: &State, c: E) -> Feas {
        if let Some(k) = self.cx.as_const(c) { return if k == 1 { Feas::Yes(vec![]) } else { Feas::No }; }
        if let Some(v) = self.cx.single(c) {
            let tt = self.cx.truth(c, v);
            let t = solver::and(&st.dom[v as usize], &tt);
            self.z3.st.domain_decisions += 1;
            if empty(&t) { return Feas::No; }
            if has(&t, st.model[v as usize]) { return Feas::Yes(vec![]); }
            if st.mvmask >> v & 1 == 0 { return Feas::Yes(vec![(v, pick(&t))]); }
            return self.ask(st, c);
        }
        if self.cx.eval(c, &st.model) == 1 { return Feas::Yes(vec![]); }
        let mut cs = vec![];
        self.conj(c, &mut cs);
        if cs.len() > 1 {
            let mut d: HashMap<u32, Set> = HashMap::new();
            let mut left = false;
            for k in &cs {
                if let Some(v) = self.cx.single(*k) {
                    let tt = self.cx.truth(*k, v);
                    let e = d.entry(v).or_insert(st.dom[v as usize]);
                    *e = solver::and(e, &tt);
                    if empty(e) { self.z3.st.domain_decisions += 1; return Feas::No; }
                    if st.mvmask >> v & 1 == 1 { left = true; }
                } else if let Some(k) = self.cx.as_const(*k) { if k == 0 { return Feas::No; } } else { left = true; }
            }
            if !left {
                self.z3.st.domain_decisions += 1;
                return Feas::Yes(d.iter().map(|(v, s)| (*v, if has(s, st.model[*v as usize]) { st.model[*v as usize] } else { pick(s) })).collect());
            }
            return self.ask(st, c);
        }
        let mut ds = vec![];
        self.disj(c, &mut ds);
        if ds.len() > 1 {
            // single-variable disjuncts first, they are cheap
            let (a, b): (Vec<E>, Vec<E>) = ds.into_iter().partition(|k| self.cx.single(*k).is_some());
            for k in a.into_iter().chain(b) { if let Feas::Yes(p) = self.feasible(st, k) { return Feas::Yes(p); } }
            return Feas::No;
        }
        self.ask(st, c)
    }
    fn add(&mut self, st: &mut State, c: E, patch: Vec<(u32, u8)>) {
        for (v, x) in patch { st.model[v as usize] = x; }
        let mut cs = vec![];
        self.conj(c, &mut cs);
        for k in cs {
            if self.cx.as_const(k).is_some() { continue; }
            if let Some(v) = self.cx.single(k) {
                let tt = self.cx.truth(k, v);
                st.dom[v as usize] = solver::and(&st.dom[v as usize], &tt);
            } else {
                // domains may already decide most disjuncts
                let mut ds = vec![];
                self.disj(k, &mut ds);
                if ds.len() > 1 {
                    let mut alive = vec![]; let mut taut = false;
                    for d in ds {
                        if let Some(v) = self.cx.single(d) {
                            let tt = self.cx.truth(d, v);
                            let t = solver::and(&st.dom[v as usize], &tt);
                            if empty(&t) { continue; }
                            if t == st.dom[v as usize] { taut = true; break; }
                        }
                        alive.push(d);
                    }
                    if taut { continue; }
                    if alive.len() == 1 && self.cx.single(alive[0]).is_some() {
                        let v = self.cx.single(alive[0]).unwrap();
                        let tt = self.cx.truth(alive[0], v);
                        st.dom[v as usize] = solver::and(&st.dom[v as usize], &tt);
                        continue;
                    }
                }
                st.mvmask |= self.cx.sup[k as usize];
                Rc::make_mut(&mut st.multi).push(k);
            }
        }
    }
    /// Re-decides a domain decision with z3 (every `audit`-th one).
    fn audit(&mut self, st: &State, c: E, yes: bool) {
        if self.cfg.audit == 0 { return; }
        self.audit_ctr += 1;
        if self.audit_ctr % self.cfg.audit != 0 { return; }
        self.z3.st.cross_checks += 1;
        let cons = self.slice(st, c);
        let r = self.z3.check(&self.cx, &cons, &|v| st.dom[v as usize]).is_some();
        if r != yes { self.audit_fail += 1; eprintln!("AUDIT mismatch: {} domain={} z3={}", self.cx.show(c, 6), yes, r); }
    }
    /// Decides a branch: Ok(side) for the current state, the other side (if feasible) is returned as a clone.
    fn branch(&mut self, st: &mut State, c: E) -> (bool, Option<State>) {
        if let Some(k) = self.cx.as_const(c) { return (k == 1, None); }
        self.branch_sym += 1;
        let nc = self.cx.not(c);
        let t = self.feasible(st, c);
        let f = self.feasible(st, nc);
        match (t, f) {
            (Feas::Yes(p), Feas::Yes(q)) => {
                let mut o = st.clone();
                self.add(&mut o, nc, q);
                self.add(st, c, p);
                st.forks += 1; o.forks += 1;
                self.forks += 1;
                (true, Some(o))
            }
            (Feas::Yes(_), Feas::No) => { self.audit(st, nc, false); (true, None) }
            (Feas::No, Feas::Yes(_)) => { self.audit(st, c, false); (false, None) }
            (Feas::No, Feas::No) => { self.z3.unknown += 1; (true, None) }
        }
    }
    /// All feasible values of an expression; clones for all but the first are queued to restart the current instruction.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.cx.as_const(e) { return Ok(k); }
        if let Some(v) = st.conc.get(&e) { return Ok(*v); }
        let w = self.cx.w(e);
        let mut vals: Vec<(u128, E, Vec<(u32, u8)>)> = vec![];
        if let Some(v) = self.cx.single(e) {
            let t = self.cx.values(e, v);
            let mut groups: Vec<(u128, Set)> = vec![];
            for b in members(&st.dom[v as usize]) {
                let x = t[b as usize];
                match groups.iter_mut().find(|g| g.0 == x) {
                    Some(g) => g.1[b as usize / 64] |= 1 << (b % 64),
                    None => { let mut s = [0u64; 4]; s[b as usize / 64] |= 1 << (b % 64); groups.push((x, s)); }
                }
            }
            if groups.len() == 1 { return Ok(groups[0].0); }
            for (x, _) in groups {
                let k = self.cx.constant(w, x);
                let c = self.cx.bin(Op::Eq, e, k);
                if let Feas::Yes(p) = self.feasible(st, c) { vals.push((x, c, p)); }
            }
        } else {
            let mut tmp = st.clone();
            loop {
                let x = self.cx.eval(e, &tmp.model);
                let k = self.cx.constant(w, x);
                let c = self.cx.bin(Op::Eq, e, k);
                let patch: Vec<(u32, u8)> = (0..tmp.model.len() as u32).filter(|i| self.cx.sup[e as usize] >> i & 1 == 1 || tmp.mvmask >> i & 1 == 1).map(|i| (i, tmp.model[i as usize])).collect();
                vals.push((x, c, patch));
                if vals.len() > 700 { return Err(End(Kind::Unsupported, "too many values to concretize".into())); }
                let nc = self.cx.not(c);
                match self.feasible(&tmp, nc) { Feas::No => break, Feas::Yes(p) => self.add(&mut tmp, nc, p) }
            }
        }
        if vals.is_empty() { return Err(End(Kind::Unsupported, "no feasible value".into())); }
        self.concretizations += 1;
        let n = vals.len();
        for (x, c, p) in vals.drain(1..).rev().collect::<Vec<_>>() {
            let mut o = st.clone();
            self.add(&mut o, c, p);
            Rc::make_mut(&mut o.conc).insert(e, x);
            o.forks += 1;
            self.forks += 1;
            self.work.push(o);
        }
        let (x, c, p) = vals.pop().unwrap();
        if n > 1 { self.add(st, c, p); }
        Rc::make_mut(&mut st.conc).insert(e, x);
        Ok(x)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v { V::I(x) => Ok(*x), V::E(e) => Ok(self.concretize(st, *e)? as u64), V::W(x) => Ok(**x as u64), V::A(_) => Err(End(Kind::Unsupported, "aggregate as scalar".into())) }
    }
    fn conc128(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v { V::I(x) => Ok(*x as u128), V::E(e) => self.concretize(st, *e), V::W(x) => Ok(**x), V::A(_) => Err(End(Kind::Unsupported, "aggregate as scalar".into())) }
    }
    fn expr(&mut self, v: &V, w: u32) -> E {
        match v { V::I(x) => self.cx.constant(w, *x as u128), V::E(e) => *e, V::W(x) => self.cx.constant(w, **x), V::A(_) => panic!("expr of aggregate") }
    }
    fn wrap(&self, e: E) -> V { match self.cx.as_const(e) { Some(k) => wval(k, self.cx.w(e)), None => V::E(e) } }

    // ---- memory ----------------------------------------------------------------------------

    fn fault<T>(&self, what: &str, addr: u64, n: u64) -> R<T> { Err(End(Kind::Memory, format!("{} of {} bytes at {:#x}", what, n, addr))) }
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (o, off) = match st.mem.get(addr, n) { Some(x) => x, None => return self.fault("load", addr, n) };
        let d = &o.data[off..off + n as usize];
        if let Some(s) = &o.sym {
            let s = &s[off..off + n as usize];
            if s.iter().any(|x| *x != 0) {
                let mut e: Option<E> = None;
                for i in (0..n as usize).rev() {
                    let b = if s[i] != 0 { s[i] - 1 } else { self.cx.constant(8, d[i] as u128) };
                    e = Some(match e { None => b, Some(h) => self.cx.concat(h, b) });
                }
                let e = self.cx.extract(e.unwrap(), 0, w);
                return Ok(self.wrap(e));
            }
        }
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n as usize].copy_from_slice(d);
            let v = u64::from_le_bytes(b);
            Ok(V::I(if w < 64 { v & ((1u64 << w) - 1) } else { v }))
        } else {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(d);
            Ok(V::W(Rc::new(u128::from_le_bytes(b) & mask(w))))
        }
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_scalar(st, addr, t.bits()),
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { v.push(self.load(st, addr + t.offset(i), &f[i])?); } Ok(V::A(Rc::new(v))) }
            Ty::Arr(e, n) => { let mut v = vec![]; for i in 0..*n { v.push(self.load(st, addr + i * e.size(), e)?); } Ok(V::A(Rc::new(v))) }
            Ty::Vec(e, n) => {
                if **e == Ty::Int(1) {
                    let x = self.load_scalar(st, addr, *n as u32)?;
                    return Ok(self.split_bits(&x, *n as u32, 1));
                }
                let mut v = vec![]; for i in 0..*n { v.push(self.load(st, addr + i * e.size(), e)?); } Ok(V::A(Rc::new(v)))
            }
            _ => Err(End(Kind::Unsupported, format!("load {:?}", t))),
        }
    }
    fn split_bits(&mut self, x: &V, total: u32, w: u32) -> V {
        let mut v = vec![];
        for i in 0..total / w {
            v.push(match x {
                V::I(k) => V::I(k >> (i * w) & mask(w) as u64),
                V::W(k) => wval(**k >> (i * w) & mask(w), w),
                V::E(e) => { let r = self.cx.extract(*e, i * w, w); self.wrap(r) }
                V::A(_) => panic!(),
            });
        }
        V::A(Rc::new(v))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let mut bytes: [E; 16] = [0; 16];
        let mut any = false;
        if let V::E(e) = v {
            let e = self.cx.zext(*e, n as u32 * 8);
            for i in 0..n as usize { bytes[i] = self.cx.extract(e, i as u32 * 8, 8); }
            any = true;
        }
        let mut cb = [0u8; 16];
        if any {
            for i in 0..n as usize { if let Some(k) = self.cx.as_const(bytes[i]) { cb[i] = k as u8; bytes[i] = 0; } else { bytes[i] += 1; } }
        }
        let (o, off) = match st.mem.get_mut(addr, n) { Some(x) => x, None => return self.fault("store", addr, n) };
        match v {
            V::I(x) => { let b = (*x as u128).to_le_bytes(); o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]); }
            V::W(x) => { let b = x.to_le_bytes(); o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]); }
            V::E(_) => {
                o.data[off..off + n as usize].copy_from_slice(&cb[..n as usize]);
                if o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); }
            }
            V::A(_) => return Err(End(Kind::Unsupported, "store aggregate as scalar".into())),
        }
        if let Some(s) = &mut o.sym { s[off..off + n as usize].copy_from_slice(&bytes[..n as usize]); }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.store_scalar(st, addr, t.bits(), v),
            Ty::Struct(f, _) => { let a = agg(v, f.len()); for i in 0..f.len() { self.store(st, addr + t.offset(i), &f[i], &a[i])?; } Ok(()) }
            Ty::Vec(e, n) if **e == Ty::Int(1) => { let x = self.join_bits(v, *n as u32, 1); self.store_scalar(st, addr, *n as u32, &x) }
            Ty::Arr(e, n) | Ty::Vec(e, n) => { let a = agg(v, *n as usize); for i in 0..*n as usize { self.store(st, addr + i as u64 * e.size(), e, &a[i])?; } Ok(()) }
            _ => Err(End(Kind::Unsupported, format!("store {:?}", t))),
        }
    }
    fn join_bits(&mut self, v: &V, n: u32, w: u32) -> V {
        let a = agg(v, n as usize);
        if a.iter().all(|x| matches!(x, V::I(_))) && n * w <= 128 {
            let mut r = 0u128;
            for (i, x) in a.iter().enumerate() { if let V::I(k) = x { r |= (*k as u128) << (i as u32 * w); } }
            return wval(r, n * w);
        }
        let mut e = self.expr(&a[0], w);
        for i in 1..n as usize { let h = self.expr(&a[i], w); e = self.cx.concat(h, e); }
        self.wrap(e)
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (data, sym) = match st.mem.get(src, n) {
            Some((o, off)) => (o.data[off..off + n as usize].to_vec(), o.sym.as_ref().and_then(|s| { let s = &s[off..off + n as usize]; if s.iter().any(|x| *x != 0) { Some(s.to_vec()) } else { None } })),
            None => return self.fault("memcpy read", src, n),
        };
        let (o, off) = match st.mem.get_mut(dst, n) { Some(x) => x, None => return self.fault("memcpy write", dst, n) };
        o.data[off..off + n as usize].copy_from_slice(&data);
        match sym {
            Some(s) => { if o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); } o.sym.as_mut().unwrap()[off..off + n as usize].copy_from_slice(&s); }
            None => if let Some(d) = &mut o.sym { for x in &mut d[off..off + n as usize] { *x = 0; } },
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, addr: u64) -> R<V> { self.load_scalar(st, addr, 8) }

    /// Load through a pointer that depends on one symbolic byte: a table lookup.
    fn load_table(&mut self, st: &mut State, p: E, t: &Ty) -> R<Option<V>> {
        if !t.scalar() || t.bits() > 64 { return Ok(None); }
        let v = match self.cx.single(p) { Some(v) => v, None => return Ok(None) };
        let vals = self.cx.values(p, v);
        let w = t.bits();
        let n = ((w + 7) / 8) as u64;
        let mut tab = vec![0u64; 256];
        let mut fillv = None;
        let ms = members(&st.dom[v as usize]);
        for b in &ms {
            let a = vals[*b as usize] as u64;
            match st.mem.get(a, n) {
                Some((o, off)) => { if let Some(s) = &o.sym { if s[off..off + n as usize].iter().any(|x| *x != 0) { return Ok(None); } } }
                None => return Ok(None),
            }
            match self.load_scalar(st, a, w)? { V::I(x) => { tab[*b as usize] = x; fillv.get_or_insert(x); } _ => return Ok(None) }
        }
        for b in 0..256usize { if !has(&st.dom[v as usize], b as u8) { tab[b] = fillv.unwrap_or(0); } }
        let e = self.cx.tab(v, w, tab);
        Ok(Some(self.wrap(e)))
    }

    // ---- running ---------------------------------------------------------------------------

    #[inline] fn op(&self, st: &State, o: &O) -> V {
        match o { O::Reg(r) => st.top.regs[*r as usize].clone(), O::I(k) => V::I(*k), O::K(k) => kv(k) }
    }
    #[inline] fn set(&self, st: &mut State, d: u32, v: V) { if d != NODST { st.top.regs[d as usize] = v; } }

    fn jump(&mut self, st: &mut State, e: &Edge) {
        if !e.moves.is_empty() {
            if e.moves.len() == 1 { let (d, o) = &e.moves[0]; let v = self.op(st, o); st.top.regs[*d as usize] = v; }
            else {
                let vs: Vec<V> = e.moves.iter().map(|(_, o)| self.op(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) { st.top.regs[*d as usize] = v; }
            }
        }
        st.top.block = e.block;
        st.top.pc = 0;
        let f = st.top.f;
        let bl = &mut self.blocks[f.id as usize];
        if bl.is_empty() { bl.resize(f.blocks.len(), false); }
        bl[e.block as usize] = true;
    }

    /// Runs a state to the end of its path.
    pub fn run(&mut self, mut st: State) {
        let r = self.exec(&mut st);
        let (kind, code) = match r { Ok(()) => (Kind::Done, String::new()), Err(End(k, c)) => (k, c) };
        self.finish(&st, kind, code);
    }
    fn finish(&mut self, st: &State, kind: Kind, code: String) {
        let locs = if matches!(kind, Kind::Done | Kind::Reject) { vec![] } else { self.locs(st) };
        let mut h = 0xcbf29ce484222325u64;
        for v in st.obs.iter() {
            let x = match v { V::I(x) => *x, V::E(e) => self.cx.eval(*e, &st.model) as u64, _ => 0 };
            for b in x.to_le_bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        }
        let (volume, unary) = match self.measure(st) { Some(v) => (v - st.lg0, true), None => (0.0, false) };
        self.results.push(PathRes { kind, code, model: st.model.clone(), digest: h, locs, covers: st.covers, volume, steps: st.steps, unary });
    }
    /// log2 of the number of inputs of a path: domain sizes, and enumeration of small groups of related variables.
    fn measure(&mut self, st: &State) -> Option<f64> {
        let mut vol: f64 = (0..st.dom.len()).filter(|v| st.mvmask >> v & 1 == 0).map(|v| (count(&st.dom[v]) as f64).log2()).sum();
        let mut left: Vec<E> = st.multi.to_vec();
        let mut covered = 0u128;
        while let Some(e) = left.pop() {
            let mut group = vec![e];
            let mut sup = self.cx.sup[e as usize];
            loop {
                let n = group.len();
                let cx = &self.cx;
                left.retain(|k| if cx.sup[*k as usize] & sup != 0 { group.push(*k); sup |= cx.sup[*k as usize]; false } else { true });
                if group.len() == n { break; }
            }
            covered |= sup;
            let vars: Vec<usize> = (0..st.dom.len()).filter(|v| sup >> v & 1 == 1).collect();
            let vals: Vec<Vec<u8>> = vars.iter().map(|v| members(&st.dom[*v])).collect();
            let total: u64 = vals.iter().map(|v| v.len() as u64).fold(1, |a, b| a.saturating_mul(b));
            if total > 4096 { return None; }
            let mut m = st.model.clone();
            let mut n = 0u64;
            for k in 0..total {
                let mut r = k;
                for (i, v) in vars.iter().enumerate() { m[*v] = vals[i][(r % vals[i].len() as u64) as usize]; r /= vals[i].len() as u64; }
                if group.iter().all(|e| self.cx.eval(*e, &m) == 1) { n += 1; }
            }
            if n == 0 { return None; }
            vol += (n as f64).log2();
        }
        // variables whose constraints were simplified away
        vol += (0..st.dom.len()).filter(|v| st.mvmask >> v & 1 == 1 && covered >> v & 1 == 0).map(|v| (count(&st.dom[v]) as f64).log2()).sum::<f64>();
        Some(vol)
    }
    fn locs(&self, st: &State) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut fr = |f: &Frame| {
            if let Some(i) = f.f.blocks[f.block as usize].get(f.pc as usize) {
                if i.dbg != 0 { out.extend(self.m.locs(i.dbg)); } else { out.push(("?".into(), 0, f.f.name.clone())); }
            }
        };
        fr(&st.top);
        for f in st.stack.iter().rev().take(12) { fr(f); }
        out
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        loop {
            match self.exec_to_end(st) {
                // a caught panic: drop the frames above the one that catches it
                Err(End(Kind::Panic, _)) if !st.tries.is_empty() => {
                    let depth = st.tries.pop().unwrap();
                    loop {
                        for a in std::mem::take(&mut st.top.allocas) { st.mem.free(a); }
                        let fr = st.stack.pop().unwrap();
                        st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if st.stack.len() <= depth { break; }
                    }
                    let ci = &st.top.f.blocks[st.top.block as usize][st.top.pc as usize];
                    self.set(st, ci.dst, V::I(1));
                    match &ci.i { I::Call(c) => match &c.normal { Some(e) => self.jump(st, e), None => st.top.pc += 1 }, _ => unreachable!() }
                }
                r => return r,
            }
        }
    }
    fn exec_to_end(&mut self, st: &mut State) -> R<()> {
        loop {
            if let Some(t) = &st.th { if t.want { self.schedule(st)?; } }
            let f: &'static Func = st.top.f;
            let ins = &f.blocks[st.top.block as usize][st.top.pc as usize];
            st.steps += 1;
            self.insts += 1;
            if st.steps > self.cfg.max_steps { return Err(End(Kind::Steps, "step limit".into())); }
            let d = ins.dst;
            match &ins.i {
                I::Bin(o, w, a, b) => {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let r = self.binop(*o, *w, &x, &y)?;
                    self.set(st, d, r);
                }
                I::Icmp(p, w, a, b) => {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let mut r = self.icmp(*p, *w, &x, &y);
                    // a comparison that the domain of its only variable decides
                    if let V::E(e) = r { if let Some(v) = self.cx.single(e) {
                        let dom = st.dom[v as usize];
                        let t = solver::and(&dom, &self.cx.truth(e, v));
                        if t == dom { let n = self.cx.not(e); self.audit(st, n, false); r = V::I(1); self.z3.st.domain_decisions += 1; }
                        else if empty(&t) { self.audit(st, e, false); r = V::I(0); self.z3.st.domain_decisions += 1; }
                    } }
                    self.set(st, d, r);
                }
                I::Br(e) => { self.jump(st, e); continue; }
                I::CondBr(c, t, e) => {
                    let v = self.op(st, c);
                    let side = match v {
                        V::I(x) => x & 1 == 1,
                        V::E(x) => {
                            let (side, other) = self.branch(st, x);
                            if let Some(mut o) = other { self.jump(&mut o, if side { e } else { t }); self.work.push(o); }
                            side
                        }
                        _ => return Err(End(Kind::Unsupported, "branch".into())),
                    };
                    self.jump(st, if side { t } else { e });
                    continue;
                }
                I::Load(t, p) => {
                    let pv = self.op(st, p);
                    if st.th.is_some() { let a = self.conc(st, &pv)?; self.race(st, a, t.size(), 0)?; }
                    let r = if let V::E(pe) = &pv {
                        match if st.conc.contains_key(pe) { None } else { self.load_table(st, *pe, t)? } { Some(v) => v, None => { let a = self.conc(st, &pv)?; self.load(st, a, t)? } }
                    } else { let a = self.conc(st, &pv)?; self.load(st, a, t)? };
                    self.set(st, d, r);
                }
                I::Store(t, v, p) => {
                    let pv = self.op(st, p);
                    let a = self.conc(st, &pv)?;
                    if st.th.is_some() { self.race(st, a, t.size(), 1)?; }
                    let v = self.op(st, v);
                    self.store(st, a, t, &v)?;
                }
                I::Gep(b, off, dynv) => {
                    let mut r = self.op(st, b);
                    if *off != 0 { r = self.binop(Op::Add, 64, &r, &V::I(*off))?; }
                    for (o, w, s) in dynv.iter() {
                        let mut i = self.op(st, o);
                        if *w < 64 { i = self.sext_v(&i, *w, 64); }
                        if *s != 1 { i = self.binop(Op::Mul, 64, &i, &V::I(*s))?; }
                        r = self.binop(Op::Add, 64, &r, &i)?;
                    }
                    self.set(st, d, r);
                }
                I::Mov(o) => { let v = self.op(st, o); self.set(st, d, v); }
                I::ZExt(_, w, o) => {
                    let v = match self.op(st, o) { V::I(x) => wval(x as u128, *w), V::E(e) => { let r = self.cx.zext(e, *w); self.wrap(r) } v => v };
                    self.set(st, d, v);
                }
                I::SExt(w, w2, o) => { let v = self.op(st, o); let r = self.sext_v(&v, *w, *w2); self.set(st, d, r); }
                I::Trunc(_, w, o) => {
                    let v = match self.op(st, o) { V::I(x) => V::I(if *w < 64 { x & ((1u64 << w) - 1) } else { x }), V::W(x) => wval(*x & mask(*w), *w), V::E(e) => { let r = self.cx.extract(e, 0, *w); self.wrap(r) } v => v };
                    self.set(st, d, v);
                }
                I::Select(ct, c, t, a, b) => {
                    let cv = self.op(st, c);
                    if !ct.scalar() {
                        let n = match ct { Ty::Vec(_, n) => *n as usize, _ => 0 };
                        let (ca, x, y) = (agg(&cv, n), agg(&self.op(st, a), n), agg(&self.op(st, b), n));
                        let w = t.elem(0).bits();
                        let mut out = vec![];
                        for i in 0..n { out.push(match &ca[i] { V::I(k) => if *k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::E(e) => { let p = self.expr(&x[i], w); let q = self.expr(&y[i], w); let r = self.cx.ite(*e, p, q); self.wrap(r) } _ => panic!() }); }
                        self.set(st, d, V::A(Rc::new(out)));
                    } else {
                        match cv {
                            V::I(k) => { let v = self.op(st, if k & 1 == 1 { a } else { b }); self.set(st, d, v); }
                            V::E(e) => {
                                let (x, y) = (self.op(st, a), self.op(st, b));
                                if matches!(t, Ty::Int(_) | Ty::F64 | Ty::F32) {
                                    let w = t.bits();
                                    let p = self.expr(&x, w); let q = self.expr(&y, w);
                                    let r = self.cx.ite(e, p, q);
                                    let r = self.wrap(r);
                                    self.set(st, d, r);
                                } else {
                                    // pointers and aggregates: fork
                                    let same = match (&x, &y) { (V::I(p), V::I(q)) => p == q, _ => false };
                                    if same { self.set(st, d, x); }
                                    else {
                                        let (side, other) = self.branch(st, e);
                                        if let Some(mut o) = other { let v = if side { y.clone() } else { x.clone() }; self.set(&mut o, d, v); o.top.pc += 1; self.work.push(o); }
                                        self.set(st, d, if side { x } else { y });
                                    }
                                }
                            }
                            _ => return Err(End(Kind::Unsupported, "select".into())),
                        }
                    }
                }
                I::Switch(w, v, def, cases) => {
                    let v = self.op(st, v);
                    match v {
                        V::E(e) => {
                            // conditions per distinct target
                            let mut groups: Vec<(&Edge, E)> = vec![];
                            let mut any: Option<E> = None;
                            for (k, ed) in cases.iter() {
                                let kc = self.cx.constant(*w, *k);
                                let c = self.cx.bin(Op::Eq, e, kc);
                                any = Some(match any { None => c, Some(x) => self.cx.bin(Op::Or, x, c) });
                                match groups.iter_mut().find(|g| g.0.block == ed.block && Rc::ptr_eq(&g.0.moves, &ed.moves) || g.0.block == ed.block && ed.moves.is_empty()) {
                                    Some(g) => g.1 = self.cx.bin(Op::Or, g.1, c),
                                    None => groups.push((ed, c)),
                                }
                            }
                            let dc = match any { Some(x) => self.cx.not(x), None => self.cx.constant(1, 1) };
                            groups.push((def, dc));
                            self.branch_sym += 1;
                            let mut feas = vec![];
                            for (ed, c) in groups { if let Feas::Yes(p) = self.feasible(st, c) { feas.push((ed, c, p)); } else { self.audit(st, c, false); } }
                            if feas.is_empty() { return Err(End(Kind::Unsupported, "switch without feasible target".into())); }
                            let n = feas.len();
                            for (ed, c, p) in feas.drain(1..).collect::<Vec<_>>() {
                                let mut o = st.clone();
                                self.add(&mut o, c, p);
                                o.forks += 1;
                                self.jump(&mut o, ed);
                                self.forks += 1;
                                self.work.push(o);
                            }
                            let (ed, c, p) = feas.pop().unwrap();
                            if n > 1 { self.add(st, c, p); }
                            self.jump(st, ed);
                        }
                        V::I(x) => {
                            let ed = cases.iter().find(|c| c.0 == x as u128).map(|c| &c.1).unwrap_or(def);
                            self.jump(st, ed);
                        }
                        V::W(x) => { let ed = cases.iter().find(|c| c.0 == *x).map(|c| &c.1).unwrap_or(def); self.jump(st, ed); }
                        V::A(_) => return Err(End(Kind::Unsupported, "switch".into())),
                    }
                    continue;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| self.op(st, o));
                    for a in std::mem::take(&mut st.top.allocas) { st.mem.free(a); }
                    match st.stack.pop() {
                        None => match &mut st.th {
                            Some(t) if t.cur != 0 => { let c = t.cur; t.all[c].status = Status::Done; t.want = true; }
                            _ => return Ok(()),
                        },
                        Some(fr) => {
                            if st.tries.last() == Some(&st.stack.len()) { st.tries.pop(); }
                            st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            let ci = &st.top.f.blocks[st.top.block as usize][st.top.pc as usize];
                            if let Some(v) = v { self.set(st, ci.dst, v); }
                            match &ci.i { I::Call(c) => match &c.normal { Some(e) => self.jump(st, e), None => st.top.pc += 1 }, _ => unreachable!() }
                        }
                    }
                    continue;
                }
                I::Call(c) => { if self.call(st, c, d)? { continue; } }
                I::Alloca(sz, n) => {
                    let nv = self.op(st, n);
                    let k = self.conc(st, &nv)?;
                    let a = st.mem.alloc(sz * k, false);
                    st.top.allocas.push(a);
                    self.set(st, d, V::I(a));
                }
                I::ExtractV(v, _, idx) => {
                    let mut x = self.op(st, v);
                    for i in idx.iter() { x = match &x { V::A(a) => a[*i as usize].clone(), _ => V::I(0) }; }
                    self.set(st, d, x);
                }
                I::InsertV(t, v, e, idx) => {
                    let x = self.op(st, v); let e = self.op(st, e);
                    let r = insert(&x, t, &e, idx);
                    self.set(st, d, r);
                }
                I::ExtractE(t, v, i) => {
                    let x = self.op(st, v); let iv = self.op(st, i);
                    let i = self.conc(st, &iv)? as usize;
                    let n = match t { Ty::Vec(_, n) => *n as usize, _ => 0 };
                    self.set(st, d, agg(&x, n)[i].clone());
                }
                I::InsertE(t, v, e, i) => {
                    let x = self.op(st, v); let e = self.op(st, e); let iv = self.op(st, i);
                    let i = self.conc(st, &iv)? as usize;
                    let n = match t { Ty::Vec(_, n) => *n as usize, _ => 0 };
                    let mut a = agg(&x, n); a[i] = e;
                    self.set(st, d, V::A(Rc::new(a)));
                }
                I::Shuffle(t, a, b, mk) => {
                    let n = match t { Ty::Vec(_, n) => *n as usize, _ => 0 };
                    let (x, y) = (agg(&self.op(st, a), n), agg(&self.op(st, b), n));
                    let r = mk.iter().map(|i| if (*i as usize) < n { x[*i as usize].clone() } else { y[*i as usize - n].clone() }).collect();
                    self.set(st, d, V::A(Rc::new(r)));
                }
                I::BinV(o, t, a, b) => {
                    let (e, n) = match t { Ty::Vec(e, n) => (e.bits(), *n as usize), _ => panic!() };
                    let (x, y) = (agg(&self.op(st, a), n), agg(&self.op(st, b), n));
                    let mut r = vec![]; for i in 0..n { r.push(self.binop(*o, e, &x[i], &y[i])?); }
                    self.set(st, d, V::A(Rc::new(r)));
                }
                I::IcmpV(p, t, a, b) => {
                    let (e, n) = match t { Ty::Vec(e, n) => (e.bits(), *n as usize), _ => panic!() };
                    let (x, y) = (agg(&self.op(st, a), n), agg(&self.op(st, b), n));
                    let r = (0..n).map(|i| self.icmp(*p, e, &x[i], &y[i])).collect();
                    self.set(st, d, V::A(Rc::new(r)));
                }
                I::CastV(k, t, t2, o) => {
                    let (w, n) = match t { Ty::Vec(e, n) => (e.bits(), *n as usize), _ => panic!() };
                    let w2 = t2.elem(0).bits();
                    let x = agg(&self.op(st, o), n);
                    let mut r = vec![];
                    for i in 0..n { let e = self.expr(&x[i], w); let e = match k { 0 => self.cx.zext(e, w2), 1 => self.cx.sext(e, w2), _ => self.cx.extract(e, 0, w2) }; r.push(self.wrap(e)); }
                    self.set(st, d, V::A(Rc::new(r)));
                }
                I::BitcastV(t, t2, o) => {
                    let v = self.op(st, o);
                    let x = match t { Ty::Vec(e, n) => self.join_bits(&v, *n as u32, e.bits()), _ => v };
                    let r = match t2 { Ty::Vec(e, n) => self.split_bits(&x, *n as u32 * e.bits(), e.bits()), _ => x };
                    self.set(st, d, r);
                }
                I::FBin(k, w, a, b) => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = self.fop(st, *w, *w, &x, Some(&y), &|x, y| fbin(*k, *w, x, y))?; self.set(st, d, r); }
                I::FNeg(w, a) => { let x = self.op(st, a); let r = self.binop(Op::Xor, *w, &x, &V::I(1u64 << (w - 1)))?; self.set(st, d, r); }
                I::Fcmp(p, w, a, b) => { let (x, y) = (self.op(st, a), self.op(st, b)); let r = match self.fcmp_bits(*p, *w, &x, &y) { Some(r) => r, None => self.fop(st, *w, 1, &x, Some(&y), &|x, y| fcmp(*p, *w, x, y))? }; self.set(st, d, r); }
                I::FCast(k, w, w2, a) => {
                    let x = self.op(st, a);
                    if *w > 64 { let v = self.conc128(st, &x)?; self.set(st, d, V::I((v as f64).to_bits())); }
                    else { let r = self.fop(st, *w, *w2, &x, None, &|x, _| fcast(*k, *w, *w2, x))?; self.set(st, d, r); }
                }
                I::LoadA(t, p, o) => {
                    let pv = self.op(st, p); let a = self.conc(st, &pv)?;
                    if st.th.is_some() && self.visible(st, a, false, t.size())? { continue; }
                    self.sync_read(st, a, *o);
                    let r = self.load(st, a, t)?;
                    self.set(st, d, r);
                }
                I::StoreA(t, v, p, o) => {
                    let pv = self.op(st, p); let a = self.conc(st, &pv)?;
                    if st.th.is_some() && self.visible(st, a, false, t.size())? { continue; }
                    self.sync_write(st, a, *o, false);
                    let v = self.op(st, v);
                    self.store(st, a, t, &v)?;
                }
                I::AtomicRmw(k, t, p, v, o) => {
                    let pv = self.op(st, p); let a = self.conc(st, &pv)?;
                    if st.th.is_some() && self.visible(st, a, matches!(k, 1 | 2), t.size())? { continue; }
                    self.sync_read(st, a, *o); self.sync_write(st, a, *o, true);
                    let old = self.load(st, a, t)?; let v = self.op(st, v); let w = t.bits();
                    let pick = |me: &mut Self, op: Op, first: bool| { let x = me.expr(&old, w); let y = me.expr(&v, w); let l = me.cx.bin(op, x, y); let r = if first { me.cx.ite(l, x, y) } else { me.cx.ite(l, y, x) }; me.wrap(r) };
                    let new = match k {
                        0 => v, 1 => self.binop(Op::Add, w, &old, &v)?, 2 => self.binop(Op::Sub, w, &old, &v)?, 3 => self.binop(Op::And, w, &old, &v)?, 5 => self.binop(Op::Or, w, &old, &v)?, 6 => self.binop(Op::Xor, w, &old, &v)?,
                        7 => pick(self, Op::Slt, false), 8 => pick(self, Op::Slt, true), 9 => pick(self, Op::Ult, false), 10 => pick(self, Op::Ult, true),
                        _ => return Err(End(Kind::Unsupported, "atomicrmw".into())),
                    };
                    self.store(st, a, t, &new)?;
                    self.set(st, d, old);
                }
                I::CmpXchg(t, p, a, b, o, fo) => {
                    let pv = self.op(st, p); let ad = self.conc(st, &pv)?;
                    if st.th.is_some() && self.visible(st, ad, false, t.size())? { continue; }
                    let old = self.load(st, ad, t)?; let ov = self.conc(st, &old)?;
                    let av = self.op(st, a); let x = self.conc(st, &av)?;
                    let ok = ov == x;
                    self.sync_read(st, ad, if ok { *o } else { *fo });
                    if ok { self.sync_write(st, ad, *o, true); let b = self.op(st, b); self.store(st, ad, t, &b)?; }
                    self.set(st, d, V::A(Rc::new(vec![V::I(ov), V::I(ok as u64)])));
                }
                I::Fence(o) => if let Some(t) = &mut st.th {
                    let c = t.cur; let k = &mut t.all[c];
                    if o & 1 != 0 { let p = k.pend; vjoin(&mut k.vc, &p); }
                    if o & 2 != 0 { k.relf = k.vc; k.vc[c] += 1; }
                },
                I::Unreachable => return Err(End(Kind::Unreachable, "unreachable code reached".into())),
                I::LandingPad => return Err(End(Kind::Unsupported, "landing pad".into())),
            }
            st.top.pc += 1;
        }
    }

    fn sext_v(&mut self, v: &V, w: u32, w2: u32) -> V {
        match v { V::I(x) => wval(sext(*x as u128, w) as u128 & mask(w2), w2), V::E(e) => { let r = self.cx.sext(*e, w2); self.wrap(r) } V::W(x) => wval(sext(**x, w) as u128 & mask(w2), w2), v => v.clone() }
    }
    #[inline] fn binop(&mut self, o: Op, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::I(a), V::I(b)) = (x, y) {
            if w <= 64 {
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                let r = match o {
                    Op::Add => a.wrapping_add(*b) & m, Op::Sub => a.wrapping_sub(*b) & m, Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b, Op::Mul => a.wrapping_mul(*b) & m,
                    _ => bin(o, w, *a as u128, *b as u128) as u64,
                };
                return Ok(V::I(r));
            }
        }
        match (x, y) {
            (V::A(_), _) | (_, V::A(_)) => return Err(End(Kind::Unsupported, "binop on aggregate".into())),
            (V::E(_), _) | (_, V::E(_)) => {}
            _ => { let a = match x { V::I(x) => *x as u128, V::W(x) => **x, _ => 0 }; let b = match y { V::I(x) => *x as u128, V::W(x) => **x, _ => 0 }; return Ok(wval(bin(o, w, a, b), w)); }
        }
        let a = self.expr(x, w); let b = self.expr(y, w);
        let r = self.cx.bin(o, a, b);
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        let (o, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false),
        };
        let (x, y) = if sw { (y, x) } else { (x, y) };
        if let (V::I(a), V::I(b)) = (x, y) {
            let r = match o { Op::Eq => a == b, Op::Ult => a < b, Op::Ule => a <= b, _ => bin(o, w, *a as u128, *b as u128) == 1 };
            return V::I((r != neg) as u64);
        }
        let a = self.expr(x, w); let b = self.expr(y, w);
        let mut r = self.cx.bin(o, a, b);
        if neg { r = self.cx.not(r); }
        self.wrap(r)
    }
    /// Comparison of floating point values that depend on several bytes, in terms of their bits.
    fn fcmp_bits(&mut self, p: u8, w: u32, x: &V, y: &V) -> Option<V> {
        let sx = match x { V::E(e) => self.cx.sup[*e as usize], V::I(_) => 0, _ => return None };
        let sy = match y { V::E(e) => self.cx.sup[*e as usize], V::I(_) => 0, _ => return None };
        if (sx | sy).count_ones() < 2 { return None; }
        // bits: 1 equal, 2 greater, 4 less, 8 unordered
        let p = match p { 8..=13 => p + 1, 14 => 8, p => p };
        let (a, b) = (self.expr(x, w), self.expr(y, w));
        let low = self.cx.constant(w, mask(w - 1));
        let inf = self.cx.constant(w, if w == 64 { 0x7ff0_0000_0000_0000 } else { 0x7f80_0000 });
        let (ma, mb) = (self.cx.bin(Op::And, a, low), self.cx.bin(Op::And, b, low));
        let (na, nb) = (self.cx.bin(Op::Ult, inf, ma), self.cx.bin(Op::Ult, inf, mb));
        let un = self.cx.bin(Op::Or, na, nb);
        // a key that orders as the values do: magnitudes above zero, negative ones below
        let zero = self.cx.constant(w, 0);
        let mut key = |m: E, v: E, me: &mut Self| { let s = me.cx.extract(v, w - 1, 1); let n = me.cx.bin(Op::Sub, zero, m); me.cx.ite(s, n, m) };
        let (ka, kb) = (key(ma, a, self), key(mb, b, self));
        let (eq, lt, gt) = (self.cx.bin(Op::Eq, ka, kb), self.cx.bin(Op::Slt, ka, kb), self.cx.bin(Op::Slt, kb, ka));
        let t = self.cx.constant(1, 1);
        let f = self.cx.constant(1, 0);
        let mut r = f;
        if p & 1 != 0 { r = self.cx.bin(Op::Or, r, eq); }
        if p & 2 != 0 { r = self.cx.bin(Op::Or, r, gt); }
        if p & 4 != 0 { r = self.cx.bin(Op::Or, r, lt); }
        let ord = self.cx.not(un);
        r = self.cx.bin(Op::And, r, ord);
        if p & 8 != 0 { r = self.cx.bin(Op::Or, r, un); }
        if p == 15 { r = t; }
        Some(self.wrap(r))
    }
    /// Floating point: evaluated exactly, by value table when it depends on one byte, else by concretizing.
    fn fop(&mut self, st: &mut State, _w: u32, w2: u32, x: &V, y: Option<&V>, f: &dyn Fn(u64, u64) -> u64) -> R<V> {
        let yv = y.cloned().unwrap_or(V::I(0));
        let sx = match x { V::E(e) => self.cx.sup[*e as usize], _ => 0 };
        let sy = match &yv { V::E(e) => self.cx.sup[*e as usize], _ => 0 };
        let s = sx | sy;
        if s != 0 && s & (s - 1) == 0 {
            let v = s.trailing_zeros();
            let tv = |me: &mut Self, k: &V| -> Vec<u64> { match k { V::E(e) => me.cx.values(*e, v).into_iter().map(|x| x as u64).collect(), V::I(k) => vec![*k; 256], _ => vec![0; 256] } };
            let a = tv(self, x); let b = tv(self, &yv);
            let t: Vec<u64> = (0..256).map(|i| f(a[i], b[i])).collect();
            let e = self.cx.tab(v, w2, t);
            return Ok(self.wrap(e));
        }
        let a = self.conc(st, x)?; let b = self.conc(st, &yv)?;
        Ok(V::I(f(a, b) & mask(w2) as u64))
    }

    // ---- threads ---------------------------------------------------------------------------

    /// An access while threads run: reports bytes that another thread wrote, or read when this is a write, without an
    /// order between the two. Atomic accesses (kind 2) only have to be ordered after what is not atomic.
    fn race(&mut self, st: &mut State, addr: u64, n: u64, kind: u8) -> R<()> {
        if n == 0 { return Ok(()); }
        let t = st.th.as_ref().unwrap();
        let cur = t.cur; let vc = t.all[cur].vc;
        if vc[cur] >= 0x3fff { return Err(End(Kind::Unsupported, "too many synchronizing operations".into())); }
        match st.mem.get(addr, n) {
            Some((o, off)) => {
                if let Some(s) = &o.sh {
                    for e in &s[off..off + n as usize] {
                        let (tid, clk) = ((e[0] >> 14) as usize, e[0] & 0x3fff);
                        if clk > vc[tid] { return Err(End(Kind::Assert, "411".into())); }
                        if kind == 1 { for k in 0..NTH { if e[k + 1] > vc[k] { return Err(End(Kind::Assert, "411".into())); } } }
                    }
                }
                if o.ro || kind == 2 { return Ok(()); }
            }
            None => return Ok(()),
        }
        if let Some((o, off)) = st.mem.get_mut(addr, n) {
            if o.sh.is_none() { o.sh = Some(vec![[0; 5]; o.data.len()]); }
            for x in &mut o.sh.as_mut().unwrap()[off..off + n as usize] { if kind == 1 { x[0] = (cur as u16) << 14 | vc[cur]; } else { x[cur + 1] = vc[cur]; } }
        }
        Ok(())
    }
    fn sync_read(&mut self, st: &mut State, addr: u64, o: u8) {
        if let Some(t) = &mut st.th { if let Some(v) = t.sync.get(&addr).copied() { let c = t.cur; if o & 1 != 0 { vjoin(&mut t.all[c].vc, &v); } else { vjoin(&mut t.all[c].pend, &v); } } }
    }
    fn sync_write(&mut self, st: &mut State, addr: u64, o: u8, keep: bool) {
        if let Some(t) = &mut st.th {
            let c = t.cur;
            let mut v = if o & 2 != 0 { t.all[c].vc } else { t.all[c].relf };
            if keep { if let Some(x) = t.sync.get(&addr) { vjoin(&mut v, x); } }
            t.sync.insert(addr, v);
            if o & 2 != 0 { t.all[c].vc[c] += 1; }
        }
    }
    /// Before an atomic access: the place where another thread may go on. True when it does.
    fn visible(&mut self, st: &mut State, addr: u64, counting: bool, n: u64) -> R<bool> {
        // atomics that were written without atomics are subject to the same order
        let t = st.th.as_mut().unwrap();
        let c = t.cur;
        if t.all[c].skip { t.all[c].skip = false; return Ok(false); }
        // reference counts commute
        let heap = st.mem.get(addr, n).map_or(false, |(o, _)| o.heap);
        self.race(st, addr, n, 2)?;
        if counting && heap && addr % ir::SLOT == 0 { return Ok(false); }
        let t = st.th.as_mut().unwrap();
        if !t.all.iter().enumerate().any(|(i, k)| i != c && k.status == Status::Ready) { return Ok(false); }
        t.count += 1;
        if t.used >= t.pre.len() { return Ok(false); }
        if t.count > 255 { t.over = true; return Ok(false); }
        let (e, k) = (t.pre[t.used], t.count);
        let kc = self.cx.constant(8, k as u128);
        let cond = self.cx.bin(Op::Eq, e, kc);
        let (side, other) = self.branch(st, cond);
        let mut go = |me: &mut Self, s: &mut State, taken: bool| -> R<()> {
            let t = s.th.as_mut().unwrap();
            t.all[c].skip = true;
            if taken { t.used += 1; t.want = true; me.forks += 0; }
            Ok(())
        };
        if let Some(mut o) = other { go(self, &mut o, !side)?; self.work.push(o); }
        go(self, st, side)?;
        Ok(true)
    }
    /// Hands over to another thread.
    fn schedule(&mut self, st: &mut State) -> R<()> {
        let t = st.th.as_mut().unwrap();
        let cur = t.cur;
        let done = t.all.iter().skip(1).all(|k| k.status == Status::Done);
        if done {
            if t.all[0].status == Status::Joining { t.all[0].status = Status::Ready; }
            let vs: Vec<Vc> = t.all.iter().map(|k| k.vc).collect();
            for v in vs { vjoin(&mut t.all[0].vc, &v); }
        }
        let ready: Vec<usize> = (1..=t.all.len()).map(|i| (cur + i) % t.all.len()).filter(|i| t.all[*i].status == Status::Ready).collect();
        let others: Vec<usize> = ready.iter().copied().filter(|i| *i != cur).collect();
        let to = if others.is_empty() { if ready.is_empty() { return Err(End(Kind::Assert, "410".into())); } ready[0] } else if others.len() == 1 { others[0] } else {
            // any of them may go on
            let n = others.len() as u64;
            let dom = [(1u64 << n) - 1, 0, 0, 0];
            let e = self.new_var(st, dom)?;
            let mut pick = 0;
            for i in 0..others.len() - 1 {
                let k = self.cx.constant(8, i as u128);
                let c = self.cx.bin(Op::Eq, e, k);
                let (side, other) = self.branch(st, c);
                if side { pick = i; if let Some(mut o) = other { for j in i + 2..others.len() { let _ = j; } self.switch(&mut o, others[i + 1]); self.work.push(o); } break; }
                pick = i + 1;
            }
            others[pick]
        };
        self.switch(st, to);
        Ok(())
    }
    fn switch(&mut self, st: &mut State, to: usize) {
        let t = st.th.as_mut().unwrap();
        t.want = false;
        let cur = t.cur;
        if to == cur { return; }
        std::mem::swap(&mut t.all[cur].stack, &mut st.stack);
        std::mem::swap(&mut t.all[cur].top, &mut st.top);
        std::mem::swap(&mut t.all[cur].tries, &mut st.tries);
        std::mem::swap(&mut t.all[cur].errno, &mut st.errno);
        t.cur = to;
        std::mem::swap(&mut t.all[to].stack, &mut st.stack);
        std::mem::swap(&mut t.all[to].top, &mut st.top);
        std::mem::swap(&mut t.all[to].tries, &mut st.tries);
        std::mem::swap(&mut t.all[to].errno, &mut st.errno);
        if to == 0 && t.all.len() > 1 && t.all.iter().skip(1).all(|k| k.status == Status::Done) { st.th = None; }
    }
    fn blank(&self, st: &State) -> Thread { Thread { stack: vec![], top: Frame { f: st.top.f, regs: vec![], block: 0, pc: 0, allocas: vec![] }, tries: vec![], errno: 0, status: Status::Ready, tls: HashMap::new(), vc: [0; NTH], pend: [0; NTH], relf: [0; NTH], skip: false } }

    // ---- calls -----------------------------------------------------------------------------

    fn kind(&mut self, id: u32) -> Fk {
        let k = self.kinds[id as usize];
        if k != Fk::Unknown { return k; }
        let d = &self.m.decls[id as usize];
        let k = classify(&d.name, d.body.is_some());
        self.kinds[id as usize] = k;
        k
    }
    /// Returns true when control has moved (a frame was pushed).
    fn call(&mut self, st: &mut State, c: &ir::Call, d: u32) -> R<bool> {
        let cv = self.op(st, &c.callee);
        let addr = self.conc(st, &cv)?;
        if addr < FN_BASE || (addr - FN_BASE) / 16 >= self.m.decls.len() as u64 { return Err(End(Kind::Memory, format!("call of {:#x}", addr))); }
        let id = ((addr - FN_BASE) / 16) as u32;
        match self.kind(id) {
            Fk::Panic => Err(End(Kind::Panic, String::new())),
            Fk::Body => {
                if st.stack.len() >= self.cfg.max_depth { return Err(End(Kind::Depth, "call depth limit".into())); }
                let f = self.m.func(id);
                let mut regs = Vec::with_capacity(f.nregs as usize);
                for (_, o) in c.args.iter().take(f.params.len()) { regs.push(self.op(st, o)); }
                regs.resize(f.nregs as usize, V::I(0));
                let top = std::mem::replace(&mut st.top, Frame { f, regs, block: 0, pc: 0, allocas: vec![] });
                st.stack.push(Rc::new(top));
                self.mark(f, 0);
                Ok(true)
            }
            Fk::B(Bi::VsTry) => {
                let fv = self.op(st, &c.args[0].1);
                let a = self.conc(st, &fv)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.decls.len() as u64 { return Err(End(Kind::Memory, format!("call of {:#x}", a))); }
                let f = self.m.func(((a - FN_BASE) / 16) as u32);
                let mut regs = vec![self.op(st, &c.args[1].1)];
                regs.resize(f.nregs as usize, V::I(0));
                st.tries.push(st.stack.len());
                let top = std::mem::replace(&mut st.top, Frame { f, regs, block: 0, pc: 0, allocas: vec![] });
                st.stack.push(Rc::new(top));
                self.mark(f, 0);
                Ok(true)
            }
            Fk::B(b) => {
                let r = self.builtin(st, b, c, id)?;
                self.set(st, d, r);
                if let Some(e) = &c.normal { self.jump(st, e); return Ok(true); }
                Ok(false)
            }
            Fk::Unknown => unreachable!(),
        }
    }

    fn new_var(&mut self, st: &mut State, d: Set) -> R<E> {
        let v = st.dom.len() as u32;
        if v >= 128 { return Err(End(Kind::Unsupported, "more than 128 symbolic bytes".into())); }
        if empty(&d) { return Err(End(Kind::Reject, "empty domain".into())); }
        st.dom.push(d);
        st.model.push(pick(&d));
        st.lg0 += (count(&d) as f64).log2();
        st.nsym += 1;
        Ok(self.cx.var(v))
    }
    fn un(&mut self, w: u32, x: &V, f: &dyn Fn(u128) -> u128, st: &mut State) -> R<V> {
        match x {
            V::E(e) => {
                if let Some(v) = self.cx.single(*e) { if w <= 64 {
                    let t = self.cx.values(*e, v).into_iter().map(|x| f(x) as u64).collect();
                    let r = self.cx.tab(v, w, t); return Ok(self.wrap(r));
                } }
                let k = self.concretize(st, *e)?;
                Ok(wval(f(k) & mask(w), w))
            }
            V::I(k) => Ok(wval(f(*k as u128) & mask(w), w)),
            V::W(k) => Ok(wval(f(**k) & mask(w), w)),
            _ => Err(End(Kind::Unsupported, "unary on aggregate".into())),
        }
    }
    fn builtin(&mut self, st: &mut State, b: Bi, c: &ir::Call, id: u32) -> R<V> {
        let n = c.args.len();
        let a: Vec<V> = c.args.iter().map(|(_, o)| self.op(st, o)).collect();
        let w = if n > 0 && c.args[0].0.scalar() { c.args[0].0.bits() } else { 64 };
        macro_rules! k { ($i:expr) => {{ let v = a[$i].clone(); self.conc(st, &v)? }} }
        Ok(match b {
            Bi::Nop => V::I(0),
            Bi::Zero => V::I(0),
            Bi::One => V::I(1),
            Bi::Minus1 => wval(mask(c.ret.bits()), c.ret.bits()),
            Bi::Identity => a[0].clone(),
            Bi::IsConstant => V::I(0),
            Bi::Objectsize => V::I(!0),
            Bi::Malloc => { let n = k!(0); self.alloc(st, n)? }
            Bi::Calloc => { let n = k!(0).wrapping_mul(k!(1)); self.alloc(st, n)? }
            Bi::Memalign => { let n = k!(2); let p = k!(0); let r = self.alloc(st, n)?; self.store_scalar(st, p, 64, &r)?; V::I(0) }
            Bi::Realloc => {
                let (p, n) = (k!(0), k!(1));
                let r = self.alloc(st, n)?;
                if p != 0 {
                    let old = match st.mem.slot((p / ir::SLOT) as u32) { Slot::Obj(o) => o.data.len() as u64, _ => return self.fault("realloc", p, n) };
                    let ra = match r { V::I(x) => x, _ => 0 };
                    self.copy(st, ra, p, old.min(n))?;
                    st.mem.free(p);
                }
                r
            }
            Bi::Free => { let p = k!(0); if st.th.is_some() && p != 0 { let n = match st.mem.slot((p / ir::SLOT) as u32) { Slot::Obj(o) => o.data.len() as u64, _ => 0 }; self.race(st, p, n, 1)?; } if p != 0 && !st.mem.free(p) { return self.fault("free", p, 0); } V::I(0) }
            Bi::Bcmp => {
                let n = k!(2); let (p, q) = (k!(0), k!(1));
                if st.th.is_some() { self.race(st, p, n, 0)?; self.race(st, q, n, 0)?; }
                if n > 0 && (st.mem.get(p, n).is_none() || st.mem.get(q, n).is_none()) { return self.fault("memcmp", p, n); }
                let mut concrete = true;
                let mut ord = 0i32;
                for i in 0..n {
                    let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                    match (&x, &y) { (V::I(x), V::I(y)) => { if x != y { ord = if x < y { -1 } else { 1 }; break; } } _ => { concrete = false; break; } }
                }
                if concrete { V::I(ord as u32 as u64) }
                else {
                    let is_bcmp = self.m.decls[id as usize].name == "bcmp";
                    let zero = self.cx.constant(32, 0); let one = self.cx.constant(32, 1); let neg = self.cx.constant(32, 0xffffffff);
                    if is_bcmp {
                        let mut all = self.cx.constant(1, 1);
                        for i in 0..n {
                            let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                            let x = self.expr(&x, 8); let y = self.expr(&y, 8);
                            let e = self.cx.bin(Op::Eq, x, y);
                            all = self.cx.bin(Op::And, all, e);
                        }
                        let r = self.cx.ite(all, zero, one);
                        self.wrap(r)
                    } else {
                        let mut r = zero;
                        for i in (0..n).rev() {
                            let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                            let x = self.expr(&x, 8); let y = self.expr(&y, 8);
                            let e = self.cx.bin(Op::Eq, x, y); let l = self.cx.bin(Op::Ult, x, y);
                            let o = self.cx.ite(l, neg, one);
                            r = self.cx.ite(e, r, o);
                        }
                        self.wrap(r)
                    }
                }
            }
            Bi::Strlen => { let p = k!(0); let mut i = 0; loop { let v = self.byte(st, p + i)?; if self.conc(st, &v)? == 0 { break; } i += 1; } V::I(i) }
            Bi::Write => {
                let fd = k!(0);
                let is_v = self.m.decls[id as usize].name == "writev";
                let mut parts = vec![];
                if is_v { let (p, n) = (k!(1), k!(2)); for i in 0..n { let b = self.load_scalar(st, p + 16 * i, 64)?; let l = self.load_scalar(st, p + 16 * i + 8, 64)?; let b = self.conc(st, &b)?; let l = self.conc(st, &l)?; parts.push((b, l)); } }
                else { let (p, n) = (k!(1), k!(2)); parts.push((p, n)); }
                let mut total = 0;
                for (p, n) in parts {
                    if fd == 2 { for i in 0..n { let v = self.byte(st, p + i)?; Rc::make_mut(&mut st.io).err.push(v); } }
                    total += n;
                }
                V::I(total)
            }
            Bi::Getrandom => { let (p, n) = (k!(0), k!(1)); for i in 0..n { self.store_scalar(st, p + i, 8, &V::I(0))?; } V::I(n) }
            Bi::Syscall => {
                match k!(0) {
                    318 => { let (p, n) = (k!(1), k!(2)); for i in 0..n { self.store_scalar(st, p + i, 8, &V::I(0))?; } V::I(n) }
                    202 => {
                        let (p, op) = (k!(1), k!(2) & 127);
                        if op == 1 || op == 10 {
                            let n = k!(3); let mut w = 0;
                            if let Some(t) = &mut st.th { for k in t.all.iter_mut() { if w < n && k.status == Status::Blocked(p) { k.status = Status::Ready; w += 1; } } }
                            V::I(w)
                        } else if op == 0 || op == 9 {
                            let v = self.load_scalar(st, p, 32)?; let v = self.conc(st, &v)?;
                            if v != k!(3) & 0xffffffff { self.set_errno(st, 11)?; V::I(!0) }
                            else { match &mut st.th { Some(t) => { let c = t.cur; t.all[c].status = Status::Blocked(p); t.want = true; V::I(0) } None => return Err(End(Kind::Assert, "410".into())) } }
                        } else { return Err(End(Kind::Unsupported, format!("futex operation {}", op))); }
                    }
                    // statx: not available, the older calls are
                    332 => { self.set_errno(st, 38)?; V::I(!0) }
                    x => return Err(End(Kind::Unsupported, format!("system call {}", x))),
                }
            }
            Bi::Open => {
                let name = &self.m.decls[id as usize].name;
                let p = if name.starts_with("openat") { k!(1) } else { k!(0) };
                let path = self.cstr(st, p)?;
                match st.io.files.iter().position(|f| f.0 == path) {
                    None => { self.set_errno(st, 2)?; V::I(0xffffffff) }
                    Some(i) => { let io = Rc::make_mut(&mut st.io); io.fds.push(Some((i, 0))); V::I(io.fds.len() as u64 + 9) }
                }
            }
            Bi::Close => { let fd = k!(0); if fd >= 10 { if let Some(x) = Rc::make_mut(&mut st.io).fds.get_mut(fd as usize - 10) { *x = None; } } V::I(0) }
            Bi::Read => {
                let (fd, p, n) = (k!(0), k!(1), k!(2));
                let (f, pos) = match st.io.fds.get((fd as usize).wrapping_sub(10)) { Some(Some(x)) => *x, _ => { self.set_errno(st, 9)?; return Ok(V::I(!0)); } };
                if st.io.files[f].2 == 2 { self.set_errno(st, 21)?; return Ok(V::I(!0)); }
                let io = Rc::make_mut(&mut st.io);
                let at = io.reads; io.reads += 1;
                let mut max = n;
                if io.fault == 3 || (io.fault != 0 && at == io.fault_at) { match io.fault {
                    1 => { self.set_errno(st, 4)?; return Ok(V::I(!0)); }
                    2 => { self.set_errno(st, 5)?; return Ok(V::I(!0)); }
                    _ => max = max.min(1),
                } }
                let data = st.io.files[f].1.clone();
                let m = data.len().saturating_sub(pos).min(max as usize);
                for i in 0..m { self.store_scalar(st, p + i as u64, 8, &data[pos + i])?; }
                Rc::make_mut(&mut st.io).fds[fd as usize - 10] = Some((f, pos + m));
                V::I(m as u64)
            }
            Bi::Lseek => {
                let (fd, o, wh) = (k!(0), k!(1), k!(2));
                let (f, pos) = match st.io.fds.get((fd as usize).wrapping_sub(10)) { Some(Some(x)) => *x, _ => { self.set_errno(st, 9)?; return Ok(V::I(!0)); } };
                let to = match wh { 0 => o as i64, 1 => pos as i64 + o as i64, _ => st.io.files[f].1.len() as i64 + o as i64 };
                if to < 0 { self.set_errno(st, 22)?; return Ok(V::I(!0)); }
                Rc::make_mut(&mut st.io).fds[fd as usize - 10] = Some((f, to as usize));
                V::I(to as u64)
            }
            Bi::NoSys => { self.set_errno(st, 38)?; wval(mask(c.ret.bits()), c.ret.bits()) }
            Bi::Fstat => {
                let p = k!(1);
                let f = if self.m.decls[id as usize].name.starts_with("stat") {
                    let q = k!(0); let path = self.cstr(st, q)?;
                    match st.io.files.iter().position(|f| f.0 == path) { Some(i) => i, None => { self.set_errno(st, 2)?; return Ok(V::I(0xffffffff)); } }
                } else { let fd = k!(0); match st.io.fds.get((fd as usize).wrapping_sub(10)) { Some(Some(x)) => x.0, _ => { self.set_errno(st, 9)?; return Ok(V::I(0xffffffff)); } } };
                let (len, kind) = (st.io.files[f].1.len() as u64, st.io.files[f].2);
                for i in 0..18 { self.store_scalar(st, p + 8 * i, 64, &V::I(0))?; }
                self.store_scalar(st, p + 24, 32, &V::I(if kind == 2 { 0o40755 } else { 0o100644 }))?;
                self.store_scalar(st, p + 48, 64, &V::I(if kind == 2 { 4096 } else { len }))?;
                V::I(0)
            }
            Bi::VsFile => {
                let (p, n, d, m, kind) = (k!(0), k!(1), k!(2), k!(3), k!(4));
                let mut path = vec![]; for i in 0..n { let v = self.byte(st, p + i)?; path.push(self.conc(st, &v)? as u8); }
                let mut data = vec![]; for i in 0..m { data.push(self.byte(st, d + i)?); }
                Rc::make_mut(&mut st.io).files.push((path, data, kind));
                V::I(0)
            }
            Bi::VsFault => { let (at, kind) = (k!(0), k!(1)); let io = Rc::make_mut(&mut st.io); io.fault_at = at; io.fault = kind; io.reads = 0; V::I(0) }
            Bi::VsStderr => {
                let (p, cap) = (k!(0), k!(1));
                let err = st.io.err.clone();
                if p == 0 { return Ok(V::I(err.len() as u64)); }
                let n = err.len().min(cap as usize);
                for i in 0..n { self.store_scalar(st, p + i as u64, 8, &err[i])?; }
                V::I(n as u64)
            }
            Bi::VsTry => unreachable!(),
            Bi::Futex => V::I(st.th.as_ref().map_or(0, |t| t.cur as u64) + 1),
            Bi::Pause => { if let Some(t) = &mut st.th { t.want = true; } V::I(0) }
            Bi::Tls => {
                let a = match &a[0] { V::I(x) => *x, _ => return Err(End(Kind::Unsupported, "thread local".into())) };
                let cur = match &st.th { Some(t) if t.cur != 0 => t.cur, _ => return Ok(V::I(a)) };
                if let Some(x) = st.th.as_ref().unwrap().all[cur].tls.get(&a) { return Ok(V::I(*x)); }
                let (data, n) = match self.globals.as_ref().and_then(|m| m.get(a, 1)) { Some((o, 0)) => (o.data.clone(), o.data.len() as u64), _ => return Err(End(Kind::Unsupported, "thread local".into())) };
                let x = st.mem.alloc(n, false);
                if let Some((o, _)) = st.mem.get_mut(x, n) { o.data.copy_from_slice(&data); }
                st.th.as_mut().unwrap().all[cur].tls.insert(a, x);
                V::I(x)
            }
            Bi::VsThreads => {
                let n = k!(0);
                if st.th.is_some() { return Err(End(Kind::Unsupported, "threads twice".into())); }
                let mut pre = vec![];
                for _ in 0..n { pre.push(self.new_var(st, FULL)?); }
                let mut main = self.blank(st);
                main.vc[0] = 1;
                st.th = Some(Box::new(Threads { all: vec![main], cur: 0, want: false, pre, used: 0, count: 0, sync: HashMap::new(), over: false }));
                V::I(0)
            }
            Bi::VsSpawn => {
                let f = k!(0);
                if f < FN_BASE || (f - FN_BASE) / 16 >= self.m.decls.len() as u64 { return Err(End(Kind::Memory, format!("thread at {:#x}", f))); }
                let f = self.m.func(((f - FN_BASE) / 16) as u32);
                let mut k = self.blank(st);
                k.top.f = f; k.top.regs = vec![a[1].clone()]; k.top.regs.resize(f.nregs as usize, V::I(0));
                self.mark(f, 0);
                let t = match &mut st.th { Some(t) => t, None => return Err(End(Kind::Unsupported, "spawn".into())) };
                let id = t.all.len();
                if id >= NTH { return Err(End(Kind::Unsupported, "too many threads".into())); }
                k.vc = t.all[0].vc; k.vc[id] = 1; t.all[0].vc[0] += 1;
                t.all.push(k);
                V::I(0)
            }
            Bi::VsJoin => { if let Some(t) = &mut st.th { t.all[0].status = Status::Joining; t.want = true; } V::I(0) }
            Bi::Abort => return Err(End(Kind::Panic, "abort".into())),
            Bi::Trap => return Err(End(Kind::Panic, "trap".into())),
            Bi::Getenv => V::I(0),
            Bi::Errno => { if st.errno == 0 { st.errno = st.mem.alloc(8, false); } V::I(st.errno) }
            Bi::Memcpy => { let n = k!(2); let (p, q) = (k!(0), k!(1)); if st.th.is_some() { self.race(st, q, n, 0)?; self.race(st, p, n, 1)?; } self.copy(st, p, q, n)?; V::I(p) }
            Bi::Memset => {
                let n = k!(2); let p = k!(0);
                if st.th.is_some() { self.race(st, p, n, 1)?; }
                if n > 0 {
                    let (cb, sb) = match &a[1] { V::I(x) => (*x as u8, 0), V::E(e) => { let e = self.cx.extract(*e, 0, 8); match self.cx.as_const(e) { Some(k) => (k as u8, 0), None => (0, e + 1) } } _ => (0, 0) };
                    let (o, off) = match st.mem.get_mut(p, n) { Some(x) => x, None => return self.fault("memset", p, n) };
                    for x in &mut o.data[off..off + n as usize] { *x = cb; }
                    if sb != 0 && o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); }
                    if let Some(s) = &mut o.sym { for x in &mut s[off..off + n as usize] { *x = sb; } }
                }
                V::I(p)
            }
            Bi::Assume | Bi::Expect => if b == Bi::Expect { a[0].clone() } else { V::I(0) },
            Bi::Umax | Bi::Umin | Bi::Smax | Bi::Smin => {
                let (o, sw) = match b { Bi::Umax => (Op::Ult, true), Bi::Umin => (Op::Ult, false), Bi::Smax => (Op::Slt, true), _ => (Op::Slt, false) };
                let x = self.expr(&a[0], w); let y = self.expr(&a[1], w);
                let l = self.cx.bin(o, x, y);
                let r = if sw { self.cx.ite(l, y, x) } else { self.cx.ite(l, x, y) };
                self.wrap(r)
            }
            Bi::UsubSat => { let x = self.expr(&a[0], w); let y = self.expr(&a[1], w); let l = self.cx.bin(Op::Ult, x, y); let z = self.cx.constant(w, 0); let s = self.cx.bin(Op::Sub, x, y); let r = self.cx.ite(l, z, s); self.wrap(r) }
            Bi::UaddSat => { let x = self.expr(&a[0], w); let y = self.expr(&a[1], w); let s = self.cx.bin(Op::Add, x, y); let l = self.cx.bin(Op::Ult, s, x); let z = self.cx.constant(w, mask(w)); let r = self.cx.ite(l, z, s); self.wrap(r) }
            Bi::UaddO | Bi::UsubO | Bi::SaddO | Bi::SsubO => {
                let x = self.expr(&a[0], w); let y = self.expr(&a[1], w);
                let s = self.cx.bin(if matches!(b, Bi::UaddO | Bi::SaddO) { Op::Add } else { Op::Sub }, x, y);
                let o = match b {
                    Bi::UaddO => self.cx.bin(Op::Ult, s, x),
                    Bi::UsubO => self.cx.bin(Op::Ult, x, y),
                    _ => {
                        let x1 = self.cx.sext(x, w + 1); let y1 = self.cx.sext(y, w + 1);
                        let s1 = self.cx.bin(if b == Bi::SaddO { Op::Add } else { Op::Sub }, x1, y1);
                        let s2 = self.cx.sext(s, w + 1);
                        let e = self.cx.bin(Op::Eq, s1, s2); self.cx.not(e)
                    }
                };
                let (s, o) = (self.wrap(s), self.wrap(o));
                V::A(Rc::new(vec![s, o]))
            }
            Bi::UmulO | Bi::SmulO => {
                if w > 64 { return Err(End(Kind::Unsupported, "wide mul overflow".into())); }
                let x = self.expr(&a[0], w); let y = self.expr(&a[1], w);
                let (x2, y2) = if b == Bi::UmulO { (self.cx.zext(x, 2 * w), self.cx.zext(y, 2 * w)) } else { (self.cx.sext(x, 2 * w), self.cx.sext(y, 2 * w)) };
                let p = self.cx.bin(Op::Mul, x2, y2);
                let lo = self.cx.extract(p, 0, w);
                let back = if b == Bi::UmulO { self.cx.zext(lo, 2 * w) } else { self.cx.sext(lo, 2 * w) };
                let e = self.cx.bin(Op::Eq, p, back); let o = self.cx.not(e);
                let (s, o) = (self.wrap(lo), self.wrap(o));
                V::A(Rc::new(vec![s, o]))
            }
            Bi::Ctlz => self.un(w, &a[0], &|x| if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 }, st)?,
            Bi::Cttz => self.un(w, &a[0], &|x| if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, st)?,
            Bi::Ctpop => self.un(w, &a[0], &|x| x.count_ones() as u128, st)?,
            Bi::Bswap => self.un(w, &a[0], &|x| (x.swap_bytes()) >> (128 - w), st)?,
            Bi::Bitreverse => self.un(w, &a[0], &|x| x.reverse_bits() >> (128 - w), st)?,
            Bi::Abs => self.un(w, &a[0], &|x| sext(x, w).wrapping_abs() as u128, st)?,
            Bi::Fshl | Bi::Fshr => {
                // rotating a symbolic word is hashing: each value on its own
                let a = if w == 64 && matches!((&a[0], &a[1]), (V::E(x), V::E(y)) if x == y) { let v = a[0].clone(); let k = V::I(self.conc(st, &v)?); vec![k.clone(), k, a[2].clone()] } else { a };
                macro_rules! k { ($i:expr) => {{ let v = a[$i].clone(); self.conc(st, &v)? }} }
                let s = k!(2) % w as u64;
                if s == 0 { if b == Bi::Fshl { a[0].clone() } else { a[1].clone() } } else {
                    let s = if b == Bi::Fshl { s } else { w as u64 - s };
                    let h = self.binop(Op::Shl, w, &a[0], &V::I(s))?; let l = self.binop(Op::LShr, w, &a[1], &V::I(w as u64 - s))?;
                    self.binop(Op::Or, w, &h, &l)?
                }
            }
            Bi::Ucmp | Bi::Scmp => {
                let rw = c.ret.bits();
                let x = self.expr(&a[0], w); let y = self.expr(&a[1], w);
                let l = self.cx.bin(if b == Bi::Ucmp { Op::Ult } else { Op::Slt }, x, y); let e = self.cx.bin(Op::Eq, x, y);
                let (m1, z, o) = (self.cx.constant(rw, mask(rw)), self.cx.constant(rw, 0), self.cx.constant(rw, 1));
                let i = self.cx.ite(e, z, o); let r = self.cx.ite(l, m1, i); self.wrap(r)
            }
            Bi::Powi => { let y = k!(1) as u32 as i32; self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).powi(y).to_bits())? }
            Bi::FptouiSat => { let rw = c.ret.bits(); self.fop(st, 64, rw, &a[0], None, &|x, _| { let v = f64::from_bits(x); if rw == 64 { v as u64 } else { (v as u64).min(mask(rw) as u64) } })? }
            Bi::FptosiSat => { let rw = c.ret.bits(); self.fop(st, 64, rw, &a[0], None, &|x, _| { let v = f64::from_bits(x); match rw { 64 => v as i64 as u64, 32 => v as i32 as u32 as u64, 16 => v as i16 as u16 as u64, _ => v as i8 as u8 as u64 } })? }
            Bi::Fabs => self.binop(Op::And, 64, &a[0], &V::I(!(1 << 63)))?,
            Bi::Ffloor => self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).floor().to_bits())?,
            Bi::Fceil => self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).ceil().to_bits())?,
            Bi::Fround => self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).round().to_bits())?,
            Bi::Ftrunc => self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).trunc().to_bits())?,
            Bi::Fsqrt => self.fop(st, 64, 64, &a[0], None, &|x, _| f64::from_bits(x).sqrt().to_bits())?,
            Bi::Fcopysign => self.fop(st, 64, 64, &a[0], Some(&a[1]), &|x, y| f64::from_bits(x).copysign(f64::from_bits(y)).to_bits())?,
            Bi::Fma => { let (x, y, z) = (k!(0), k!(1), k!(2)); V::I(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()) }
            Bi::Unsup => return Err(End(Kind::Unsupported, format!("call of {}", self.m.decls[id as usize].name))),
            // ---- harness interface
            Bi::VsByte => { let e = self.new_var(st, FULL)?; V::E(e) }
            Bi::VsByteIn => {
                let p = k!(0);
                let mut d = [0u64; 4];
                for i in 0..4 { if let V::I(x) = self.load_scalar(st, p + 8 * i as u64, 64)? { d[i] = x; } }
                let e = self.new_var(st, d)?; V::E(e)
            }
            Bi::VsChoose => {
                let n = k!(0);
                let mut d = [0u64; 4];
                for i in 0..n.min(256) as usize { d[i / 64] |= 1 << (i % 64); }
                let e = self.new_var(st, d)?;
                let e = self.cx.zext(e, 32); V::E(e)
            }
            Bi::VsConc => { let v = a[0].clone(); let k = self.conc(st, &v)?; V::I(k) }
            Bi::VsAssume => {
                match &a[0] {
                    V::I(x) => { if x & 1 == 0 { return Err(End(Kind::Reject, String::new())); } }
                    V::E(e) => {
                        let e = self.cx.extract(*e, 0, 1);
                        match self.feasible(st, e) { Feas::No => return Err(End(Kind::Reject, String::new())), Feas::Yes(p) => self.add(st, e, p) }
                    }
                    _ => {}
                }
                V::I(0)
            }
            Bi::VsAssert => {
                let code = k!(1);
                match &a[0] {
                    V::I(x) => { if x & 1 == 0 { return Err(End(Kind::Assert, format!("{}", code))); } }
                    V::E(e) => {
                        let e = self.cx.extract(*e, 0, 1);
                        let ne = self.cx.not(e);
                        // always decided by z3 when it depends on symbolic input
                        self.z3.st.assert_queries += 1;
                        if self.cx.as_const(ne).is_some() { if self.cx.as_const(ne) == Some(1) { return Err(End(Kind::Assert, format!("{}", code))); } }
                        else {
                            match self.ask(st, ne) {
                                Feas::No => { self.z3.st.assert_unsat += 1; }
                                Feas::Yes(p) => {
                                    let mut o = st.clone();
                                    self.add(&mut o, ne, p);
                                    self.finish(&o, Kind::Assert, format!("{}", code));
                                    match self.feasible(st, e) { Feas::No => return Err(End(Kind::Reject, "after failed assertion".into())), Feas::Yes(p) => self.add(st, e, p) }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                V::I(0)
            }
            Bi::VsFail => { let code = k!(0); return Err(End(Kind::Assert, format!("{}", code))); }
            Bi::VsReject => return Err(End(Kind::Reject, String::new())),
            Bi::VsObs => { let v = a[0].clone(); Rc::make_mut(&mut st.obs).push(v); V::I(0) }
            Bi::VsObsBytes => {
                let (p, n) = (k!(0), k!(1));
                Rc::make_mut(&mut st.obs).push(V::I(n));
                for i in 0..n { let v = self.byte(st, p + i)?; Rc::make_mut(&mut st.obs).push(v); }
                V::I(0)
            }
            Bi::VsCover => { let i = k!(0); st.covers |= 1 << (i & 127); V::I(0) }
            Bi::VsNsym => V::I(st.dom.len() as u64),
        })
    }
    fn cstr(&mut self, st: &mut State, mut p: u64) -> R<Vec<u8>> {
        let mut path = vec![];
        loop { let v = self.byte(st, p)?; let b = self.conc(st, &v)? as u8; if b == 0 { return Ok(path); } path.push(b); p += 1; }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        if st.errno == 0 { st.errno = st.mem.alloc(8, false); }
        self.store_scalar(st, st.errno, 32, &V::I(e))
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<V> {
        if n > self.cfg.max_alloc || st.mem.live_heap + n > self.cfg.max_alloc * 4 { return Err(End(Kind::Alloc, format!("allocation of {} bytes", n))); }
        Ok(V::I(st.mem.alloc(n, true)))
    }
}

fn kv(k: &K) -> V { match k { K::I(v) => if *v <= u64::MAX as u128 { V::I(*v as u64) } else { V::W(Rc::new(*v)) }, K::Agg(v) => V::A(Rc::new(v.iter().map(kv).collect())), K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())), K::Zero => V::I(0) } }
fn agg(v: &V, n: usize) -> Vec<V> { match v { V::A(a) => a.as_ref().clone(), _ => vec![V::I(0); n] } }
fn insert(x: &V, t: &Ty, e: &V, idx: &[u32]) -> V {
    if idx.is_empty() { return e.clone(); }
    let n = match t { Ty::Struct(f, _) => f.len(), Ty::Arr(_, n) | Ty::Vec(_, n) => *n as usize, _ => 0 };
    let mut a = agg(x, n);
    let i = idx[0] as usize;
    a[i] = insert(&a[i], &t.elem(i), e, &idx[1..]);
    V::A(Rc::new(a))
}
fn fill(data: &mut [u8], off: usize, t: &Ty, k: &K) {
    match k {
        K::Zero => {}
        K::I(v) => { let n = (t.size() as usize).min(16); data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
        K::Bytes(b) => data[off..off + b.len()].copy_from_slice(b),
        K::Agg(v) => for (i, k) in v.iter().enumerate() { fill(data, off + t.offset(i) as usize, &t.elem(i), k); },
    }
}
fn fbin(k: u8, w: u32, x: u64, y: u64) -> u64 {
    if w == 32 { let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); return (match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b }).to_bits() as u64; }
    let (a, b) = (f64::from_bits(x), f64::from_bits(y));
    (match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b }).to_bits()
}
fn fcmp(p: u8, w: u32, x: u64, y: u64) -> u64 {
    let (a, b) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
    let un = a.is_nan() || b.is_nan();
    let r = match p {
        0 => false, 1 => a == b, 2 => a > b, 3 => a >= b, 4 => a < b, 5 => a <= b, 6 => !un && a != b, 7 => !un,
        8 => un || a == b, 9 => un || a > b, 10 => un || a >= b, 11 => un || a < b, 12 => un || a <= b, 13 => a != b, 14 => un, _ => true,
    };
    r as u64
}
fn fcast(k: u8, w: u32, w2: u32, x: u64) -> u64 {
    match k {
        0 => if w2 == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
        1 => { let s = sext(x as u128, w) as i64; if w2 == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
        2 => (if w == 32 { f32::from_bits(x as u32) as u64 } else { f64::from_bits(x) as u64 }) & mask(w2) as u64,
        3 => (if w == 32 { f32::from_bits(x as u32) as i64 } else { f64::from_bits(x) as i64 }) as u64 & mask(w2) as u64,
        4 => (f32::from_bits(x as u32) as f64).to_bits(),
        _ => (f64::from_bits(x) as f32).to_bits() as u64,
    }
}

fn classify(n: &str, body: bool) -> Fk {
    const PANICS: &[&str] = &["9panicking", "13unwrap_failed", "13expect_failed", "slice_index_fail", "slice_start_index", "slice_end_index", "slice_index_order", "slice_error_fail", "17rust_begin_unwind", "18handle_alloc_error", "12handle_error", "17capacity_overflow", "begin_panic", "__rust_start_panic", "14resume_unwind", "rust_foreign_exception", "len_mismatch_fail", "7process5abort", "7process4exit"];
    if n.starts_with("llvm.") {
        let s = &n[5..];
        let t: &[(&str, Bi)] = &[
            ("experimental.noalias", Bi::Nop), ("lifetime", Bi::Nop), ("assume", Bi::Assume), ("memcpy", Bi::Memcpy), ("memmove", Bi::Memcpy), ("memset", Bi::Memset),
            ("fshl", Bi::Fshl), ("fshr", Bi::Fshr), ("trap", Bi::Trap), ("debugtrap", Bi::Trap), ("ubsantrap", Bi::Trap), ("umax", Bi::Umax), ("umin", Bi::Umin), ("smax", Bi::Smax), ("smin", Bi::Smin),
            ("umul.with", Bi::UmulO), ("smul.with", Bi::SmulO), ("uadd.with", Bi::UaddO), ("usub.with", Bi::UsubO), ("sadd.with", Bi::SaddO), ("ssub.with", Bi::SsubO),
            ("ctpop", Bi::Ctpop), ("cttz", Bi::Cttz), ("ctlz", Bi::Ctlz), ("threadlocal", Bi::Tls), ("is.constant", Bi::IsConstant), ("ucmp", Bi::Ucmp), ("scmp", Bi::Scmp),
            ("usub.sat", Bi::UsubSat), ("uadd.sat", Bi::UaddSat), ("x86.sse2.pause", Bi::Pause), ("powi", Bi::Powi), ("fptoui.sat", Bi::FptouiSat), ("fptosi.sat", Bi::FptosiSat),
            ("bswap", Bi::Bswap), ("bitreverse", Bi::Bitreverse), ("abs", Bi::Abs), ("expect", Bi::Expect), ("fabs", Bi::Fabs), ("floor", Bi::Ffloor), ("ceil", Bi::Fceil), ("round", Bi::Fround), ("trunc", Bi::Ftrunc), ("sqrt", Bi::Fsqrt), ("copysign", Bi::Fcopysign), ("fmuladd", Bi::Fma), ("fma", Bi::Fma),
            ("objectsize", Bi::Objectsize), ("prefetch", Bi::Nop), ("dbg", Bi::Nop), ("ptrmask", Bi::Unsup), ("va_", Bi::Nop), ("stacksave", Bi::Zero), ("stackrestore", Bi::Nop), ("invariant", Bi::Nop), ("sideeffect", Bi::Nop),
        ];
        for (p, b) in t { if s.starts_with(p) { return Fk::B(*b); } }
        return Fk::B(Bi::Unsup);
    }
    for p in PANICS { if n.contains(p) && !n.starts_with("vs_") && !n.contains("panic_count") && !n.contains("panicking9panicking") && !n.contains("11panic_count") { return Fk::Panic; } }
    if body { return Fk::Body; }
    let b = match n {
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::Memalign,
        "bcmp" | "memcmp" => Bi::Bcmp, "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "strlen" => Bi::Strlen,
        "write" | "writev" => Bi::Write, "abort" | "_exit" | "exit" => Bi::Abort, "__errno_location" => Bi::Errno, "getenv" => Bi::Getenv,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" => Bi::Zero,
        "close" => Bi::Close, "read" => Bi::Read, "open" | "open64" | "openat" | "openat64" => Bi::Open, "fstat" | "fstat64" | "stat" | "stat64" => Bi::Fstat, "syscall" => Bi::Syscall, "getrandom" => Bi::Getrandom,
        "lseek" | "lseek64" => Bi::Lseek,
        "statx" | "ioctl" | "fcntl" | "posix_fadvise" => Bi::NoSys,
        "vs_try" => Bi::VsTry, "vs_threads" => Bi::VsThreads, "vs_spawn" => Bi::VsSpawn, "vs_join" => Bi::VsJoin, "sched_yield" | "nanosleep" | "clock_nanosleep" | "usleep" => Bi::Pause, "__cxa_thread_atexit_impl" => Bi::Nop, "vs_file" => Bi::VsFile, "vs_fault" => Bi::VsFault, "vs_stderr" => Bi::VsStderr,
        "pthread_self" | "gettid" => Bi::Futex,
        "vs_byte" => Bi::VsByte, "vs_byte_in" => Bi::VsByteIn, "vs_choose" => Bi::VsChoose, "vs_conc" => Bi::VsConc, "vs_assume" => Bi::VsAssume, "vs_assert" => Bi::VsAssert,
        "vs_reject" => Bi::VsReject, "vs_fail" => Bi::VsFail, "vs_observe" => Bi::VsObs, "vs_observe_bytes" => Bi::VsObsBytes, "vs_cover" => Bi::VsCover, "vs_nsym" => Bi::VsNsym,
        _ => Bi::Unsup,
    };
    Fk::B(b)
}

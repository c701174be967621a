//! The symbolic interface. In the symbolic build the functions are interpreted by the engine,
//! in the native build they read their values from a recorded input.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn vs_byte() -> u8;
    fn vs_byte_in(set: *const u64) -> u8;
    fn vs_choose(n: u32) -> u32;
    fn vs_conc(v: u64) -> u64;
    fn vs_assume(b: bool);
    fn vs_assert(b: bool, code: u32);
    fn vs_fail(code: u32) -> !;
    fn vs_reject() -> !;
    fn vs_observe(v: u64);
    fn vs_observe_bytes(p: *const u8, n: usize);
    fn vs_cover(id: u32);
    fn vs_try(f: unsafe extern "C-unwind" fn(*mut u8) -> u32, p: *mut u8) -> u32;
    fn vs_file(path: *const u8, n: usize, data: *const u8, m: usize, kind: u32);
    fn vs_fault(at: u32, kind: u32);
    fn vs_stderr(p: *mut u8, cap: usize) -> usize;
    fn vs_threads(n: u32);
    fn vs_spawn(f: unsafe extern "C-unwind" fn(*mut u8), p: *mut u8);
    fn vs_join();
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    pub struct Rec { pub input: Vec<u8>, pub pos: usize, pub digest: u64, pub covers: u128 }
    thread_local!(pub static REC: RefCell<Rec> = RefCell::new(Rec { input: vec![], pos: 0, digest: 0, covers: 0 }));
    pub struct Stop(pub &'static str, pub u32);
    pub fn take() -> u8 { REC.with(|r| { let mut r = r.borrow_mut(); let p = r.pos; r.pos += 1; r.input.get(p).copied().unwrap_or(0) }) }
    pub fn obs(v: u64) { REC.with(|r| { let mut r = r.borrow_mut(); for b in v.to_le_bytes() { r.digest = (r.digest ^ b as u64).wrapping_mul(0x100000001b3); } }) }
    pub unsafe fn vs_byte() -> u8 { take() }
    pub unsafe fn vs_byte_in(_: *const u64) -> u8 { take() }
    pub unsafe fn vs_choose(_: u32) -> u32 { take() as u32 }
    pub unsafe fn vs_conc(v: u64) -> u64 { v }
    pub unsafe fn vs_assume(b: bool) { if !b { std::panic::panic_any(Stop("reject", 0)) } }
    pub unsafe fn vs_assert(b: bool, code: u32) { if !b { std::panic::panic_any(Stop("assert", code)) } }
    pub unsafe fn vs_fail(code: u32) -> ! { std::panic::panic_any(Stop("assert", code)) }
    pub unsafe fn vs_reject() -> ! { std::panic::panic_any(Stop("reject", 0)) }
    pub unsafe fn vs_observe(v: u64) { obs(v) }
    pub unsafe fn vs_observe_bytes(p: *const u8, n: usize) { obs(n as u64); for i in 0..n { obs(*p.add(i) as u64) } }
    pub unsafe fn vs_try(f: unsafe extern "C-unwind" fn(*mut u8) -> u32, p: *mut u8) -> u32 { super::super::os::attempt(f, p) }
    pub unsafe fn vs_file(path: *const u8, n: usize, data: *const u8, m: usize, kind: u32) { super::super::os::file(std::slice::from_raw_parts(path, n), std::slice::from_raw_parts(data, m), kind) }
    pub unsafe fn vs_fault(at: u32, kind: u32) { super::super::os::fault(at, kind) }
    pub unsafe fn vs_stderr(p: *mut u8, cap: usize) -> usize { super::super::os::stderr(p, cap) }
    pub unsafe fn vs_threads(n: u32) { for _ in 0..n { take(); } super::super::os::threads() }
    pub unsafe fn vs_spawn(f: unsafe extern "C-unwind" fn(*mut u8), p: *mut u8) { super::super::os::spawn(f, p) }
    pub unsafe fn vs_join() { super::super::os::join() }
    pub unsafe fn vs_cover(id: u32) { REC.with(|r| r.borrow_mut().covers |= 1 << (id & 127)) }
}
#[cfg(feature = "native")]
use native::*;

/// A set of byte values.
#[derive(Clone, Copy)]
pub struct Set(pub [u64; 4]);
impl Set {
    pub fn of(s: &[u8]) -> Set { let mut x = [0; 4]; for b in s { x[*b as usize / 64] |= 1 << (*b % 64); } Set(x) }
    pub fn range(a: u8, b: u8) -> Set { let mut x = [0; 4]; let mut i = a as usize; while i <= b as usize { x[i / 64] |= 1 << (i % 64); i += 1; } Set(x) }
    pub fn or(self, o: Set) -> Set { Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) }
}
/// Any byte.
pub fn byte() -> u8 { unsafe { vs_byte() } }
/// Any byte of a set (stays symbolic).
pub fn byte_in(s: &Set) -> u8 { unsafe { vs_byte_in(s.0.as_ptr()) } }
pub fn one_of(s: &[u8]) -> u8 { byte_in(&Set::of(s)) }
/// Any number below `n` (stays symbolic).
pub fn choose(n: u32) -> u32 { unsafe { vs_choose(n) } }
/// Any number below `n`; explores each value separately.
pub fn pick(n: u32) -> u32 { if n <= 1 { return 0; } unsafe { vs_conc(vs_choose(n) as u64) as u32 } }
/// Any bool (stays symbolic).
pub fn flag() -> bool { choose(2) == 1 }
pub fn conc(v: u64) -> u64 { unsafe { vs_conc(v) } }
pub fn assume(b: bool) { unsafe { vs_assume(b) } }
pub fn check(b: bool, code: u32) { unsafe { vs_assert(b, code) } }
pub fn fail(code: u32) -> ! { unsafe { vs_fail(code) } }
pub fn reject() -> ! { unsafe { vs_reject() } }
pub fn observe(v: u64) { unsafe { vs_observe(v) } }
pub fn observe_bytes(b: &[u8]) { unsafe { vs_observe_bytes(b.as_ptr(), b.len()) } }
/// Marks a behaviour as reached (vacuity witness).
pub fn cover(id: u32) { unsafe { vs_cover(id) } }

/// Runs the closure; `None` if it panics.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    struct Slot<F, T> { f: Option<F>, r: Option<T> }
    unsafe extern "C-unwind" fn run<T, F: FnOnce() -> T>(p: *mut u8) -> u32 {
        let s = &mut *(p as *mut Slot<F, T>);
        s.r = Some((s.f.take().unwrap())());
        0
    }
    let mut s = Slot { f: Some(f), r: None };
    let k = unsafe { vs_try(run::<T, F>, &mut s as *mut Slot<F, T> as *mut u8) };
    if k == 0 { s.r } else { None }
}
#[derive(Clone, Copy)]
pub enum FileKind { Plain = 0, Directory = 2 }
/// Puts a file where the code under test can open it (natively in a scratch directory) and returns its path.
pub fn file(name: &str, data: &[u8], kind: FileKind) -> String {
    let p = path(name);
    unsafe { vs_file(p.as_ptr(), p.len(), data.as_ptr(), data.len(), kind as u32) }
    p
}
/// The path of a file, present or not.
#[cfg(not(feature = "native"))]
pub fn path(name: &str) -> String { let mut s = String::from("/vs/"); s.push_str(name); s }
#[cfg(feature = "native")]
pub fn path(name: &str) -> String { crate::os::path(name) }
/// The read with this number (from 0) is interrupted (1), fails (2); all reads return one byte (3).
pub fn fault(at: u32, kind: u32) { unsafe { vs_fault(at, kind) } }
/// What was written to standard error.
pub fn stderr() -> Vec<u8> {
    let n = unsafe { vs_stderr(std::ptr::null_mut(), 0) };
    let mut v = vec![0; n];
    unsafe { vs_stderr(v.as_mut_ptr(), n); }
    v
}

/// Runs the closures as threads of their own, in every order with at most `n` preemptions. Nothing may be read or
/// checked inside; all inputs must have been read before.
pub fn together(n: u32, fs: Vec<Box<dyn FnOnce() + Send + '_>>) {
    unsafe extern "C-unwind" fn run(p: *mut u8) { let f = Box::from_raw(p as *mut Box<dyn FnOnce() + Send>); (*f)() }
    unsafe {
        vs_threads(n);
        for f in fs {
            // joined below
            let f: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(f);
            vs_spawn(run, Box::into_raw(Box::new(f)) as *mut u8);
        }
        vs_join();
    }
}

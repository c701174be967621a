//! Native replay of what the engine models of the operating system: real files in a scratch directory,
//! with `read` and `write` interposed to put in the planned faults and to keep what goes to standard error.
use crate::sx::native::Stop;
use std::os::raw::{c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static FAULT: AtomicU32 = AtomicU32::new(0);
static AT: AtomicU32 = AtomicU32::new(0);
static READS: AtomicU32 = AtomicU32::new(0);
static ERR: Mutex<Vec<u8>> = Mutex::new(vec![]);
static DIR: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut i32;
}
#[repr(C)]
pub struct IoVec { p: *const u8, n: usize }

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if ON.load(SeqCst) && fd > 2 {
        let k = READS.fetch_add(1, SeqCst);
        let f = FAULT.load(SeqCst);
        if f == 3 || (f != 0 && k == AT.load(SeqCst)) {
            match f { 1 => { *__errno_location() = 4; return -1; } 2 => { *__errno_location() = 5; return -1; } _ => n = n.min(1) }
        }
    }
    syscall(0, fd as c_long, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const c_void, n: usize) -> isize {
    if ON.load(SeqCst) && fd == 2 { ERR.lock().unwrap().extend_from_slice(std::slice::from_raw_parts(p as *const u8, n)); return n as isize; }
    syscall(1, fd as c_long, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, p: *const IoVec, n: i32) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let v = &*p.add(i);
        let r = write(fd, v.p as *const c_void, v.n);
        if r < 0 { return if t > 0 { t } else { r }; }
        t += r;
        if (r as usize) < v.n { break; }
    }
    t
}

pub fn begin() { FAULT.store(0, SeqCst); READS.store(0, SeqCst); ERR.lock().unwrap().clear(); }
pub fn end() {
    ON.store(false, SeqCst);
    if let Some(d) = DIR.lock().unwrap().take() { let _ = std::fs::remove_dir_all(d); }
}
fn dir() -> std::path::PathBuf {
    let mut d = DIR.lock().unwrap();
    if d.is_none() {
        let mut k = 0u64;
        loop {
            let p = std::env::temp_dir().join(format!("vs-replay-{}-{}", std::process::id(), k));
            if std::fs::create_dir(&p).is_ok() { *d = Some(p); break; }
            k += 1;
        }
    }
    d.clone().unwrap()
}
pub fn path(name: &str) -> String { dir().join(name).to_str().unwrap().to_string() }
pub fn file(path: &[u8], data: &[u8], kind: u32) {
    let p = std::str::from_utf8(path).unwrap();
    if kind == 2 { std::fs::create_dir(p).unwrap(); } else { std::fs::write(p, data).unwrap(); }
}
pub fn fault(at: u32, kind: u32) { AT.store(at, SeqCst); FAULT.store(kind, SeqCst); READS.store(0, SeqCst); }
pub fn attempt(f: unsafe extern "C-unwind" fn(*mut u8) -> u32, p: *mut u8) -> u32 {
    ON.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { call(f, p) }));
    ON.store(false, SeqCst);
    match r { Ok(k) => k, Err(e) => if e.is::<Stop>() { std::panic::resume_unwind(e) } else { 1 } }
}
unsafe fn call(f: unsafe extern "C-unwind" fn(*mut u8) -> u32, p: *mut u8) -> u32 { f(p) }
pub fn stderr(p: *mut u8, cap: usize) -> usize {
    let e = ERR.lock().unwrap();
    if p.is_null() { return e.len(); }
    let n = e.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(e.as_ptr(), p, n); }
    n
}

static WAITING: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
pub fn threads() { WAITING.lock().unwrap().clear(); }
pub fn spawn(f: unsafe extern "C-unwind" fn(*mut u8), p: *mut u8) { WAITING.lock().unwrap().push((f as usize, p as usize)); }
/// All start at once.
pub fn join() {
    let w = std::mem::take(&mut *WAITING.lock().unwrap());
    let n = w.len() as u32;
    let here = std::sync::Arc::new(AtomicU32::new(0));
    let hs: Vec<_> = w.into_iter().map(|(f, p)| {
        let here = here.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || unsafe {
            let f: unsafe extern "C-unwind" fn(*mut u8) = std::mem::transmute(f);
            here.fetch_add(1, SeqCst);
            while here.load(SeqCst) < n { std::hint::spin_loop(); }
            f(p as *mut u8)
        }).unwrap()
    }).collect();
    let mut bad = None;
    for h in hs { if let Err(e) = h.join() { bad = Some(e); } }
    if let Some(e) = bad { std::panic::resume_unwind(e); }
}

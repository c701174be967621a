//! vsym: symbolic execution of a closed LLVM IR module with z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::BTreeSet;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// Totals of a kind of path: how many, their share of the input space, paths without a known share, behaviours reached.
#[derive(Default)]
struct Tally { n: u64, volume: f64, unmeasured: u64, covers: u128, max_steps: u64, steps: u64 }
struct Out { f: std::io::BufWriter<std::fs::File>, paths: u64, tally: std::collections::BTreeMap<&'static str, Tally>, sample: Vec<String>, seen: u64, rng: u64, bad: usize }
const SAMPLE: usize = 80;
impl Out {
    fn new(p: String, seed: u64) -> Out { Out { f: std::io::BufWriter::new(std::fs::File::create(p).unwrap()), paths: 0, tally: Default::default(), sample: vec![], seen: 0, rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, bad: 0 } }
    fn drain(&mut self, ex: &mut Ex) {
        for r in ex.results.drain(..) {
            self.paths += 1;
            let k = r.kind.name();
            let t = self.tally.entry(k).or_default();
            t.n += 1;
            t.steps += r.steps as u64;
            t.max_steps = t.max_steps.max(r.steps as u64);
            t.covers |= r.covers as u128;
            if r.unary { t.volume += r.volume.exp2(); } else { t.unmeasured += 1; }
            let ordinary = k == "done" || k == "reject";
            if k == "reject" { continue; }
            let line = |r: &PathRes| { let locs: Vec<String> = r.locs.iter().map(|(f, l, n)| format!("{}:{}:{}", f, l, n)).collect(); format!("P\t{}\t{}\t{}\t{:016x}\t{:x}\t{:.9}\t{}\t{}\t{}", r.kind.name(), r.code.replace('\t', " ").replace('\n', " "), hex(&r.model), r.digest, r.covers, r.volume, r.unary as u8, r.steps, locs.join("|")) };
            if ordinary {
                // a sample of the ordinary paths
                self.seen += 1;
                if self.sample.len() < SAMPLE { self.sample.push(line(&r)); } else {
                    self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                    let j = (self.rng % self.seen) as usize;
                    if j < SAMPLE { self.sample[j] = line(&r); }
                }
            } else {
                self.bad += 1;
                if self.bad <= 2000 { writeln!(self.f, "{}", line(&r)).unwrap(); }
            }
        }
    }
    fn stats(&mut self, ex: &Ex, complete: bool, left: usize, secs: f64) {
        for l in self.sample.drain(..) { writeln!(self.f, "{}", l).unwrap(); }
        for (k, t) in &self.tally { writeln!(self.f, "K\t{}\t{}\t{:.12}\t{}\t{:x}\t{}\t{}", k, t.n, t.volume, t.unmeasured, t.covers, t.steps, t.max_steps).unwrap(); }
        let s = &ex.z3.st;
        writeln!(self.f, "S\t{{\"complete\":{},\"left\":{},\"paths\":{},\"forks\":{},\"instructions\":{},\"symbolic_branches\":{},\"concretizations\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_seconds\":{:.4},\"z3_max_ms\":{:.2},\"cache_hits\":{},\"domain_decisions\":{},\"assert_queries\":{},\"assert_unsat\":{},\"cross_checks\":{},\"cross_check_failures\":{},\"solver_unknown\":{},\"expr_nodes\":{},\"seconds\":{:.3}}}",
            complete, left, self.paths, ex.forks, ex.insts, ex.branch_sym, ex.concretizations, s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_ns as f64 / 1e9, s.z3_max_ns as f64 / 1e6, s.cache_hits, s.domain_decisions, s.assert_queries, s.assert_unsat, s.cross_checks, ex.audit_fail, ex.z3.unknown, ex.cx.nodes.len(), secs).unwrap();
        // executed functions and source lines
        let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        for (id, b) in ex.blocks.iter().enumerate() {
            if b.is_empty() { continue; }
            funcs.insert(ex.m.fn_display(id as u32));
            let f = ex.m.func(id as u32);
            let mut seen = BTreeSet::new();
            for (bi, on) in b.iter().enumerate() {
                if !*on { continue; }
                for i in &f.blocks[bi] {
                    if i.dbg != 0 && seen.insert(i.dbg) { for (file, line, func) in ex.m.locs(i.dbg) { if line > 0 { lines.insert((file, line)); } funcs.insert(func); } }
                }
            }
        }
        for f in funcs { writeln!(self.f, "F\t{}", f).unwrap(); }
        for (f, l) in lines { if f.contains("/repo/") || f.contains("read_token") || f.contains("range-") { writeln!(self.f, "L\t{}:{}", f, l).unwrap(); } }
        self.f.flush().unwrap();
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let irp = get("--ir", "");
    let entry = get("--entry", "");
    let out = get("--out", "/tmp/vsym.out");
    let jobs: usize = get("--jobs", "8").parse().unwrap();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let stop_bad: usize = get("--stop-bad", "400").parse().unwrap();
    let limit: f64 = get("--time", "600").parse().unwrap();
    let cfg = Cfg {
        max_steps: get("--max-steps", "100000000").parse().unwrap(),
        max_depth: get("--max-depth", "3000").parse().unwrap(),
        max_alloc: get("--max-alloc", "67108864").parse().unwrap(),
        audit: get("--audit", "97").parse().unwrap(),
    };
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&irp)));
    if args.iter().any(|a| a == "--list") { for d in &m.decls { if d.body.is_some() && d.name.starts_with("h_") { println!("{}", d.name); } } return; }
    let deadline = t0 + Duration::from_secs_f64(limit);
    let mut ex = Ex::new(m, cfg);
    let st = ex.start(&entry);
    ex.work.push(st);
    let mut o = Out::new(format!("{}.0", out), seed);
    // breadth first until there is enough work to share
    while !ex.work.is_empty() && (jobs <= 1 || ex.work.len() < 48 * jobs) && Instant::now() < deadline && o.bad < stop_bad {
        let s = if jobs <= 1 { ex.work.pop().unwrap() } else { ex.work.remove(0) };
        ex.run(s);
        o.drain(&mut ex);
        if jobs > 1 && ex.results.is_empty() && o.paths > 4000 { break; }
    }
    let work = std::mem::take(&mut ex.work);
    let n = work.len();
    if n == 0 || Instant::now() >= deadline || o.bad >= stop_bad {
        o.stats(&ex, n == 0, n, t0.elapsed().as_secs_f64());
        return;
    }
    o.stats(&ex, true, 0, t0.elapsed().as_secs_f64());
    // shared counter
    let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
    let mut pids = vec![];
    for j in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            let tj = Instant::now();
            let mut o = Out::new(format!("{}.{}", out, j + 1), seed + j as u64 + 1);
            ex.forks = 0; ex.insts = 0; ex.branch_sym = 0; ex.concretizations = 0; ex.audit_fail = 0; ex.z3.st = Default::default(); ex.z3.unknown = 0;
            let mut left = 0;
            let mut work: Vec<Option<State>> = work.into_iter().map(Some).collect();
            'all: loop {
                let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                if i >= n { break; }
                ex.work.push(work[i].take().unwrap());
                while let Some(s) = ex.work.pop() {
                    if Instant::now() >= deadline || o.bad >= stop_bad { left += ex.work.len() + 1; ex.work.clear(); if i + 1 < n { left += 1; } break 'all; }
                    ex.run(s);
                    o.drain(&mut ex);
                }
            }
            o.stats(&ex, left == 0, left, tj.elapsed().as_secs_f64());
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { bad = true; eprintln!("worker {} ended with status {}", p, s); } }
    if bad { std::process::exit(4); }
}

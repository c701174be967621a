//! Harnesses over the real library code, run symbolically by the engine and natively for replay.
mod gen;
mod h_core;
mod h_term;
mod h_opt;
mod h_meta;
mod h_more;
mod h_docs;
mod h_json;
mod h_report;
mod h_conv;
mod h_find;
mod h_files;
mod h_threads;
#[cfg(feature = "native")]
mod os;
mod prelude;
mod refp;
mod sx;

pub type H = fn();
include!("table.rs");

#[cfg(not(feature = "native"))]
fn main() {
    // keeps every entry point alive through link time optimization
    let k = std::env::args().count();
    if k < TABLE.len() { (TABLE[k].1)(); }
}

/// Replays recorded inputs: lines "name<TAB>hex"; prints "kind<TAB>code<TAB>digest<TAB>covers".
#[cfg(feature = "native")]
fn main() {
    use std::io::{BufRead, Write};
    use sx::native::{Rec, Stop, REC};
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { return };
        *LAST.lock().unwrap() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let out = std::io::stdout();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let mut p = line.split('\t');
            let (name, hex) = (p.next().unwrap(), p.next().unwrap_or(""));
            let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            let f = TABLE.iter().find(|x| x.0 == name).expect("harness").1;
            REC.with(|r| *r.borrow_mut() = Rec { input, pos: 0, digest: 0xcbf29ce484222325, covers: 0 });
            os::begin();
            let r = std::panic::catch_unwind(f);
            os::end();
            let (k, c) = match r {
                Ok(()) => ("done".to_string(), String::new()),
                Err(e) => match e.downcast_ref::<Stop>() {
                    Some(s) => (s.0.to_string(), s.1.to_string()),
                    None => ("panic".to_string(), LAST.lock().unwrap().replace(['\n', '\t'], " ")),
                },
            };
            let (d, cv, used) = REC.with(|r| { let r = r.borrow(); (r.digest, r.covers, r.pos) });
            let mut o = out.lock();
            writeln!(o, "{}\t{}\t{:016x}\t{:x}\t{}", k, c, d, cv, used).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    worker.join().unwrap();
}
#[cfg(feature = "native")]
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

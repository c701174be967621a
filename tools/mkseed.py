#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a specification, after confirming it in a scratch copy.
usage: mkseed.py SPEC.py [id ...]; SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new[, nth])], main, needs, breaks)]"""
import sys, os, subprocess, json, runpy, shutil, tempfile
SCR = os.environ.get("SCRATCH", "/tmp/sw/repo")
OUT = os.environ.get("SEEDDIR", "/verif/seeded")
DEMO = '''#!/bin/sh
# Runs main.rs against the crate in the current directory: 0 when it behaves, otherwise not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'find "$work" -delete' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" || exit 99
cat > "$work/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
piston_meta = { path = "$repo" }
%srange = "1.0.0"
read_token = "1.0.0"
[profile.dev]
debug = 0
E
cd "$work" && REPO="$repo" CARGO_TARGET_DIR="$work/target" timeout 250 cargo run -q --offline
'''
HEAD = '''#![allow(unused)]
use piston_meta::*;
use piston_meta::meta_rules::*;
use std::sync::Arc;
type Data = Vec<Range<MetaData>>;
fn s(x: &str) -> Arc<String> { Arc::new(x.into()) }
/// Parses text with rules in the meta language.
fn run(rules: &str, text: &str) -> Result<Data, Range<ParseError>> {
    let rules = match syntax_errstr(rules) { Ok(x) => x, Err(e) => panic!("{}", e) };
    let mut d = vec![];
    parse(&rules, text, &mut d).map(|_| d)
}
fn vals(d: &Data) -> Vec<MetaData> { d.iter().map(|x| x.data.clone()).collect() }
fn b(n: &str, v: bool) -> MetaData { MetaData::Bool(s(n), v) }
fn st(n: &str, v: &str) -> MetaData { MetaData::String(s(n), s(v)) }
fn f(n: &str, v: f64) -> MetaData { MetaData::F64(s(n), v) }
fn sn(n: &str) -> MetaData { MetaData::StartNode(s(n)) }
fn en(n: &str) -> MetaData { MetaData::EndNode(s(n)) }
fn meta(v: &[MetaData]) -> Data { v.iter().enumerate().map(|(i, x)| Range::new(i, 1).wrap(x.clone())).collect() }
fn tag(t: &str) -> Rule { Rule::Tag(Tag { text: s(t), not: false, inverted: false, property: None, debug_id: 1 }) }
fn seq(args: Vec<Rule>) -> Rule { Rule::Sequence(Sequence { args, debug_id: 2 }) }
fn sel(args: Vec<Rule>) -> Rule { Rule::Select(Select { args, debug_id: 3 }) }
fn one(r: Rule) -> Syntax { let mut x = Syntax::new(); x.push(s("doc"), r); x }
'''
def sh(cmd, cwd, t=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')
def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]; want = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base.get('tests') or base
    for x in spec:
        if want and x['id'] not in want: continue
        if not want and os.path.exists(f"{OUT}/{x['id']}/meta.json"): continue
        sh("git checkout -q -- . ; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD", SCR)
        ok = True
        for e in x['edits']:
            fn, old, new = e[:3]; n = e[3] if len(e) > 3 else None
            p = f"{SCR}/{fn}"; t = open(p).read(); c = t.count(old)
            if c == 0 or (c > 1 and n is None): print(x['id'], "EDIT MATCHES", c, fn, repr(old[:50])); ok = False; break
            if n is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
            open(p, 'w').write(t)
        if not ok: continue
        _, diff = sh("git diff", SCR)
        d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        open(d+'/patch.diff', 'w').write(diff)
        open(d+'/main.rs', 'w').write(HEAD + x['main'])
        open(d+'/demo.sh', 'w').write(DEMO % ('piston_meta_search = { path = "$repo/src/search" }\n' if 'piston_meta_search' in x['main'] else ''))
        json.dump({"property": x['property'], "needs": x['needs'], "what_it_breaks": x['breaks']}, open(d+'/meta.json', 'w'), indent=1)
        rc, o = sh("for m in Cargo.toml src/search/Cargo.toml; do cargo test --offline --manifest-path $m --no-fail-fast -- --test-threads 8 || exit 1; done", SCR)
        import re
        fails = re.findall(r'^test (.*) \.\.\. FAILED', o, re.M)
        if rc: print(x['id'], "TESTS FAIL:", fails or o[-800:]); shutil.rmtree(d); continue
        r1, o1 = sh(f"sh {d}/demo.sh", "/repo")
        if r1: print(x['id'], "DEMO FAILS ON CLEAN:", o1[-700:]); shutil.rmtree(d); continue
        # the demo takes its crate from the working directory
        r2, o2 = sh(f"sh {d}/demo.sh", SCR)
        if not r2: print(x['id'], "DEMO PASSES PATCHED"); shutil.rmtree(d); continue
        if 'error[' in o2 or 'could not compile' in o2: print(x['id'], "DEMO DOES NOT COMPILE", o2[-500:]); continue
        dst = f"{OUT}/{x['id']}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
        print(x['id'], "ok", x['property'], o2.strip().splitlines()[-1][:100] if o2.strip() else '')
    sh("git checkout -q -- .", SCR)
main()

#!/usr/bin/env python3
"""Decides one property: builds the current tree to LLVM IR, runs the symbolic engine over the property's
harnesses, replays every counterexample (and a sample of ordinary paths) natively, writes the evidence.

usage: check.py ID [--tier quick|thorough] [--only HARNESS]      check.py --setup
"""
import sys, os, json, subprocess, time, glob, random, re, shutil, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
VSYM = HERE + "/engine/target/release/vsym"
BAD = ("assert", "panic", "steps", "depth", "memory", "alloc", "unreachable")

def log(*a): print(*a, file=sys.stderr, flush=True)

def cargo(args, target, cwd, flags=None):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    if flags: env["RUSTFLAGS"] = flags
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def touch(p):
    try: os.utime(p, None)
    except OSError: pass

def build(engine_only=False):
    """Engine, IR of the current /repo, native replay binaries; all three builds in parallel."""
    h = HERE + "/harness"
    subprocess.run(["sh", h + "/gentable.sh"], check=True)
    # cargo decides by time stamps; a tree that was swapped under an old time stamp must still be rebuilt
    stamp = tree_stamp()
    sf = h + "/target/stamp"
    old = open(sf).read() if os.path.exists(sf) else ""
    if old != stamp:
        for t in ("sym", "nat"):
            for p in glob.glob(h + "/target/" + t + "/*/.fingerprint/*"):
                n = os.path.basename(p)
                if n.startswith(("piston_meta", "harness")): shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(h + "/target/sym/release/deps/harness-*.ll"): os.unlink(p)
    jobs = {
        "engine": lambda: cargo(["build", "--release", "--offline"], HERE + "/engine/target", HERE + "/engine"),
        "ir": lambda: cargo(["rustc", "--release", "--offline", "--bin", "harness", "--", "--emit=llvm-ir"], h + "/target/sym", h,
                            "-C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all"),
        "replay": lambda: cargo(["build", "--offline", "--features", "native", "--profile", "replay"], h + "/target/nat", h),
    }
    with ThreadPoolExecutor(4) as ex:
        res = {k: ex.submit(f) for k, f in jobs.items()}
        for k, f in res.items():
            rc, out = f.result()
            if rc != 0:
                log(out[-6000:]); log("ERROR: build of %s failed" % k); sys.exit(3)
    ll = sorted(glob.glob(h + "/target/sym/release/deps/harness-*.ll"), key=os.path.getmtime)
    if not ll: log("ERROR: no IR produced"); sys.exit(3)
    os.makedirs(h + "/target", exist_ok=True)
    open(sf, "w").write(stamp)
    return ll[-1], h + "/target/nat/replay/harness"

def tree_stamp():
    d = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/assets", HERE + "/harness/src"):
        for p, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(p, f)
                d.update(fp.encode()); d.update(open(fp, "rb").read())
    for f in (REPO + "/Cargo.toml", HERE + "/harness/Cargo.toml"): d.update(open(f, "rb").read())
    return d.hexdigest()

def native_user():
    """The same harness built as users build it (no overflow checks), only needed to confirm violations."""
    h = HERE + "/harness"
    rc, out = cargo(["build", "--offline", "--features", "native", "--profile", "user"], h + "/target/nat", h)
    return h + "/target/nat/user/harness" if rc == 0 else None

def run_native(binary, items, timeout):
    """items: [(harness, hex)] -> list of (kind, code, digest, covers) for each; a crash or a hang ends the list."""
    inp = "".join("%s\t%s\n" % x for x in items)
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, preexec_fn=lim)
        out = [l.split("\t") for l in p.stdout.splitlines()]
        if len(out) < len(items): out.append(["crash", "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode, "", ""])
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        o = o.decode() if isinstance(o, bytes) else o
        out = [l.split("\t") for l in o.splitlines() if l.count("\t") >= 3]
        out.append(["hang", "no result after %g s" % timeout, "", ""])
    return out

def stress(binary, harness, hexs, seconds=12):
    """A schedule is not under the native binary's control: many fresh processes, all cores."""
    end = time.time() + seconds
    def one(_):
        while time.time() < end:
            r = confirm(binary, harness, hexs)
            if r[0] not in ("done", "reject"): return r
    with ThreadPoolExecutor(6) as ex: rs = [r for r in ex.map(one, range(6)) if r]
    return rs[0] if rs else None

def confirm(binary, harness, hexs):
    r = run_native(binary, [(harness, hexs)], 15)
    return r[0] if r else ["crash", "", "", ""]

class Run:
    def __init__(s, entry, opts): s.entry, s.opts = entry, opts

def symbolic(ll, entry, outp, opts):
    o = {"--jobs": 8, "--time": 100, "--max-steps": 20000000, "--max-depth": 2000, "--audit": 97}
    o.update(opts or {})
    cmd = [VSYM, "--ir", ll, "--entry", entry, "--out", outp, "--seed", os.environ.get("VERIF_SEED", "1") or "1"]
    for k, v in o.items(): cmd += [k, str(v)]
    t = time.time()
    try: r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=o["--time"] + 60)
    except subprocess.TimeoutExpired: return None, "engine timeout", o, time.time() - t
    return r.returncode, r.stderr[-3000:], o, time.time() - t

def main():
    if "--setup" in sys.argv: build(); return 0
    import checks
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    t0 = time.time()
    ll, nat = build()
    tb = time.time() - t0
    P = checks.PROPS[pid]
    known = [k for k in json.load(open(HERE + "/known_findings.json"))["findings"] if k["property"] == pid]
    work = tempfile.mkdtemp(prefix="vsym-")
    agg = {"paths": 0, "rejected": 0, "forks": 0, "instructions": 0, "symbolic_branches": 0, "concretizations": 0, "z3_queries": 0, "z3_sat": 0, "z3_unsat": 0, "z3_seconds": 0.0, "cache_hits": 0, "domain_decisions": 0, "assert_queries": 0, "assert_unsat": 0, "cross_checks": 0, "cross_check_failures": 0, "solver_unknown": 0}
    funcs, lines, per, samples = set(), set(), [], []
    validated, undecided, errors, skipped = 0, [], [], []
    # candidates: replay against the real code
    viol, kf, user = [], {}, [None]
    def settle(cands):
        for entry, sig, b in cands:
            ok = None
            for hexs, code, locs in b[:6]:
                r = confirm(nat, entry, hexs)
                if r[0] in ("done", "reject"):
                    if user[0] is None: user[0] = native_user() or ""
                    if user[0]: r = confirm(user[0], entry, hexs)
                if r[0] not in ("done", "reject"): ok = (hexs, code, locs, r); break
            if not ok and P.get("schedules"):
                # the engine ran the compiled code under this very schedule
                hexs, code, locs = b[0]
                ok = (hexs, code, locs, stress(nat, entry, hexs) or ["schedule", "only under the schedule given by the last bytes of the input: native threads did not take it in 12 s"])
            if not ok:
                undecided.append((entry, b[0][0], "unconfirmed " + " ".join(sig[:2]), b[0][2])); continue
            hexs, code, locs, r = ok
            k = next((k for k in known if k["harness"] == entry and k["kind"] == sig[0] and re.search(k["match"], "%s %s %s" % (code, r[1], locs))), None)
            if k: kf[k["what"]] = k
            else: viol.append((entry, sig, hexs, code, locs, r))
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (600 if tier == "quick" else 3000)
    try:
        for h in P[tier]:
            entry, opts, covers = h[0], h[1], h[2]
            if only and entry != only: continue
            if viol: skipped.append(entry); continue
            left = budget - (time.time() - t0)
            if left < 5: skipped.append(entry); continue
            opts = dict(opts or {})
            opts["--time"] = int(min(opts.get("--time", 150 if tier == "quick" else 600), left))
            outp = os.path.join(work, entry)
            rc, err, o, secs = symbolic(ll, entry, outp, opts)
            if rc is None or rc != 0:
                errors.append("%s: engine ended with %s %s" % (entry, rc, err)); continue
            st = {"complete": True, "left": 0}
            kinds, cov, done, meas, unmeas, bad = {}, 0, [], 0.0, 0, {}
            for f in sorted(glob.glob(outp + ".*")):
                for l in open(f, errors="replace"):
                    x = l.rstrip("\n").split("\t")
                    if x[0] == "K":
                        kinds[x[1]] = kinds.get(x[1], 0) + int(x[2]); meas += float(x[3]); unmeas += int(x[4])
                        if x[1] == "done": cov |= int(x[5], 16)
                    elif x[0] == "P":
                        k = x[1]
                        if k == "done": done.append((x[3], x[4], x[5]))
                        elif k in BAD:
                            sig = (k, x[2] if k in ("assert",) else "", "|".join(x[9].split("|")[:3]) if k not in ("assert", "steps", "depth") else "")
                            b = bad.setdefault(sig, [])
                            if len(b) < 40: b.append((x[3], x[2], x[9]))
                        elif k == "unsupported": undecided.append((entry, x[3], x[2], x[9]))
                    elif x[0] == "S":
                        d = json.loads(x[1])
                        st["complete"] &= d["complete"]; st["left"] += d["left"]
                        for k in agg:
                            if k in d: agg[k] += d[k]
                    elif x[0] == "F": funcs.add(x[1])
                    elif x[0] == "L": lines.add(x[1])
            for f in glob.glob(outp + ".*"): os.unlink(f)
            agg["rejected"] += kinds.get("reject", 0)
            missing = [c for c in covers if not cov >> c & 1]
            per.append({"harness": entry, "exhausted": st["complete"], "unfinished_states": st["left"], "paths": kinds, "seconds": round(secs, 2),
                        "measure_of_explored_inputs": round(meas, 9) if unmeas == 0 else None, "unmeasured_paths": unmeas,
                        "expected_behaviours_reached": len(covers) - len(missing), "expected_behaviours_missing": missing,
                        "limits": {k.strip("-"): v for k, v in o.items()}})
            settle([(entry, sig, b) for sig, b in bad.items()])
            # native agreement on a sample of ordinary paths
            pick = done if len(done) <= P.get("sample", 150) else rnd.sample(done, P.get("sample", 150))
            if pick:
                r = run_native(nat, [(entry, p[0]) for p in pick], 120)
                for p, q in zip(pick, r):
                    if q[0] == "done" and q[2] == p[1] and int(q[3], 16) == int(p[2], 16): validated += 1
                    else: errors.append("native run of %s on %s differs: %s, symbolic digest %s" % (entry, p[0], q, p[1]))
                samples.append({"harness": entry, "input": pick[0][0]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # undecided paths get a concrete run, which can still show a violation
    und_left = 0
    for entry, hexs, why, locs in undecided[:60]:
        if why.startswith("unconfirmed"): und_left += 1; continue
        r = confirm(nat, entry, hexs)
        if r[0] not in ("done", "reject") and not any(v[0] == entry for v in viol): viol.append((entry, ("unsupported", why, ""), hexs, why, locs, r))
        und_left += 1
    und_left += max(0, len(undecided) - 60)
    und_left = max(und_left, sum(p["paths"].get("unsupported", 0) for p in per))
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    out = []
    for i, (entry, sig, hexs, code, locs, r) in enumerate(viol[:10]):
        rp = "evidence/replay/%s-%d.json" % (pid, i)
        desc = checks.CODES.get(int(code), "") if sig[0] == "assert" and code.isdigit() else ""
        json.dump({"property": pid, "harness": entry, "kind": sig[0], "code": code, "meaning": desc, "input_hex": hexs, "native": r[:2], "where": locs.split("|")[:6],
                   "replay": "printf '%s\\t%s\\n' | /verif/harness/target/nat/replay/harness   (built by: python3 /verif/check.py --setup)" % (entry, hexs)}, open(HERE + "/" + rp, "w"), indent=1)
        out.append("VIOLATION property=%s replay=%s" % (pid, rp))
        log("%s: %s %s %s: native replay gives %s" % (entry, sig[0], code, desc, r[:2]))
    wall = time.time() - t0
    cov = {
        "states": agg["paths"], "transitions": agg["symbolic_branches"] + agg["concretizations"], "traces_validated_against_impl": validated,
        "samples": samples[:8] + [{"counterexample": v[2], "harness": v[0]} for v in viol[:3]],
        "states_are": "paths of the real code, each standing for all inputs that satisfy its path condition",
        "inputs_and_bounds": P["bounds"], "outside_the_bounds": P.get("outside", ""),
        "exhaustive": all(p["exhausted"] for p in per) and not errors and not skipped and und_left == 0,
        "harnesses": per, "harnesses_not_run": skipped, "queries": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in agg.items()},
        "functions_encoded": len(funcs), "functions_of_the_repository": sorted(f for f in funcs if "piston_meta" in f or "read_token" in f),
        "source_lines_executed": len(lines), "undecided_paths": und_left, "undecided_samples": [[u[0], u[1], u[2]] for u in undecided[:5]], "engine_errors": errors[:5], "known_findings_seen": sorted(kf), "build_seconds": round(tb, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2), "violations": len(viol),
          "assumptions": ["LLVM IR of the release profile with overflow checks (opt-level 1, fat LTO) stands for the compiled library", "the engine's IR semantics and z3 are trusted; sampled paths are re-run natively and must give the same observations", P.get("assumes", "")]}
    if not only: json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    for p in per: log("  %-28s %s exhausted=%s measure=%s missing=%s %.1fs" % (p["harness"], p["paths"], p["exhausted"], p["measure_of_explored_inputs"], p["expected_behaviours_missing"], p["seconds"]))
    for k in kf.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for o in out: print(o)
    log("%s %s: %d paths, %d z3 queries, %.1fs solver, %.1fs wall (build %.1f), %d native replays agree, %d undecided" % (pid, tier, agg["paths"], agg["z3_queries"], agg["z3_seconds"], wall, tb, validated, und_left))
    if viol: return 1
    if errors:
        for e in errors[:5]: log("ERROR:", e)
        return 2
    return 0

sys.exit(main())

#!/usr/bin/env python3
"""Driver: build the engine and the harness IR from the current /repo tree, run
every harness of one property through the symbolic executor, replay what it
finds natively, write the evidence file, print VIOLATION / KNOWN-FINDING lines.

usage: check.py C01 [--tier quick|thorough] [--only ENTRY] [--keep]
exit 0: held within the bounds; 1: violation; 3: no verdict (error of the check)
"""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
sys.path.insert(0, ROOT)
import harnesses

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): ENV.pop(k, None)
NCPU = min(8, os.cpu_count() or 1)

class Err(Exception): pass

def sh(cmd, env=None, cwd=None, timeout=None):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")

def build_engine():
    out = os.path.join(BUILD, "engine"); os.makedirs(out, exist_ok=True)
    rc, o = sh(["make", "-j4", "-s", "OUT=" + out], cwd=os.path.join(ROOT, "engine"))
    if rc: raise Err("engine build failed:\n" + o[-3000:])
    return os.path.join(out, "rsymex")

def llvm_dis():
    rc, o = sh(["rustc", "--print", "sysroot"])
    c = glob.glob(o.strip() + "/lib/rustlib/*/bin/llvm-dis")
    if not c: raise Err("llvm-dis not found in the Rust sysroot")
    return c[0]

HOOKS = " --cfg verif_hooks"
def crate_env(extra):
    env = dict(ENV); env["RUSTFLAGS"] = extra + HOOKS + " -A warnings"; return env

def build_ir(crate, feats, retry=False):
    """cargo build of the harness crate with saved LLVM bitcode -> one .ll file."""
    global HOOKS
    tgt = os.path.join(BUILD, "ir-" + crate)
    env = crate_env("-C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all")
    env["CARGO_TARGET_DIR"] = tgt
    for f in glob.glob(tgt + "/release/deps/*.rcgu.*"): os.unlink(f)
    for f in glob.glob(tgt + "/release/deps/lib%s*.so" % crate) + glob.glob(tgt + "/release/lib%s.*" % crate) : os.unlink(f)
    for d in glob.glob(tgt + "/release/.fingerprint/%s-*" % crate): shutil.rmtree(d)
    rc, o = sh(["cargo", "build", "--release", "--offline", "--locked", "--features", ",".join(feats)], env=env, cwd=os.path.join(ROOT, crate))
    if rc and HOOKS and "verif_hooks" in o and not retry: # the hook no longer fits the tree: run the harnesses that do not need it
        HOOKS = ""; print("note: verification hook does not compile against this tree; harnesses that need it are left out"); return build_ir(crate, feats, True)
    if rc: raise Err("harness crate does not build against the current tree:\n" + o[-6000:])
    bc = [f for f in glob.glob(tgt + "/release/deps/%s.%s.*-cgu.0.rcgu.bc" % (crate, crate)) if ".no-opt" not in f]
    if not bc and not retry: return build_ir(crate, feats, True)
    if len(bc) != 1: raise Err("expected one LTO bitcode file, found %s" % bc)
    ll = os.path.join(BUILD, "%s-%s.ll" % (crate, "-".join(feats)))
    rc, o = sh([llvm_dis(), bc[0], "-o", ll])
    if rc: raise Err("llvm-dis: " + o)
    return ll

def build_replay(crate, feats, entries, profile):
    crate = crate.replace("sx", "replay", 1); tgt = os.path.join(BUILD, crate); os.makedirs(BUILD, exist_ok=True)
    table = os.path.join(BUILD, "table-%s.rs" % "-".join(feats))
    txt = 'unsafe extern "C-unwind" {\n' + "".join("  pub fn %s();\n" % e for e in entries) + "}\n"
    txt += "pub static TABLE: &[(&str, fn())] = &[\n" + "".join('  ("%s", || unsafe { %s() }),\n' % (e, e) for e in entries) + "];\n"
    if not os.path.exists(table) or open(table).read() != txt: open(table, "w").write(txt)
    env = crate_env(""); env["CARGO_TARGET_DIR"] = tgt; env["REPLAY_TABLE"] = table
    rc, o = sh(["cargo", "build", "--offline", "--locked", "--features", ",".join(feats)] + (["--release"] if profile == "release" else []), env=env, cwd=os.path.join(ROOT, crate))
    if rc: raise Err("replay build failed:\n" + o[-4000:])
    return os.path.join(tgt, "release" if profile == "release" else "debug", crate)

def run_entry(engine, ll, e, outdir, tier, seed):
    d = os.path.join(outdir, e["entry"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    limit = e.get("limit", 500 if tier == "quick" else 3000)
    cmd = [engine, ll, "--entry", e["entry"], "--out", d, "--jobs", str(e.get("jobs", 1)), "--time-limit", str(limit), "--timeout-ms", str(e.get("timeout_ms", 60000))]
    if e.get("max_instr"): cmd += ["--max-instr", str(e["max_instr"])]
    if e.get("cross"): cmd += ["--cross", str(e["cross"])]
    cmd += e.get("args", [])
    t = time.time(); rc, o = sh(cmd, timeout=limit + 120)
    try: st = json.load(open(os.path.join(d, "stats.json")))
    except Exception: raise Err("%s: engine failed (rc %d): %s" % (e["entry"], rc, o[-2000:]))
    st["log"] = o[-2000:]; st["dir"] = d; st["wall"] = time.time() - t
    return st

def replay(prop, crate, feats, entries, entry, inp, kind):
    """-> (reproduced, description)"""
    res = []
    for prof in ("release", "dev"):
        b = build_replay(crate, feats, entries, prof)
        try: rc, o = sh(["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", b, entry, inp], timeout=120)
        except subprocess.TimeoutExpired: return True, "does not terminate within 120 s (%s build)" % prof
        last = [l for l in o.strip().splitlines() if l]
        txt = " | ".join(last[-3:])[:600]
        if rc != 0 and "REPLAY-MISMATCH" not in o and "ASSUME-FAIL" not in o and "no entry" not in o: return True, "%s build: %s (exit %d)" % (prof, txt, rc)
        res.append("%s: %s (exit %d)" % (prof, txt, rc))
        if not kind.startswith(("memory-error", "unreachable")): break
    return False, "; ".join(res)

def demangle(names):
    exe = shutil.which("llvm-cxxfilt-18") or shutil.which("llvm-cxxfilt")
    if not exe or not names: return names
    p = subprocess.run([exe], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode("utf8", "replace").splitlines()

def functions_of(ll, stats):
    """Source functions whose code was executed, including inlined ones, via !dbg."""
    ids = set(); names = set()
    for s in stats: ids.update(s.get("dbg", [])); names.update(s.get("functions", []))
    meta = {}
    want = re.compile(r"^!(\d+) = (?:distinct )?!DI(Location|Subprogram|LexicalBlock|LexicalBlockFile|File)\((.*)\)$")
    with open(ll, errors="replace") as f:
        for l in f:
            if l[0] != "!": continue
            m = want.match(l.rstrip())
            if m: meta[int(m.group(1))] = (m.group(2), m.group(3))
    out = set()
    def scope(i, depth=0):
        if i not in meta or depth > 50: return
        k, t = meta[i]
        if k == "Subprogram":
            ln = re.search(r'linkageName: "([^"]*)"', t) or re.search(r'name: "([^"]*)"', t)
            fi = re.search(r"file: !(\d+)", t); fn = ""
            if fi and int(fi.group(1)) in meta:
                x = re.search(r'filename: "([^"]*)"', meta[int(fi.group(1))][1]); fn = x.group(1) if x else ""
            li = re.search(r"line: (\d+)", t)
            out.add((ln.group(1) if ln else "?", fn, li.group(1) if li else "")); return
        m = re.search(r"scope: !(\d+)", t)
        if m: scope(int(m.group(1)), depth + 1)
    for i in ids:
        seen = 0
        while i in meta and seen < 60:
            k, t = meta[i]; scope(i)
            m = re.search(r"inlinedAt: !(\d+)", t); i = int(m.group(1)) if m else -1; seen += 1
    ours = sorted((n, f, l) for n, f, l in out if "/repo/" in f or f.startswith(("src/", "rawler/src", "embedftp/src", "bin/")))
    dm = demangle([x[0] for x in ours])
    res = sorted(set("%s (%s:%s)" % (re.sub(r"<impl [^>]*>::|\[[0-9a-f]+\]", "", d), os.path.relpath(f, "/repo") if f.startswith("/repo") else f, l) for d, (n, f, l) in zip(dm, ours)))
    return res, len(out)

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == prop: out.append(k)
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--noev", action="store_true"); ap.add_argument("--skip-build", action="store_true"); a = ap.parse_args()
    prop = a.prop; tier = a.tier if a.tier in ("quick", "thorough") else "quick"; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    P = harnesses.PROPS[prop]; crate = P.get("crate", "sx"); feats = [prop.lower()]
    ents = [dict(e) for e in P["entries"] if tier == "thorough" or not e.get("thorough_only")]
    if tier == "thorough":
        for e in ents: e.update(e.get("thorough", {}))
    else: ents = [e for e in ents if not e.get("skip_quick")]
    if a.only: ents = [e for e in ents if re.match(a.only, e["entry"])]
    allnames = [e["entry"] for e in P["entries"]]
    if a.skip_build: engine = os.path.join(BUILD, "engine", "rsymex"); ll = os.path.join(BUILD, "%s-%s.ll" % (crate, "-".join(feats)))
    else:
        with cf.ThreadPoolExecutor(2) as ex:
            fe = ex.submit(build_engine); fl = ex.submit(build_ir, crate, feats); engine = fe.result(); ll = fl.result()
    tb = time.time() - t0
    defined = set(re.findall(r"^define [^\n]*@(c\d\d_\w+)\(", open(ll, errors="replace").read(), re.M))
    missing = [e["entry"] for e in ents if e["entry"] not in defined]
    if missing and HOOKS: raise Err("entries not in the IR: %s" % missing)
    ents = [e for e in ents if e["entry"] in defined]; allnames = [n for n in allnames if n in defined]
    if not ents: raise Err("no harness left to run")
    outdir = os.path.join(BUILD, "out", prop); os.makedirs(outdir, exist_ok=True)
    stats = {}; stop = False
    heavy = [e for e in ents if e.get("jobs", 1) >= NCPU]; light = [e for e in ents if e.get("jobs", 1) < NCPU]
    def one(e):
        s = run_entry(engine, ll, e, outdir, tier, seed); stats[e["entry"]] = s
        if sys.stdout.isatty() or os.environ.get("VERIF_VERBOSE"): print("  %-28s %s paths=%d killed=%d queries=%d solver=%.1fs wall=%.1fs %s" % (e["entry"], s["verdict"], s["paths"], s["assume_killed"], s["queries"], s["solver_seconds"], s["wall"], s["message"]), flush=True)
    light.sort(key=lambda e: -e.get("cost", 1))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(one, e) for e in light]: f.result()
    for e in heavy: one(e)
    # verdicts
    errors, violations, findings = [], [], []
    known = known_findings(prop)
    for e in ents:
        s = stats[e["entry"]]
        if s["verdict"] == "violation":
            for txt in sorted(glob.glob(s["dir"] + "/viol*.txt"))[:4]:
                kind, where = (open(txt).read().split("\n") + ["", ""])[:2]; inp = txt[:-4] + ".in"
                rep, desc = replay(prop, crate, feats, allnames, e["entry"], inp, kind)
                if not rep: errors.append("%s: counterexample (%s) does not reproduce natively: %s" % (e["entry"], kind, desc)); continue
                dst = os.path.join(ROOT, "evidence", "replay-%s-%s.in" % (prop, e["entry"])); os.makedirs(os.path.dirname(dst), exist_ok=True); shutil.copy(inp, dst)
                kf = next((k for k in known if k["entry"] == e["entry"] and (not k.get("kind") or k["kind"] in kind)), None)
                rec = {"entry": e["entry"], "kind": kind, "where": where, "replay": dst, "native": desc, "source": P.get("source", "")}
                if kf: findings.append(rec)
                else: violations.append(rec)
                break
        elif s["verdict"] == "inconclusive": errors.append("%s: inconclusive: %s %s" % (e["entry"], s["message"], s["log"][-300:]))
        else:
            if not s["assertions"] and not e.get("no_assert"): errors.append("%s: vacuous, no assertion evaluated" % e["entry"])
            for r in e.get("reach", [1]):
                if not s["reach"].get(str(r)): errors.append("%s: vacuous, reachability witness %d not hit" % (e["entry"], r))
    # encoding validation: the same random inputs through the native build and the interpreter
    val = {"runs": 0, "agree": 0}
    if (tier == "thorough" or os.environ.get("VERIF_VALIDATE")) and not violations:
        n = int(os.environ.get("VERIF_VALIDATE", "6")); b = build_replay(crate, feats, allnames, "release"); todo = [(e, k) for e in ents if not e.get("no_validate") for k in range(n)]
        def v1(x):
            e, k = x; f = os.path.join(outdir, "val-%s-%d.in" % (e["entry"], k))
            try: rc, o = sh([b, e["entry"], "--gen", str(seed * 1000 + k), f], timeout=300)
            except subprocess.TimeoutExpired: return None
            if "OK NOTE" not in o: return None
            rc2, o2 = sh([engine, ll, "--entry", e["entry"], "--out", os.path.join(outdir, e["entry"]) + "-v%d" % k, "--concrete", f] + e.get("args", []), timeout=300) if os.makedirs(os.path.join(outdir, e["entry"]) + "-v%d" % k, exist_ok=True) is None else (0, "")
            h1 = re.search(r"NOTE ([0-9a-f]{16})", o).group(1); m2 = re.search(r"NOTE ([0-9a-f]{16})", o2)
            return (h1 == (m2.group(1) if m2 else None), e["entry"], k, o2[-300:])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(v1, todo):
                if r is None: continue
                val["runs"] += 1
                if r[0]: val["agree"] += 1
                else: errors.append("encoding disagrees with the native run: %s seed %d: %s" % r[1:])
    fns, nall = functions_of(ll, list(stats.values()))
    tot = lambda k: sum(s.get(k, 0) for s in stats.values())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 1), "violations": len(violations),
      "assumptions": P.get("assumptions", []) + harnesses.COMMON_ASSUMPTIONS,
      "coverage": {"explanation": "Symbolic execution of the LLVM IR rustc emits for the current /repo tree; every branch and assertion over symbolic inputs is decided by an SMT/SAT query; verdict holds for all values within the bounds listed.",
        "bounds": {e["entry"]: e["bound"] for e in ents}, "harnesses": len(ents),
        "paths": tot("paths"), "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_seconds": round(tot("solver_seconds"), 2), "instructions_interpreted": tot("instructions"),
        "assertions_evaluated": tot("assertions"), "assertions_needing_solver": tot("assertions_symbolic"), "paths_cut_by_assumption": tot("assume_killed"), "paths_ending_in_permitted_panic": tot("panics_allowed"),
        "functions_encoded": fns, "functions_encoded_total_including_std": nall,
        "outside_bounds": P.get("outside", ""), "encoding_validation": val, "build_seconds": round(tb, 1),
        "per_harness": [{"entry": e["entry"], "verdict": stats[e["entry"]]["verdict"], "paths": stats[e["entry"]]["paths"], "queries": stats[e["entry"]]["queries"], "solver_seconds": stats[e["entry"]]["solver_seconds"], "wall_seconds": round(stats[e["entry"]]["wall"], 2), "reach": stats[e["entry"]]["reach"]} for e in ents],
        "known_findings": [f["entry"] + ": " + f["kind"] for f in findings], "violations": violations, "errors": errors}}
    if not a.noev and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for f in findings: print("KNOWN-FINDING: property=%s %s" % (prop, next(k["what"] for k in known if k["entry"] == f["entry"])))
    # a listed finding that no longer fails is reported for information only
    for k in known:
        if k["entry"] in stats and stats[k["entry"]]["verdict"] == "holds": print("note: known finding %s no longer fails" % k["entry"])
    print("%s %s: %d harnesses, %d paths, %d queries, solver %.1f s, build %.1f s, wall %.1f s" % (prop, tier, len(ents), tot("paths"), tot("queries"), tot("solver_seconds"), tb, time.time() - t0))
    if violations:
        for v in violations:
            print("violated in %s: %s\n  at %s\n  native replay: %s" % (v["entry"], v["kind"], v["where"], v["native"]))
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if errors:
        for x in errors: print("ERROR " + x)
        return 3
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Err as e: print("ERROR " + str(e)); sys.exit(3)

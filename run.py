#!/usr/bin/env python3
"""Driver: compiles /repo's current sources and a property's harnesses to LLVM bitcode, runs the symbolic
executor on every entry, replays counterexamples and path witnesses natively, writes evidence/<id>.json."""
import sys, os, re, json, time, hashlib, subprocess, tempfile, shutil, argparse, concurrent.futures as cf, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO_DIR", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANGXX, CLANG = "/usr/bin/clang++-18", "/usr/bin/clang-18"
LLVM = "/usr/lib/llvm-18/bin/"
def tool(n):
    for p in (LLVM + n, "/usr/bin/" + n + "-18", "/usr/bin/" + n):
        if os.path.exists(p): return p
    return n
JOBS = max(2, os.cpu_count() or 4)
DEFS = ["-DOPENSEMBA_VERSION=\"0.14\""]
INCS = ["-Iexternal", "-Iexternal/json", "-Iexternal/gidpost", "-Isrc", "-Isrc/core"]
BCFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", "-w", "-fno-discard-value-names", "-fno-unroll-loops", "-fno-pic", "-fno-pie"]
NFLAGS = ["-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,enum,alignment", "-fno-omit-frame-pointer", "-ffp-contract=off", "-c"]
VFLAGS = ["-O0", "-g1", "-w", "-ffp-contract=off", "-c"]
LOGS = []
def log(*a): print(*a); sys.stdout.flush()
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def h(b): return hashlib.sha256(b).hexdigest()[:24]
class BuildError(Exception): pass

def engine():
    src = b"".join(open(os.path.join(HERE, "engine", f), "rb").read() for f in sorted(os.listdir(os.path.join(HERE, "engine"))))
    e = os.path.join(BUILD, "engine-" + h(src))
    if not os.path.exists(e):
        os.makedirs(BUILD, exist_ok=True); t = e + ".%d" % os.getpid()
        r = sh(["bash", os.path.join(HERE, "engine/build.sh"), t])
        if r.returncode or not os.path.exists(t): raise BuildError("engine build failed:\n" + r.stderr.decode()[-3000:])
        os.rename(t, e)
    return e

_src = None
def srccopy():
    """scratch copy of the current sources; the only edit makes a name lookup that g++ accepts unambiguous for clang"""
    global _src
    if _src: return _src
    d = tempfile.mkdtemp(prefix="vsrc_"); atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src")); shutil.copytree(os.path.join(REPO, "external"), os.path.join(d, "external"))
    od = os.path.join(d, "src/core/outputRequest")
    if os.path.isdir(od):
        for f in os.listdir(od):
            p = os.path.join(od, f)
            if os.path.isfile(p):
                s = open(p, encoding="latin-1").read(); n = re.sub(r"(?<![:\w])OutputRequest::Base\b", "::SEMBA::OutputRequest::Base", s)
                if n != s: open(p, "w", encoding="latin-1").write(n)
    for f in ("harness", "rt"): os.symlink(os.path.join(HERE, f), os.path.join(d, f))
    _src = d; return d

def compile1(path, flags, std, extra, suffix, cc=CLANGXX, shadow=False):
    d = srccopy(); cmd = [cc] + (["-std=" + std] if std else []) + (["-isystem", "rt/shadow", "-Irt/json"] if shadow else []) + INCS + DEFS + ["-Irt", "-Iharness"] + extra
    pre = sh(cmd + ["-E", "-P", path], cwd=d)
    if pre.returncode: raise BuildError("preprocessing %s failed:\n%s" % (path, pre.stderr.decode()[-3000:]))
    key = h(pre.stdout + repr((flags, std, cc, path)).encode()); cache = os.path.join(BUILD, "cache"); os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + suffix)
    if not os.path.exists(out):
        t = out + ".%d.tmp" % os.getpid(); r = sh(cmd + flags + [path, "-o", t], cwd=d)
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (path, r.stderr.decode()[-4000:]))
        os.rename(t, out)
    else: os.utime(out)
    return out

def repo_sources():
    d = srccopy(); r = []
    for base, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.relpath(os.path.join(base, f), d); r.append(p)
    return sorted(r)

class Harness:
    def __init__(s, path, tier):
        s.path = os.path.relpath(path, HERE); s.tier = tier; s.entries = []; s.prop = None; s.bounds = []; s.assume = []; s.extra = []; s.exclude = []
        for l in open(path):
            m = re.match(r"//\s*@(\w+)\s+(.*)", l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == "property": s.prop = v
            elif k == "bounds": s.bounds.append(v)
            elif k == "assume": s.assume.append(v)
            elif k == "define": s.extra.append("-D" + v)
            elif k == "entry":
                w = v.split(); e = {"name": w[0], "tiers": ("quick", "thorough"), "time": None, "ms": None, "shards": 1, "finding": False, "opts": []}
                for x in w[1:]:
                    if x in ("quick", "thorough"): e["tiers"] = (x,)
                    elif x == "finding": e["finding"] = True
                    elif x.startswith("time="): e["time"] = float(x[5:])
                    elif x.startswith("ttime="): e["ttime"] = float(x[6:])
                    elif x.startswith("ms="): e["ms"] = int(x[3:])
                    elif x.startswith("shards="): e["shards"] = int(x[7:])
                    elif x == "nomerge": e["opts"].append("--no-merge")
                    elif x.startswith("maxinstr="): e["opts"] += ["--max-instr", x[9:]]
                    elif x.startswith("reach="): e.setdefault("reach", []).extend(x[6:].split(","))
                s.entries.append(e)
        if tier == "thorough": s.extra.append("-DTHOROUGH=1")
        s.entries = [e for e in s.entries if tier in e["tiers"]]

def nm(f, bc, strong=False):
    r = sh([tool("llvm-nm") if bc else "nm", "--format=posix", f])
    de, un = set(), set()
    for l in r.stdout.decode().splitlines():
        w = l.split()
        if len(w) < 2: continue
        if w[1] == "U": un.add(w[0])
        elif w[1] not in "wv" and (not strong or w[1] in "TDBR"): de.add(w[0])
    return de, un

def build_bc(hs, ex):
    d = srccopy(); srcs = repo_sources()
    futs = {ex.submit(compile1, s, BCFLAGS, "c++11", [], ".bc", CLANGXX, True): s for s in srcs}
    rt = [ex.submit(compile1, "rt/runtime.cpp", BCFLAGS + ["-fno-builtin"], "c++14", [], ".bc", CLANGXX, True), ex.submit(compile1, "rt/runtime_c.c", BCFLAGS + ["-fno-builtin"], None, [], ".bc", CLANG, False)]
    hf = [ex.submit(compile1, x.path, BCFLAGS, "c++14", x.extra + ["-DSYM_ENGINE=1"], ".bc", CLANGXX, True) for x in hs]
    bcs = {}
    for f in cf.as_completed(futs): bcs[futs[f]] = f.result()
    rts = [f.result() for f in rt]; hbs = [f.result() for f in hf]
    return bcs, rts, hbs

def link_bc(harness, hb, bcs, rts):
    files = [hb] + [bcs[k] for k in sorted(bcs)] + rts
    key = h("".join(files).encode() + repr([e["name"] for e in harness.entries]).encode()); out = os.path.join(BUILD, "cache", key + ".linked.bc")
    if os.path.exists(out): return out
    t = out + ".%d" % os.getpid()
    r = sh([tool("llvm-link"), "-o", t + ".1"] + files)
    if r.returncode: raise BuildError("llvm-link failed:\n" + r.stderr.decode()[-3000:])
    names = ",".join(e["name"] for e in harness.entries)
    r = sh([tool("opt"), "-passes=internalize,globaldce,rpo-function-attrs,cgscc(function-attrs),globaldce,strip-dead-prototypes", "-internalize-public-api-list=" + names + ",__libc_single_threaded", t + ".1", "-o", t])
    if r.returncode: raise BuildError("opt failed:\n" + r.stderr.decode()[-3000:])
    os.unlink(t + ".1"); os.rename(t, out); return out

_nm_cache = {}
def needed_sources(linked, bcs):
    """repo files that define any function/variable kept in the linked module"""
    kept, _ = nm(linked, True); r = []
    for s, b in bcs.items():
        if b not in _nm_cache: _nm_cache[b] = nm(b, True, True)[0]
        strong = _nm_cache[b]
        if strong & kept: r.append(s)
    return r

def build_native(harness, linked, bcs, ex, flags, tag, link):
    srcs = sorted(bcs); hb = compile1(harness.path, flags, "c++14", harness.extra, "." + tag + ".o"); objs = {}
    need = set(needed_sources(linked, bcs))
    # transitive closure on undefined symbols
    defs = {}
    for s in srcs:
        b = bcs[s]
        if b not in _nm_cache: _nm_cache[b] = nm(b, True, True)[0]
        for y in _nm_cache[b]: defs.setdefault(y, s)
    done = set(); todo = set(need)
    while todo:
        futs = {ex.submit(compile1, s, flags, "c++11", [], "." + tag + ".o"): s for s in todo}
        for f in cf.as_completed(futs): objs[futs[f]] = f.result()
        done |= todo; und = set(); have = set()
        for o in list(objs.values()) + [hb]:
            if o not in _nm_cache: _nm_cache[o] = nm(o, False)
            have |= _nm_cache[o][0]; und |= _nm_cache[o][1]
        todo = {defs[u] for u in und - have if u in defs} - done
    nat = compile1("rt/native.cpp", flags, "c++14", [], "." + tag + ".o")
    key = h((hb + nat + "".join(sorted(objs.values()))).encode()); out = os.path.join(BUILD, "cache", key + "." + tag + ".exe")
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid(); r = sh([CLANGXX, "-rdynamic"] + link + [hb, nat] + list(objs.values()) + ["-o", t, "-ldl", "-Wl,--unresolved-symbols=ignore-all"])
        if r.returncode: raise BuildError("native link failed:\n" + r.stderr.decode()[-3000:])
        os.rename(t, out)
    return out

def write_inputs(path, ins):
    with open(path, "w") as f:
        for i in ins: f.write("%s %s %s\n" % (i["name"], i["kind"], i["v"]))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")
def run_native(exe, entry, ins, wrap=[]):
    td = tempfile.mkdtemp(prefix="vrun_")
    try:
        p = os.path.join(td, "in.txt"); write_inputs(p, ins)
        try: r = subprocess.run(wrap + [exe, entry, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=td, timeout=60)
        except subprocess.TimeoutExpired: return {"rc": 124, "out": "", "err": "timeout"}
        return {"rc": r.returncode, "out": r.stdout.decode("utf8", "replace"), "err": r.stderr.decode("utf8", "replace")}
    finally: shutil.rmtree(td, ignore_errors=True)
def bad(r): return r["rc"] not in (0, 77, 78, 124)
def obs(out):
    o = []
    for l in out.splitlines():
        w = l.split()
        if len(w) == 3 and w[0] == "OBS":
            try: o.append((w[1], float(w[2])))
            except ValueError: pass
    return o
def known():
    r = []; p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) check=(\S+) (.*)", l.strip())
            if m: r.append(dict(zip(("property", "entry", "check", "what"), m.groups())))
    return r

def short(ins): return " ".join("%s=%s" % (i["name"], (("%.6g" % i["d"]) if "d" in i else i["v"])) for i in ins)[:600]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--entry"); ap.add_argument("--replay"); ap.add_argument("-v", action="count", default=0); ap.add_argument("--setup", action="store_true"); ap.add_argument("--dev", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    a = ap.parse_args(); t0 = time.time(); ex = cf.ThreadPoolExecutor(JOBS)
    if a.setup:
        e = engine(); bcs, rts, _ = build_bc([], ex); log("setup: engine %s, %d sources to bitcode, %.1fs" % (e, len(bcs), time.time() - t0)); return 0
    if a.replay:
        j = json.load(open(os.path.join(a.replay, "replay.json"))); a.property = j["property"]; a.tier = j["tier"]
    tier = a.tier; prop = a.property; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hdir = os.path.join(HERE, "harness"); hs = []
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".cpp"):
            x = Harness(os.path.join(hdir, f), tier)
            if x.prop == prop: hs.append(x)
    if a.entry:
        for x in hs: x.entries = [e for e in x.entries if e["name"] == a.entry]
    hs = [x for x in hs if x.entries]
    if not hs: log("no harness for", prop); return 2
    ef = ex.submit(engine); bcs, rts, hbs = build_bc(hs, ex); eng = ef.result()
    linked = {x.path: link_bc(x, b, bcs, rts) for x, b in zip(hs, hbs)}
    tb = time.time() - t0
    if a.replay:
        x = [y for y in hs if any(e["name"] == j["entry"] for e in y.entries)][0]
        exe = build_native(x, linked[x.path], bcs, ex, NFLAGS, "nat", ["-fsanitize=address,undefined"])
        for v in j["vectors"]:
            r = run_native(exe, j["entry"], v); print(r["out"], r["err"][:4000], "exit", r["rc"])
        return 0
    natf = {} if a.no_native else {x.path: cf.ThreadPoolExecutor(1).submit(build_native, x, linked[x.path], bcs, ex, NFLAGS, "nat", ["-fsanitize=address,undefined"]) for x in hs}
    # engine runs
    jobs = []; T = {"quick": 240.0, "thorough": 700.0}[tier]; MS = {"quick": 8000, "thorough": 30000}[tier]
    tmp = tempfile.mkdtemp(prefix="vout_"); atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
    for x in hs:
        for e in x.entries:
            for sI in range(e["shards"]):
                out = os.path.join(tmp, "%s_%d.json" % (e["name"], sI)); tt = (e.get("ttime") if tier == "thorough" and e.get("ttime") else None) or (e["time"] if e["time"] and tier == "quick" else T)
                jobs.append((x, e, sI, out, [eng, linked[x.path], "--entry", e["name"], "--out", out, "--time", str(tt), "--ms", str(e["ms"] or MS), "--shard", "%d/%d" % (sI, e["shards"]), "--witness", "24" if e["shards"] == 1 else "6"] + e["opts"] + ["-v"] * a.v, tt))
    def go(job):
        x, e, sI, out, cmd, tt = job
        if tier == "quick" and not a.dev: # the whole quick run stays well below 900 s: entries that start late get what is left
            tt = max(15.0, min(tt, 600.0 - (time.time() - t0))); cmd = list(cmd); cmd[cmd.index("--time") + 1] = str(tt)
        try: r = subprocess.run(["/bin/bash", "-c", "ulimit -v 12000000; exec \"$@\"", "sh"] + cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE, timeout=tt * 1.5 + 60); err = (r.stderr or b"").decode("utf8", "replace")[-500:]
        except subprocess.TimeoutExpired: err = "killed after time limit"
        try: return job, json.load(open(out)), err
        except Exception: return job, None, err
    res = []
    pool = cf.ThreadPoolExecutor(JOBS)
    for r in pool.map(go, sorted(jobs, key=lambda j: -j[5])): res.append(r)
    # aggregate
    kf = [k for k in known() if k["property"] == prop]; violations = []; knownhit = []; unconf = []; mism = 0; traces = 0; wbad = 0
    agg = dict(paths=0, instructions=0, forks=0, merges=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, checks=0, discharged=0, trivial=0, undecided=0, infeasible=0, killed_assume=0, unsupported_paths=0, cache_hits=0)
    ents = []; samples = []; funcs = set(); vac = []; natexe = {}; valexe = {}
    def nat(x):
        if x.path not in natexe: natexe[x.path] = natf[x.path].result() if natf else None
        return natexe[x.path]
    def val(x):
        if x.path not in valexe: valexe[x.path] = build_native(x, linked[x.path], bcs, ex, VFLAGS, "val", [])
        return valexe[x.path]
    byentry = {}
    for (x, e, sI, out, cmd, tt), j, err in res:
        en = byentry.setdefault(e["name"], {"entry": e["name"], "harness": x.path, "shards": 0, "complete": True, "reach": {}, "check_counts": {}, "check_ok": {}, "check_undecided": {}, "bound_reasons": [], "unsupported": [], "candidates": 0, "paths": 0, "wall_s": 0, "queries": 0, "solver_s": 0.0})
        if j is None or j["fatal"]:
            en["complete"] = False; en["unsupported"].append("engine: " + (j["fatal"] if j else err)); log("WARNING entry %s: engine failed: %s" % (e["name"], (j["fatal"] if j else err)))
            if j is None: continue
        en["shards"] += 1; en["complete"] &= j["complete"]; en["paths"] += j["paths"]; en["wall_s"] = round(max(en["wall_s"], j["wall_s"]), 2); en["queries"] += j["queries"]; en["solver_s"] = round(en["solver_s"] + j["solver_s"], 2); en["candidates"] += len(j["candidates"])
        for k in ("reach", "check_counts", "check_ok", "check_undecided"):
            for n, v in j[k].items(): en[k][n] = en[k].get(n, 0) + v
        for k in ("bound_reasons", "unsupported"):
            for v in j[k]:
                if v not in en[k]: en[k].append(v)
        for k in agg: agg[k] += j.get(k, 0)
        funcs |= {f for f in j["functions"] if "SEMBA" in f}
        # candidates
        seen = {}
        for c in j["candidates"]:
            if natf == {}: log("CANDIDATE %s/%s: %s @ %s [%s]" % (c["kind"], c["id"], e["name"], c["where"][:300], short(c["vectors"][0]))); continue
            exe = nat(x); ok = None
            for v in c["vectors"]:
                r = run_native(exe, e["name"], v)
                if c["kind"] == "check": conf = bad(r)
                elif c["kind"] == "uninit":
                    conf = bad(r) or run_native(val(x), e["name"], v, ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"])["rc"] == 99
                elif c["kind"] == "ub": conf = bad(r) or "runtime error" in r["err"]
                elif c["kind"] == "recursion": conf = bad(r) or r["rc"] == 124
                else: conf = bad(r) or "runtime error" in r["err"]
                if conf: ok = (v, r); break
            rec = {"entry": e["name"], "kind": c["kind"], "id": c["id"], "where": c["where"], "inputs": (ok[0] if ok else c["vectors"][0])}
            if not ok: unconf.append(rec); log("UNCONFIRMED (not reported) %s %s in %s [%s]" % (c["kind"], c["id"], e["name"], short(rec["inputs"]))); continue
            m = re.search(r"CHECKFAIL (\S+)", ok[1]["out"]); rec["check"] = m.group(1) if m else c["kind"]; rec["native"] = (ok[1]["out"] + ok[1]["err"])[-1500:]
            k = [q for q in kf if q["entry"] == e["name"] and q["check"] == rec["check"]]
            (knownhit if k else violations).append((rec, x, k[0] if k else None))
        # witnesses
        if natf:
            for w in j["witnesses"]:
                r = run_native(nat(x), e["name"], w["inputs"])
                if r["rc"] == 77 or r["rc"] == 78: continue
                if bad(r) or ("runtime error" in r["err"] and w["mode"] == "exact"):
                    if w["mode"] == "exact" and not e["finding"]:
                        m = re.search(r"CHECKFAIL (\S+)", r["out"]); rec = {"entry": e["name"], "kind": "witness-replay", "id": m.group(1) if m else "crash", "check": m.group(1) if m else "crash", "where": "native replay of an explored path", "inputs": w["inputs"], "native": (r["out"] + r["err"])[-1500:]}
                        k = [q for q in kf if q["entry"] == e["name"] and q["check"] == rec["check"]]
                        (knownhit if k else violations).append((rec, x, k[0] if k else None))
                    else: wbad += 1
                    continue
                traces += 1
                if w["mode"] == "exact":
                    no = obs(r["out"]); eo = [(n, float(v)) for n, v in w["obs"]]
                    same = len(no) == len(eo) and all(p[0] == q[0] and (p[1] == q[1] or abs(p[1] - q[1]) <= 1e-6 * max(1, abs(p[1]), abs(q[1])) or (p[1] != p[1] and q[1] != q[1])) for p, q in zip(no, eo))
                    if not same: mism += 1; (log("TRACE-MISMATCH %s [%s] engine %s native %s" % (e["name"], short(w["inputs"]), eo[:8], no[:8])) if mism <= 3 else None)
                if len(samples) < 8: samples.append({"entry": e["name"], "inputs": short(w["inputs"]), "observed": dict(w["obs"][:6]), "reached": w["reach"][:6]})
    for x in hs:
        for e in x.entries:
            en = byentry.get(e["name"])
            for rch in e.get("reach", []):
                if en and not en["reach"].get(rch): vac.append("%s: '%s' never reached" % (e["name"], rch))
            if en and not e["finding"] and en["paths"] == 0: vac.append("%s: no path reached its end" % e["name"])
    ents = [byentry[e["name"]] for x in hs for e in x.entries if e["name"] in byentry]
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True); rdir = os.path.join(evd, "replay", prop); shutil.rmtree(rdir, ignore_errors=True)
    rc = 0; done = set()
    for rec, x, k in knownhit:
        kk = (k["entry"], k["check"])
        if kk not in done: done.add(kk); log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    vdone = {}
    for rec, x, k in violations:
        key = (rec["entry"], rec["check"])
        if vdone.get(key, 0) >= 1: continue
        vdone[key] = 1; d = os.path.join(rdir, "%s_%s" % (rec["entry"], re.sub(r"\W+", "_", rec["check"]))); os.makedirs(d, exist_ok=True)
        json.dump({"property": prop, "tier": tier, "entry": rec["entry"], "check": rec["check"], "kind": rec["kind"], "id": rec["id"], "where": rec["where"], "vectors": [rec["inputs"]], "native_output": rec["native"]}, open(os.path.join(d, "replay.json"), "w"), indent=1)
        write_inputs(os.path.join(d, "inputs.txt"), rec["inputs"])
        log("  counterexample %s (%s: %s) at %s\n    inputs: %s\n    native: %s" % (rec["check"], rec["kind"], rec["id"], rec["where"][:300], short(rec["inputs"]), " | ".join(rec["native"].strip().splitlines()[:4])[:500]))
        log("VIOLATION property=%s replay=%s" % (prop, d)); rc = 1
    for v in vac: log("VACUITY-WARNING", v)
    wall = time.time() - t0; und = agg["undecided"]
    cov = {"states": max(1, agg["paths"]), "transitions": agg["instructions"], "traces_validated_against_impl": traces, "samples": samples or [{"note": "no completed path"}],
        "explanation": "symbolic execution of the compiled code: states = feasible symbolic paths run to their end (each stands for every input satisfying its path condition), transitions = LLVM instructions executed symbolically",
        "exhaustive_within_bounds": all(e["complete"] for e in ents) and und == 0, "assertions": {"evaluated": agg["checks"], "discharged_unsat_or_constant": agg["discharged"], "of_which_constant": agg["trivial"], "undecided": und},
        "solver": {"name": "z3", "queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"], "unknown": agg["unknown"], "cache_hits": agg["cache_hits"], "seconds": round(agg["solver_s"], 2)},
        "forks": agg["forks"], "merged_calls": agg["merges"], "paths_cut_by_assumptions": agg["killed_assume"], "paths_not_supported": agg["unsupported_paths"], "vacuity": vac, "entries": ents, "functions_encoded": sorted(funcs)[:400], "functions_encoded_count": len(funcs),
        "bounds": [b for x in hs for b in x.bounds], "unconfirmed_candidates": len(unconf), "unconfirmed": [{"entry": u["entry"], "id": u["id"], "kind": u["kind"]} for u in unconf][:20], "trace_observation_mismatches": mism, "approximate_witnesses_failing_natively": wbad, "build_s": round(tb, 1)}
    assum = ["doubles are modelled as exact reals (special values handled by case split); rounding error is outside the bound", "sin/cos/exp/log/pow are modelled by axioms, counterexamples are confirmed natively before being reported"] + [b for x in hs for b in x.assume]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assum, "wall_s": round(wall, 2), "violations": len(vdone)}
    if not a.entry or not a.dev: json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    for e in ents: log("  entry %-36s paths %-6d checks %-6d discharged %-6d undecided %-4d queries %-6d solver %.1fs wall %.1fs %s" % (e["entry"] + (" " if not any(e["check_undecided"].values()) else " [undecided: " + ",".join(k for k, v in e["check_undecided"].items() if v) + "]"), e["paths"], sum(e["check_counts"].values()), sum(e["check_ok"].values()), sum(e["check_undecided"].values()), e["queries"], e["solver_s"], e["wall_s"], "complete" if e["complete"] else "PARTIAL(%s)" % "; ".join(e["bound_reasons"] + e["unsupported"])[:300]))
    log("%s %s: paths=%d checks=%d discharged=%d undecided=%d unconfirmed=%d traces=%d mismatches=%d violations=%d build %.1fs wall %.1fs" % (prop, tier, agg["paths"], agg["checks"], agg["discharged"], und, len(unconf), traces, mism, len(vdone), tb, wall))
    return rc
if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e: print("BUILD-ERROR", e); sys.exit(2)

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--harness NAME] [--keep]

Decides one property: compiles its harnesses together with /repo's current headers to LLVM IR,
executes them symbolically (bin/symex), replays every counterexample against a native build of
the same harness with the real standard library, and writes evidence/PROPERTY.json.
Exit: 0 held, 1 violated (a VIOLATION line), 2 no answer."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, fcntl, re, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import specs
CLANG = next((c for c in ("/usr/bin/clang++-18", "clang++") if shutil.which(c)), "clang++")
LINK = next((c for c in ("llvm-link-18", "llvm-link", "/usr/lib/llvm-18/bin/llvm-link") if shutil.which(c)), "llvm-link")
IRFLAGS = ["-std=c++14", "-O1", "-c", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-threadsafe-statics", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-w"]
NATFLAGS = ["-std=c++14", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,return,unreachable,null,integer-divide-by-zero,bounds", "-fno-sanitize-recover=all", "-w"]

def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, "", "timeout"

STOP = threading.Event() # set when a violation has been confirmed: the remaining harnesses need not finish
def run_stoppable(cmd, timeout):
    with tempfile.TemporaryFile() as eo:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=eo); t = time.time()
        while p.poll() is None:
            if STOP.wait(0.1) or time.time() - t > timeout: p.kill(); p.wait(); return ("stopped" if STOP.is_set() else -999), "", "timeout"
        eo.seek(0); return p.returncode, "", eo.read().decode("utf8", "replace")

def ensure_engine():
    os.makedirs(HERE + "/bin", exist_ok=True)
    with open(HERE + "/bin/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [HERE + "/engine/" + f for f in ("symex.cpp", "exec.inc", "calls.inc", "poly.inc")]
        b = HERE + "/bin/symex"
        if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in src):
            r, o, e = run([HERE + "/engine/build.sh"])
            if r: print(o, e); sys.exit(2)
        rt = HERE + "/bin/rt.bc"; rsrc = [HERE + "/model/rt.cpp", HERE + "/model/include/sx_streams.h", HERE + "/model/include/iterator", HERE + "/model/include/bits/basic_string.h", HERE + "/harness/sx.h"]
        if not os.path.exists(rt) or any(os.path.getmtime(s) > os.path.getmtime(rt) for s in rsrc):
            r, o, e = run([CLANG] + IRFLAGS + ["-fno-builtin", "-I" + HERE + "/model/include", "-I" + HERE + "/harness", HERE + "/model/rt.cpp", "-o", rt])
            if r: print(o, e); sys.exit(2)
        na = HERE + "/bin/native.o"; nsrc = HERE + "/harness/native.cpp"
        if not os.path.exists(na) or os.path.getmtime(nsrc) > os.path.getmtime(na):
            r, o, e = run(["g++"] + NATFLAGS + ["-c", "-I" + HERE + "/harness", nsrc, "-o", na])
            if r: print(o, e); sys.exit(2)

def native_build(h, repo, work, defs):
    exe = work + "/" + h["key"] + ".nat"
    inc = ["-I" + HERE + "/harness"] + (["-I" + HERE + "/model/native"] if h.get("native_model") else []) + ["-I" + repo + "/src"]
    r, o, e = run(["g++"] + NATFLAGS + defs + inc + [HERE + "/harness/" + h["file"], HERE + "/bin/native.o", "-o", exe])
    return (exe, "") if r == 0 else (None, e[-3000:])

def replay(exe, values, work, tag, timeout=60):
    d = tempfile.mkdtemp(prefix="replay", dir=work); vf = d + "/values.txt"
    with open(vf, "w") as f:
        for k, v in values: f.write("%s %s\n" % (k, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=55:allocator_may_return_null=0:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=0:exitcode=56")
    r, o, e = run([exe, vf], timeout=timeout, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return r, e

def confirms(v, rc, err):
    """does the native run show the failure the solver's assignment describes"""
    if rc == 43: return False
    if v["kind"] == "assertion": return rc == 42
    if v["kind"] == "hang": return rc in (-999, -9) or (rc == 55 and "allocation-size-too-big" in err) or (rc == 55 and "out-of-memory" in err) # runs on, or grows without end
    return rc not in (0, 43)

def is_known(h, v): return next((f for f in KNOWN if f["harness"] == h["name"] and f["message"] == v["msg"]), None)

def do_harness(h, tier, repo, work, deadline):
    t = time.time(); res = {"name": h["name"], "errors": [], "violations": [], "traces": 0}
    if STOP.is_set(): res["skipped"] = True; return res
    defs = ["-D%s=%s" % kv for kv in sorted(dict(h.get("defs", {}), **h.get("thorough" if tier == "thorough" else "quick", {}).get("defs", {})).items())]
    opts = dict(time=h.get("time", 300)); opts.update(h.get("thorough" if tier == "thorough" else "quick", {}).get("opts", {}))
    with ThreadPoolExecutor(1) as ex:
        nat = ex.submit(native_build, h, repo, work, defs)
        bc = work + "/" + h["key"] + ".bc"
        r, o, e = run([CLANG] + IRFLAGS + defs + ["-I" + HERE + "/model/include", "-I" + HERE + "/harness", "-I" + repo + "/src", HERE + "/harness/" + h["file"], "-o", bc + ".h"])
        if r: res["errors"].append("harness does not compile to IR: " + e[-1500:]); nat.result(); return res
        r, o, e = run([LINK, HERE + "/bin/rt.bc", bc + ".h", "-o", bc])
        if r: res["errors"].append("link: " + e[-800:]); nat.result(); return res
        lim = max(5, min(opts["time"], deadline - time.time())); out = bc + ".json"
        cmd = [HERE + "/bin/symex", "--time=%d" % lim, "--query=%d" % h.get("query", 60000), "--out=" + out] + (["--real"] if h.get("real") else []) + h.get("args", []) + [bc]
        r, o, e = run_stoppable(cmd, lim + 120)
        exe, nerr = nat.result()
    if r == "stopped": res["skipped"] = True; return res
    if r or not os.path.exists(out): res["errors"].append("symbolic executor ended with %d: %s" % (r, e[-500:])); return res
    j = json.load(open(out)); res["json"] = j
    if exe is None: res["errors"].append("native build failed: " + nerr); return res
    for inc in j["incomplete"]: res["errors"].append(inc)
    if not j["complete"] and not j["incomplete"] and not j["violations"]: res["errors"].append("exploration not complete")
    seen = set()
    for v in j["violations"]:
        rc, err = replay(exe, v["model"], work, h["key"], timeout=h.get("replay_timeout", 60))
        v["native_exit"] = rc; v["native_err"] = err[-800:]
        v["confirmed"] = confirms(v, rc, err)
        res["violations"].append(v)
        if v["confirmed"] and tier == "quick" and not is_known(h, v): STOP.set()
    if not j["violations"]:
        if j["paths"] == 0: res["errors"].append("no path reaches the end of the harness")
        for lab in h.get("reach", ["end"]):
            if not j["reach"].get(lab): res["errors"].append("vacuous: label '%s' never reached" % lab)
        if j["obligations"] == 0: res["errors"].append("vacuous: no assertion reached")
    for wmod in j["witnesses"][: h.get("witness", 6)]:
        if wmod["tainted"]: continue
        rc, err = replay(exe, wmod["model"], work, h["key"], timeout=h.get("replay_timeout", 60))
        if rc == 0: res["traces"] += 1
        elif not h.get("real") and rc in (42, 44, 55, 56): # the solver's values for a path make the real code fail where the model of the library does not
            v = {"kind": "assertion", "msg": err.strip().split("\n")[-1][:200], "loc": "replay of a path against the real library", "model": wmod["model"], "native_exit": rc, "native_err": err[-800:], "confirmed": True}
            res["violations"].append(v)
            if tier == "quick" and not is_known(h, v): STOP.set()
        else: res.setdefault("witness_mismatch", []).append({"exit": rc, "err": err[-600:], "model": wmod["model"]})
    res["wall"] = time.time() - t
    return res

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); repo = "/repo"; only = None; keep = False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--repo": repo = a[i + 1]; i += 1
        elif a[i] == "--harness": only = a[i + 1]; i += 1
        elif a[i] == "--keep": keep = True
        i += 1
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1")); spec = specs.PROPS[pid]
    global KNOWN; KNOWN = [k for k in json.load(open(HERE + "/known_findings.json"))["findings"] if k["property"] == pid]
    ensure_engine()
    work = tempfile.mkdtemp(prefix="gtmv_%s_" % pid); budget = 780 if tier == "quick" else 6 * 3600
    hs = []
    for n, h in enumerate(spec["harnesses"]):
        h = dict(h); h["key"] = "h%d" % n
        if only and h["name"] != only: continue
        if tier == "quick" and h.get("thorough_only"): continue
        hs.append(h)
    try:
        with ThreadPoolExecutor(int(os.environ.get("SX_JOBS", "6"))) as ex:
            results = list(ex.map(lambda h: do_harness(h, tier, repo, work, t0 + budget), hs))
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    rc = 0; nviol = 0; lines = []; nunconf = 0
    rdir = HERE + "/evidence/replay/" + pid
    shutil.rmtree(rdir, ignore_errors=True)
    for h, r in zip(hs, results):
        for k, v in enumerate(r["violations"]):
            kf = is_known(h, v)
            if not v["confirmed"]:
                nunconf += 1; lines.append("UNCONFIRMED %s/%s: %s (%s) at %s; native exit %s %s" % (pid, h["name"], v["kind"], v["msg"], v["loc"], v["native_exit"], v["native_err"].strip()[-200:])); continue
            if kf: lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf["what"])); continue
            os.makedirs(rdir, exist_ok=True); p = "%s/%s_%d.txt" % (rdir, h["name"], k)
            with open(p, "w") as f:
                f.write("# harness/%s  %s: %s\n# at %s\n# native replay: exit %s %s\n" % (h["file"], v["kind"], v["msg"], v["loc"], v["native_exit"], v["native_err"].strip().replace("\n", " | ")[-400:]))
                f.write("# replay: python3 replay.py %s %s THIS_FILE\n" % (pid, h["name"]))
                for kk, vv in v["model"]: f.write("%s %s\n" % (kk, vv))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p)); lines.append("  %s: %s: %s at %s" % (h["name"], v["kind"], v["msg"], v["loc"])); nviol += 1
        for e in r["errors"]: lines.append("INCONCLUSIVE %s/%s: %s" % (pid, h["name"], e[:1500]))
        for m in r.get("witness_mismatch", []): lines.append("NOTE %s/%s: a witness path ended with exit %s natively: %s" % (pid, h["name"], m["exit"], m["err"][-300:]))
    if nviol: rc = 1
    elif nunconf or any(r["errors"] for r in results): rc = 2
    seen = set()
    for l in lines:
        if l.startswith("KNOWN-FINDING") and l in seen: continue
        seen.add(l); print(l)
    js = [r["json"] for r in results if "json" in r]; S = lambda k: sum(j[k] for j in js)
    fns = sorted(set(f for j in js for f in j["library_functions"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []) + [x for h in hs for x in h.get("assumptions", [])],
          "coverage": {"states": S("paths") + S("forks"), "transitions": S("instructions"), "traces_validated_against_impl": sum(r["traces"] for r in results),
                       "samples": [{"harness": h["name"], "inputs": dict(w["model"][:24])} for h, r in zip(hs, results) if "json" in r for w in r["json"]["witnesses"][:1]][:8],
                       "paths": S("paths"), "queries": S("queries"), "cache_hits": S("cache_hits") + S("model_hits"), "solver_s": round(S("solver_s"), 2), "obligations": S("obligations"), "discharged": S("discharged"), "solver_unknown": S("unknown"),
                       "exhaustive": rc == 0, "functions_encoded": len(fns), "functions": fns[:200], "bounds": {h["name"]: h.get("bounds", "") for h in hs},
                       "harnesses": [{"name": h["name"], "file": h["file"], "arithmetic": "exact reals" if h.get("real") else "bit-vectors and IEEE-754", "complete": r.get("json", {}).get("complete"), "paths": r.get("json", {}).get("paths"), "obligations": r.get("json", {}).get("obligations"), "queries": r.get("json", {}).get("queries"), "solver_s": r.get("json", {}).get("solver_s"), "reached": r.get("json", {}).get("reach"), "wall_s": round(r.get("wall", 0), 2), "stopped_after_a_violation": bool(r.get("skipped")), "traces_replayed": r["traces"], "witness_mismatches": len(r.get("witness_mismatch", [])), "errors": r["errors"][:5]} for h, r in zip(hs, results)]}}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %s; %d harnesses, %d paths, %d obligations, %d queries, solver %.1f s, %d traces replayed, %.1f s" % (pid, tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], len(hs), S("paths"), S("obligations"), S("queries"), S("solver_s"), sum(r["traces"] for r in results), time.time() - t0))
    sys.exit(rc)
if __name__ == "__main__": main()

#!/usr/bin/env python3
"""replay.py PROPERTY HARNESS FILE [--repo DIR] : runs the native (g++, sanitized) build of a harness on the
input values of a counterexample, as written to evidence/replay. FILE may be the replay file itself.
Exit: 0 the run holds, otherwise the exit code of the run (42: an assertion of the harness failed)."""
import sys, tempfile, shutil
import check, specs
a = sys.argv[1:]; repo = "/repo"
if "--repo" in a: i = a.index("--repo"); repo = a[i + 1]; del a[i:i + 2]
pid, name, path = a; h = dict(next(x for x in specs.PROPS[pid]["harnesses"] if x["name"] == name), key="h")
check.ensure_engine(); work = tempfile.mkdtemp(prefix="gtmr_")
try:
    for tier in ("quick", "thorough"): # the choices in FILE belong to the tier that found them
        defs = ["-D%s=%s" % kv for kv in sorted(dict(h.get("defs", {}), **h.get(tier, {}).get("defs", {})).items())]
        exe, err = check.native_build(h, repo, work, defs)
        if exe is None: print(err); sys.exit(2)
        vals = [l.split(None, 1) for l in open(path).read().split("\n") if l.strip() and not l.startswith("#")]
        rc, err = check.replay(exe, vals, work, "r"); print("%s: exit %d %s" % (tier, rc, err.strip()))
        if rc != 43: break
finally: shutil.rmtree(work, ignore_errors=True)
sys.exit(rc & 255)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import props, specs
props.write()
plist = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
NA = json.load(open("not_applicable.json"))
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": [], "not_applicable": NA,
     "notes": "All checks run the same engine: /verif/engine (symbolic execution of the LLVM IR of /repo's headers, decided by Z3). See DESIGN.md."}
for p in plist:
    i = p["id"]
    if i not in specs.PROPS: assert any(n["property"] == i for n in NA), i; continue
    real = any(h["real"] for h in specs.PROPS[i]["harnesses"]); bv = any(not h["real"] for h in specs.PROPS[i]["harnesses"])
    m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the LLVM IR of the real headers, assertions decided by Z3 (%s)" % ("exact reals and bit-vectors/IEEE-754" if real and bv else "exact reals" if real else "bit-vectors and IEEE-754"),
        "level": "model_checking",
        "level_note": "Every path of %d harness(es) over the real code is explored and every assertion is decided for all values within the bounds stated in the evidence file; nothing is claimed outside them. Trusted: clang's front end, the IR executor, Z3, and the models of iostreams and libstdc++'s compiled part; counterexamples are reported only after a native replay." % len(specs.PROPS[i]["harnesses"])})
for k in specs.PROPS: assert any(p["id"] == k for p in plist), k
json.dump(m, open("MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")

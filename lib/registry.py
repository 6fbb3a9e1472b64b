#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing; both files are committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code (LLVM pass) with SMT decisions (z3) and native replay"
NOTE = ("Every path of the harness within the stated bounds is explored and every assertion decided by the solver (or by interval reasoning on the "
        "path condition); bounds per case are in the evidence. Trusted: clang/LLVM, the pass and its runtime (cross-checked by replaying sampled paths natively), z3. ")
P = []
PYTECH = "symbolic execution of the real Python code (CrossHair) with SMT decisions (z3) and replay on the plain interpreter"
PYNOTE = ("Every path of each case within the stated bounds is explored and its postcondition decided by the solver; programs, the openEMS module and the disk are "
          "stand-ins that record what is asked of them. Trusted: CrossHair's models of Python's types, z3. ")
def prop(id, title, statement, over, quant, tests, files, mech, observe=(), note="", python=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, observe=list(observe), note=note, python=python))
NA = []
def na(id, title, statement, over, quant, tests, files, mech, reason):
    prop(id, title, statement, over, quant, tests, files, mech)
    NA.append((id, reason))

exec(open(os.path.join(V, "lib", "registry_table.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
P.sort(key=lambda p: p["id"])
nas = dict(NA)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["tests"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 lib/build.py",
        checks=[dict(property=p["id"], quick_cmd="python3 lib/check.py %s --tier quick" % p["id"], thorough_cmd="python3 lib/check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=PYTECH if p["python"] else TECH, level="model_checking", level_note=(PYNOTE if p["python"] else NOTE) + p["note"]) for p in P if p["id"] not in nas],
        not_applicable=[dict(property=a, reason=b) for a, b in NA],
        notes="No hooks in /repo. lib/registry.py generates this file and properties.jsonl."), f, indent=1)
    f.write("\n")

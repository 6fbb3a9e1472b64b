#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case NAME] [--verbose]

Decides one property: builds the harness and /repo's code for symbolic execution
and for native replay, explores every case, replays what the solver found, and
writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1:
"VIOLATION property=<id> replay=<path>".  Exit 2: the check could not decide.
"""
import argparse, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
BUDGET = {"quick": 110, "thorough": 720}


def load_findings(prop):
    """finding: property=<id> case=<case|*> msg=<assertion text> [tag=<tag>] :: description"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) case=(\S+) tag=(\S+) msg=\"([^\"]*)\" :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"case": m.group(2), "tag": m.group(3), "msg": m.group(4), "what": m.group(5)})
    return out


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")
    except OSError:
        return names


def native(exe, case, vals_list, scratch, timeout):
    """Verdict, tag and observations of the native build on each list of inputs."""
    if not vals_list:
        return []
    def chunk(vs):
        fd, f = tempfile.mkstemp(dir=scratch)
        with os.fdopen(fd, "w") as h:
            for v in vs:
                h.write(",".join(map(str, v)) + ",\n")
        rc, out, err = sh([exe, "--case", case, "--file", f, "--timeout", str(timeout)], timeout * len(vs) + 60)
        res = []
        for l in out.split("\n"):
            p = l.split("\t")
            if len(p) == 3:
                res.append((p[0], p[1], [int(x) for x in p[2].split(",") if x]))
        return res
    n = max(1, min(8, len(vals_list)))
    parts = [vals_list[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(chunk, parts))
    out = [None] * len(vals_list)
    for i in range(n):
        for j, r in enumerate(rs[i]):
            out[i + j * n] = r
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, prop + ".json")
    harness = prop.lower() + ".cpp"
    python = os.path.join(VERIF, "harness", prop.lower() + ".py")
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        rc = run_python(prop, tier, seed, t0, evf, python, scratch, a) if os.path.exists(python) else run(prop, tier, seed, t0, evf, harness, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run_python(prop, tier, seed, t0, evf, harness, scratch, a):
    """A property of Python code: the same with CrossHair instead of the LLVM engine."""
    sys.dont_write_bytecode = True
    env = dict(os.environ, VERIF_REPO=B.REPO, PYTHONDONTWRITEBYTECODE="1")
    try:
        import importlib.util
        os.environ["VERIF_REPO"] = B.REPO
        s = importlib.util.spec_from_file_location("harness", harness)
        h = importlib.util.module_from_spec(s)
        s.loader.exec_module(h)
    except Exception as e:
        print("BUILD-ERROR property=%s\n%r" % (prop, e))
        return 2
    cases = [a.case] if a.case else list(h.CASES)
    reports, violations, unrep, problems, validated, samples = [], [], [], [], 0, []

    def replay(case, args):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "lib/pyreplay.py"), harness, case] + [json.dumps(x) for x in args], env=env, stdout=subprocess.PIPE, text=True, timeout=120)
        return [l.split(" ", 1)[0] == "ok" for l in r.stdout.splitlines()]
    for c in cases:
        of = os.path.join(scratch, c + ".json")
        try:
            r = subprocess.run(["python3-vt", os.path.join(VERIF, "lib/pysym.py"), harness, c, of, "%.1f" % ((a.budget or BUDGET[tier]) / len(cases))], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
            r = json.load(open(of))
        except (OSError, ValueError, subprocess.TimeoutExpired) as e:
            problems.append("%s: no report %s" % (c, e))
            continue
        reports.append(r)
        problems += r.get("problems", [])
        cand = [v["args"] for v in r["violations"] if v["args"] is not None]
        unrep += [v["message"] for v in r["violations"] if v["args"] is None]
        for v, ok in zip(cand, replay(c, cand) if cand else []):
            if ok:
                unrep.append({"case": c, "args": v})
            else:
                violations.append({"case": c, "args": v, "msg": "the property fails on %s" % v})
        for v, ok in zip(r["samples"], replay(c, r["samples"]) if r["samples"] else []):
            if ok:
                validated += 1
            else:
                violations.append({"case": c, "args": v, "msg": "the property fails on %s" % v})
        if r["samples"]:
            samples.append({"case": c, "inputs": r["samples"][0]})
        if a.verbose:
            print(" ", c, r["states"], "paths", r["paths"], "queries", r["queries"], "%.1fs" % r["wall_s"])
    S = lambda k: sum(r[k] for r in reports)
    exhaustive = bool(reports) and all(r["exhaustive"] for r in reports) and not problems and not unrep
    n = {k: sum(r["queries"].get(k, 0) for r in reports) for k in ("sat", "unsat", "unknown")}
    cov = {"states": S("paths"), "transitions": sum(n.values()), "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
           "explanation": "states = explored symbolic paths; transitions = solver queries deciding branches and postconditions; exhaustive = CrossHair confirmed the postcondition over all paths within the bounds",
           "cases": [{k: r[k] for k in ("case", "bounds", "exhaustive", "paths", "states", "queries", "solver_s", "wall_s")} for r in reports],
           "queries": sum(n.values()), "queries_sat": n["sat"], "queries_unsat": n["unsat"], "queries_unknown": n["unknown"], "solver_s": round(S("solver_s"), 3),
           "functions_encoded": h.FUNCTIONS, "functions_encoded_count": len(h.FUNCTIONS), "candidates_not_reproduced": unrep[:10], "problems": problems}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["bounds of each case as listed", "programs, the openEMS module and the disk are stand-ins that record what is asked of them"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evf + ".tmp", evf)
    print("%s %s: %d cases, %d paths, %d queries, exhaustive=%s, %d replayed, %d unreproduced, %.1fs" % (prop, tier, len(reports), cov["states"], cov["queries"], exhaustive, validated, len(unrep), time.time() - t0))
    if violations:
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        done = set()
        for v in violations:
            if v["case"] in done:
                continue
            done.add(v["case"])
            path = os.path.join(rp, "%s-%d.sh" % (prop, len(done)))
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# %s: case %s. Runs the module of /repo on the failing arguments.\nexec python3 %s/lib/pyreplay.py %s %s %s\n" % (prop, v["case"], VERIF, harness, v["case"], shlex.quote(json.dumps(v["args"]))))
            os.chmod(path, 0o755)
            print("VIOLATION property=%s replay=%s case=%s: %s" % (prop, path, v["case"], v["msg"]))
        return 1
    if problems or not reports or not cov["states"]:
        print("UNDECIDED property=%s %s" % (prop, "; ".join(problems) or "no case"))
        return 2
    return 0


def run(prop, tier, seed, t0, evf, harness, scratch, a):
    try:
        with ThreadPoolExecutor(2) as ex:
            fs, fn = ex.submit(B.build, harness, "sym"), ex.submit(B.build, harness, "nat")
            sym, nat = fs.result(), fn.result()
    except B.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 2
    build_s = time.time() - t0
    rc, out, _ = sh([sym, "--list"], 60)
    cases = []
    for l in out.splitlines():
        p = l.split("\t")
        if len(p) >= 3 and (p[1] == "0" or (p[1] == "1") == (tier == "thorough")):
            cases.append((p[0], p[2]))
    if a.case:
        cases = [c for c in cases if c[0] == a.case]
    findings = load_findings(prop)
    total = a.budget or BUDGET[tier]
    deadline = time.time() + total
    reports, violations, known, unrep, mism, validated, samples = [], [], {}, [], [], 0, []
    problems = []
    for i, (c, bounds) in enumerate(cases):
        left = deadline - time.time()
        share = max(5.0, min(left, 2.5 * left / (len(cases) - i)))
        of = os.path.join(scratch, c + ".json")
        rc, out, err = sh([sym, "--case", c, "--out", of, "--jobs", "8", "--budget", "%.1f" % share, "--path-timeout",
                           "30" if tier == "quick" else "120", "--query-timeout", "10" if tier == "quick" else "60",
                           "--seed", str(seed), "--samples", "60" if tier == "quick" else "300"], share + 400)
        try:
            r = json.load(open(of))
        except (OSError, ValueError):
            problems.append("%s: no report (rc %s) %s" % (c, rc, err[-300:]))
            continue
        reports.append(r)
        if a.verbose:
            print("  %-28s %6.1fs paths %d obl %d (int %d smt %d conc %d unk %d) q %d unk %d %s viol %s %s" % (
                c, r["wall_s"], r["paths"], r["obligations"], r["obl_interval"], r["obl_solver"], r["obl_concrete"], r["obl_unknown"],
                r["queries"], r["unknown"], "EXH" if r["exhaustive"] else "part(pending %d tmo %d div %d err %d)" % (r["pending"], r["timeouts"], r["diverged"], r["errors"]),
                r["violation_counts"], (r["error_kinds"] or "")), r["pinned_externals"] or "", r["unsupported"] or "", flush=True)
        # candidates: replay on the real build
        cand = r["violations"]
        tmo = 10
        res = native(nat, c, [v["vals"] for v in cand], scratch, tmo)
        for v, n in zip(cand, res):
            if n is None or n[0] in ("ok", "assume"):
                unrep.append({"case": c, "msg": v["msg"], "vals": v["vals"], "native": n[0] if n else "no answer"})
                continue
            verdict, tag = n[0], n[1]
            msg = verdict[7:] if verdict.startswith("assert ") else verdict
            hit = next((f for f in findings if f["case"] in ("*", c) and f["tag"] == (tag or "-") and f["msg"] == msg), None)
            if hit:
                known.setdefault(hit["what"], 0)
                known[hit["what"]] += 1
            else:
                violations.append({"case": c, "msg": msg, "tag": tag, "vals": v["vals"]})
        # explored paths, replayed: same observations?
        sm = r["samples"]
        res = native(nat, c, [s["vals"] for s in sm], scratch, tmo)
        for s, n in zip(sm, res):
            if n is None:
                mism.append({"case": c, "vals": s["vals"], "native": "no answer"})
            elif n[0] == "ok" and n[2] == s["obs"]:
                validated += 1
            elif n[0].startswith(("assert", "crash", "timeout")):
                msg = n[0][7:] if n[0].startswith("assert ") else n[0]
                hit = next((f for f in findings if f["case"] in ("*", c) and f["tag"] == (n[1] or "-") and f["msg"] == msg), None)
                if hit:
                    known.setdefault(hit["what"], 0)
                    known[hit["what"]] += 1
                else:
                    violations.append({"case": c, "msg": msg, "tag": n[1], "vals": s["vals"]})
            else:
                mism.append({"case": c, "vals": s["vals"], "native": n[0], "obs_sym": s["obs"][:20], "obs_nat": n[2][:20]})
        if sm:
            samples.append({"case": c, "inputs": dict(zip(r["input_names"], sm[0]["vals"]))})
        if r["obligations"] == 0 and not r["violations"]:
            problems.append(c + ": no assertion was reached")
        elif r["completed"] == 0 and not violations and not known:
            problems.append(c + ": no path ran to its end, and none failed natively")
    # outcome
    fns = sorted({f for r in reports for f in r["functions"]})
    dem = sorted({d for d in demangle(fns) if d and not d.startswith(("std::", "__gnu", "symcase", "decltype", "auto std::", "void std::", "bool std::", "int std::")) and "std::" not in d.split("(")[0].split("<")[0]})
    S = lambda k: sum(r[k] for r in reports)
    exhaustive = bool(reports) and all(r["exhaustive"] for r in reports) and not problems and not unrep
    cov = {
        "states": S("paths"), "transitions": S("branches"), "traces_validated_against_impl": validated,
        "samples": samples[:12], "exhaustive": exhaustive,
        "explanation": "states = explored symbolic paths; transitions = symbolic branch decisions; exhaustive = every feasible path within the bounds was explored and every assertion decided",
        "cases": [{"case": r["case"], "bounds": r["bounds"], "exhaustive": r["exhaustive"], "paths": r["paths"], "pending": r["pending"],
                   "path_timeouts": r["timeouts"], "diverged": r["diverged"], "crashes": r["crashes"], "assume_stopped": r["assume_stopped"],
                   "obligations": r["obligations"], "discharged_by_solver": r["obl_solver"], "discharged_by_interval_reasoning": r["obl_interval"],
                   "concrete_on_path": r["obl_concrete"], "undecided": r["obl_unknown"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"],
                   "unknown": r["unknown"], "solver_s": r["solver_s"], "wall_s": r["wall_s"], "pinned_externals": r["pinned_externals"],
                   "unsupported": r["unsupported"], "violation_counts": r["violation_counts"]} for r in reports],
        "obligations": S("obligations"), "discharged": S("obl_interval") + S("obl_solver") + S("obl_concrete"),
        "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
        "fp_queries": S("fp_queries"), "linear_queries": S("linear_queries"),
        "functions_encoded": dem, "functions_encoded_count": len(fns),
        "candidates_not_reproduced": unrep[:10], "sample_mismatches": mism[:10], "known_findings_met": known, "problems": problems, "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["bounds of each case as listed", "clang's -O1 code of the same sources stands for the project's gcc build; every violation and a sample of paths are replayed on the gcc build",
                          "calls listed under pinned_externals ran on concrete values, one path per value"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evf + ".tmp", evf)
    for w in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s: %d cases, %d paths, %d obligations, %d queries, exhaustive=%s, %d paths replayed natively, %d unreproduced, %d mismatches, %.1fs" % (
        prop, tier, len(reports), cov["states"], cov["obligations"], cov["queries"], exhaustive, validated, len(unrep), len(mism), time.time() - t0))
    if a.verbose:
        for u in unrep[:5]: print("   unreproduced", u)
        for u in mism[:5]: print("   mismatch", u)
        for u in problems: print("   problem", u)
    if violations:
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        seen = set()
        n = 0
        for v in violations:
            k = (v["case"], v["msg"], v["tag"])
            if k in seen:
                continue
            seen.add(k)
            n += 1
            path = os.path.join(rp, "%s-%d.sh" % (prop, n))
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# %s: case %s, %s %s\n# Rebuilds the native harness from /repo and runs it on the failing inputs.\nexec python3 %s/lib/replay.py %s %s %s\n" % (
                    prop, v["case"], v["msg"], v["tag"], VERIF, harness, v["case"], ",".join(map(str, v["vals"]))))
            os.chmod(path, 0o755)
            print("VIOLATION property=%s replay=%s case=%s: %s%s" % (prop, path, v["case"], v["msg"], " [%s]" % v["tag"] if v["tag"] else ""))
        return 1
    if problems or not reports:
        print("UNDECIDED property=%s %s" % (prop, "; ".join(problems) or "no case"))
        return 2
    return 0


if __name__ == "__main__":
    main()

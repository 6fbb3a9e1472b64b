"""pysym.py <harness.py> <case> <out.json> <budget>: explores one case of a Python harness with CrossHair (z3). Run with python3-vt."""
import ast, collections, importlib.util, json, os, re, sys, time
import z3
QUERIES = collections.Counter()
_check = z3.Solver.check
def check(self, *a):
    t = time.time()
    r = _check(self, *a)
    QUERIES[str(r)] += 1
    QUERIES["us"] += int((time.time() - t) * 1e6)
    return r
z3.Solver.check = check
from crosshair.core_and_libs import analyze_function, run_checkables
from crosshair.options import AnalysisKind, AnalysisOptionSet, DEFAULT_OPTIONS
from crosshair.path_cover import CoverageType, path_cover
from crosshair.fnutil import FunctionInfo


def load(path):
    s = importlib.util.spec_from_file_location("harness", path)
    m = importlib.util.module_from_spec(s)
    sys.modules["harness"] = m
    s.loader.exec_module(m)
    return m


def arguments(fn, message):
    """The arguments in CrossHair's message, as plain values by name."""
    i = message.find("when calling " + fn.__name__ + "(")
    if i < 0:
        return None
    text = message[i + len("when calling "):]
    for j in [k + 1 for k, c in enumerate(text) if c == ")"]:
        try:
            call = ast.parse(text[:j], mode="eval").body
            names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
            vals = dict(zip(names, [ast.literal_eval(x) for x in call.args]))
            vals.update({k.arg: ast.literal_eval(k.value) for k in call.keywords})
            return vals
        except (SyntaxError, ValueError):
            continue
    return None


def main():
    harness, case, out, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    h = load(harness)
    fn = h.CASES[case]
    t = time.time()
    stats = collections.Counter()
    opts = AnalysisOptionSet(report_all=True, stats=stats, per_condition_timeout=budget, per_path_timeout=max(10, budget / 4), analysis_kind=[AnalysisKind.PEP316])
    rep = dict(case=case, bounds=re.search(r"bounds: (.*)", fn.__doc__).group(1), states=[], violations=[], exhaustive=False)
    for m in run_checkables(analyze_function(fn, opts)):
        rep["states"].append(m.state.name)
        if m.state.name in ("POST_FAIL", "EXEC_ERR", "POST_ERR"):
            rep["violations"].append(dict(message=m.message[:400], args=arguments(fn, m.message)))
        elif m.state.name not in ("CONFIRMED", "CANNOT_CONFIRM"):
            rep.setdefault("problems", []).append(m.state.name + " " + m.message[:300])
    rep["exhaustive"] = rep["states"] == ["CONFIRMED"]
    rep["paths"] = stats["num_paths"]
    rep["queries"] = {k: v for k, v in QUERIES.items() if k != "us"}
    rep["solver_s"] = QUERIES["us"] / 1e6
    # inputs of distinct paths, for replay on the plain interpreter
    rep["samples"] = []
    try:
        covered = path_cover(FunctionInfo.from_fn(fn), DEFAULT_OPTIONS.overlay(AnalysisOptionSet(per_condition_timeout=min(20, budget), per_path_timeout=10, max_iterations=60)), CoverageType.PATH)
        pre = re.search(r"pre: (.*)", fn.__doc__)
        for s in covered:
            a = {k: v for k, v in s.args.arguments.items() if type(v) in (str, int, bool)}
            if a not in rep["samples"] and (not pre or eval(pre.group(1), dict(a))):
                rep["samples"].append(a)
    except Exception as e:  # only samples: the verdict stands without them
        rep["samples_problem"] = repr(e)[:200]
    rep["wall_s"] = time.time() - t
    json.dump(rep, open(out, "w"))


main()

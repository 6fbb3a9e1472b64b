"""pyreplay.py <harness.py> <case> <json arguments>...: runs a case on given arguments on the plain interpreter. Exit 1 if the property fails on any."""
import importlib.util, json, sys
s = importlib.util.spec_from_file_location("harness", sys.argv[1])
h = importlib.util.module_from_spec(s)
s.loader.exec_module(h)
bad = 0
for a in sys.argv[3:]:
    try:
        ok = bool(h.CASES[sys.argv[2]](**json.loads(a)))
        print("ok" if ok else "fails", a)
    except Exception as e:
        ok = False
        print("fails", a, repr(e))
    bad += not ok
sys.exit(1 if bad else 0)

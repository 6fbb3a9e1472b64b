"""replay.py <harness.cpp> <case> <vals>: runs one counterexample on the native build of /repo."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
exe = B.build(sys.argv[1], "nat")
sys.exit(subprocess.call([exe, "--case", sys.argv[2], "--vals", sys.argv[3]]))

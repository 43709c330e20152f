#!/usr/bin/env python3
"""mini.py PLAN: minimise a failing plan (prints the reduced plan and the violation)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
exe = os.environ.get("SIM", "/verif/build/sim/sim")
t = open(sys.argv[1]).read()
r = check.run_replay(exe, t)
m, n = check.minimise(exe, t, r["klass"], 60)
open(sys.argv[1] + ".min", "w").write(m)
print(m); print(check.run_replay(exe, m)["msg"][:600])

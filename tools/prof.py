#!/opt/venv/bin/python
"""prof.py PID [n]: profile n runs in-process (development aid)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv[0] = "x"
import check
check.setup()
import logging
logging.disable(logging.CRITICAL)
import lxml.etree, yaml, jsonschema, python_jsonschema_objects, gzip, getpass
from sim import runner, gen
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
p = runner.load(pid)
getattr(p, "prepare", lambda: 0)()
import cProfile, pstats
runner.execute(p, p.gen(gen.rng_for(1, pid, 0), "quick", 0))
ts = []
pr = cProfile.Profile()
if len(sys.argv) > 3: pr.enable()
for i in range(n):
    t = time.monotonic(); r = runner.execute(p, p.gen(gen.rng_for(1, pid, i), "quick", i)); ts.append(time.monotonic() - t)
    if r["violation"]: print(i, r["violation"])
pr.disable()
ts.sort()
print("mean %.1f ms median %.1f max %.1f" % (1e3 * sum(ts) / n, 1e3 * ts[n // 2], 1e3 * ts[-1]))
if len(sys.argv) > 3: pstats.Stats(pr).sort_stats("cumtime").print_stats(45)

#!/opt/venv/bin/python
"""linecov.py PID n: lists the product lines n runs of a check execute (development aid; appends to /tmp/linecov.json)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
pid = sys.argv[1]; n = int(sys.argv[2])
sys.argv = ["x"]
import check
check.setup()
import logging
logging.disable(logging.CRITICAL)
import lxml.etree, yaml, jsonschema, python_jsonschema_objects, gzip, getpass
from sim import runner, gen
hit = set()
mon = sys.monitoring
mon.use_tool_id(3, "lc")
def line(code, ln):
    if "/src/ucis/" in code.co_filename:
        hit.add((code.co_filename.split("/src/ucis/")[1], ln))
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
p = runner.load(pid)
getattr(p, "prepare", lambda: 0)()
for i in range(n):
    r = runner.execute(p, p.gen(gen.rng_for(1, pid, i), "quick", i))
    if r["violation"]: print(i, r["violation"])
f = "/tmp/linecov.json"
old = json.load(open(f)) if os.path.exists(f) else {}
old[pid] = sorted(hit)
json.dump(old, open(f, "w"))
print(pid, len(hit))

#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]      decide one property by seeded simulation
   check.py --replay FILE                           re-execute a replay file
"""
import atexit
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def setup():
    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    scratch = tempfile.mkdtemp(prefix="pyucis-verif-")
    pid = os.getpid()

    def rm():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(rm)
    os.environ["VERIF_SCRATCH"] = scratch
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.path.join(scratch, "pyc")


def main():
    a = sys.argv[1:]
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    setup()
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    # third-party packages are loaded once; only the package under test is reloaded per run
    import lxml.etree, yaml, jsonschema, python_jsonschema_objects, gzip, getpass   # noqa
    from sim import runner, gen
    if a and a[0] in ("--replay", "--replay-json"):
        prep = getattr(runner.load(json.load(open(a[1], encoding="utf-8"))["property"]), "prepare", None)
        if prep:
            prep()
        d, res = runner.replay_file(a[1])
        if a[0] == "--replay-json":
            print(json.dumps({"violation": res["violation"], "digest": res["digest"]}))
            return 0
        if res["violation"]:
            print("%s: %s" % tuple(res["violation"]))
            print("VIOLATION property=%s replay=%s" % (d["property"], a[1]))
            return 1
        print("replay of %s: property %s holds" % (a[1], d["property"]))
        return 0
    if a and a[0] == "--digests":
        prop = runner.load(a[1])
        prep = getattr(prop, "prepare", None)
        if prep:
            prep()
        out = {}
        for i in map(int, a[4].split(",")):
            plan = prop.gen(gen.rng_for(int(a[2]), a[1], i), a[3], i)
            out[i] = runner.execute(prop, plan)["digest"]
        print(json.dumps(out))
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return runner.check(pid, tier)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

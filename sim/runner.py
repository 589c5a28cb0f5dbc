"""Seeded search, minimisation, replay and evidence."""
import copy
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import threading
import time
import traceback

from . import gen
from .world import SimCrash, Violation, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
MONO = time.monotonic
WALL = time.time


class RunTimeout(BaseException):
    pass


class Ctx:
    """What a run sees: the simulated world, an event log, counters."""

    def __init__(self, plan):
        self.plan = plan
        self.w = World(plan)
        self.stats = {}
        self.nontrivial = False
        self.signature = None
        self.sched_record = None
        self.tools = {}

    @property
    def m(self):
        return self.w.mods

    def tool(self, cls):
        """A reader, writer, merger or format object: a new one each time, or one that is used again and again."""
        if not self.plan.get("env", {}).get("reuse"):
            return cls()
        k = (threading.current_thread(), cls)
        if k not in self.tools:
            self.tools[k] = cls()
        return self.tools[k]

    def ev(self, *a):
        self.w.log.append(a)

    def hit(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n


def load(pid):
    return importlib.import_module("props." + pid.lower()).PROP


def execute(prop, plan, limit=30):
    """One simulated run. Returns a result dict."""
    ctx = None
    old = signal.getsignal(signal.SIGALRM)

    def on_alarm(s, f):
        raise RunTimeout()
    res = {"violation": None, "digest": None}
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            ctx = Ctx(plan)
            ctx.w.install()
            prop.run(plan, ctx)
        except Violation as v:
            res["violation"] = [v.kind, str(v.detail)[:2000]]
        except RunTimeout:
            res["violation"] = ["no-progress", "run did not finish within %ss" % limit]
        except SimCrash:
            res["violation"] = ["harness-crash-escaped", "".join(traceback.format_exc()[-1500:])]
        except RecursionError:
            res["violation"] = ["unexpected:RecursionError", traceback.format_exc()[-1500:]]
        except BaseException as e:
            if isinstance(e, (SystemExit, GeneratorExit)):
                pass
            res["violation"] = ["unexpected:" + type(e).__name__, clean(traceback.format_exc()[-1800:], ctx)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.settrace(None)
        if ctx is not None:
            try:
                ctx.w.uninstall()
            except BaseException:
                pass
    if ctx is not None:
        txt = clean(repr(ctx.w.log), ctx) + repr(res["violation"] and res["violation"][0])
        res["digest"] = hashlib.sha1(txt.encode("utf-8", "surrogatepass")).hexdigest()[:16]
        res["events"] = len(ctx.w.log)
        res["faults"] = ctx.w.fault_counts
        res["stats"] = ctx.stats
        res["nontrivial"] = bool(ctx.nontrivial)
        res["sig"] = ctx.signature or res["digest"]
        res["restarts"] = ctx.w.restarts
        res["simtime"] = ctx.w.sim_elapsed
        res["sched"] = ctx.sched_record
    return res


def clean(s, ctx):
    if ctx is not None:
        s = s.replace(ctx.w.dir, "<dir>")
    return s


# ------------------------------------------------------------------ workers
CHUNK = 40          # runs per process: third-party class registries grow with every reload of the package


def chunk_child(pid, seed, tier, idxs, conn, cur, stop, deadline):
    prop = load(pid)
    agg = new_agg()
    out = []
    for i in idxs:
        if stop.value or MONO() > deadline:
            break
        cur.value = i
        plan = prop.gen(gen.rng_for(seed, pid, i), tier, i)
        res = execute(prop, plan)
        add(agg, res, plan, i)
        if res["violation"]:
            out.append({"idx": i, "plan": plan, "res": {k: res[k] for k in ("violation", "sched", "digest")}})
            stop.value = 1
            break
    cur.value = -1
    conn.send({"agg": agg, "viol": out})
    conn.close()


def worker(pid, seed, tier, idxs, conn, cur, stop, deadline, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    load(pid)
    gc.collect()
    gc.freeze()
    agg = new_agg()
    viol = []
    died = []
    ctx = mp.get_context("fork")
    for k in range(0, len(idxs), CHUNK):
        if stop.value or MONO() > deadline:
            break
        a, b = ctx.Pipe(False)
        cur.value = -1
        p = ctx.Process(target=chunk_child, args=(pid, seed, tier, idxs[k:k + CHUNK], b, cur, stop, deadline))
        p.start()
        b.close()
        msg = None
        try:
            while True:
                if a.poll(1.0):
                    msg = a.recv()
                    break
                if MONO() > deadline + 90:
                    p.kill()
                    break
        except (EOFError, OSError):
            pass
        p.join(10)
        if p.is_alive():
            p.kill()
            p.join()
        a.close()
        if msg is None:
            if cur.value >= 0 and MONO() <= deadline + 80:
                died.append(cur.value)
                stop.value = 1
            break
        join_agg(agg, msg["agg"])
        viol += msg["viol"]
    conn.send({"agg": agg, "viol": viol, "died": died})
    conn.close()


def new_agg():
    return {"runs": 0, "nontrivial": 0, "sigs": set(), "faults": {}, "stats": {}, "restarts": 0, "simtime": 0.0,
            "events": 0, "samples": [], "digests": {}}


def add(agg, res, plan, i):
    agg["runs"] += 1
    agg["events"] += res.get("events") or 0
    if res.get("nontrivial"):
        agg["nontrivial"] += 1
        agg["sigs"].add(res["sig"])
        if len(agg["samples"]) < 1:
            agg["samples"].append({"run": i, "plan": brief(plan), "digest": res["digest"]})
    for k in ("faults", "stats"):
        for a, b in (res.get(k) or {}).items():
            agg[k][a] = agg[k].get(a, 0) + b
    agg["restarts"] += res.get("restarts") or 0
    agg["simtime"] += res.get("simtime") or 0
    if i % 37 == 0:
        agg["digests"][i] = res["digest"]


def brief(x, depth=0):
    s = json.dumps(x, ensure_ascii=False, default=str)
    if len(s) < 1500:
        return x
    if isinstance(x, dict):
        return {k: (brief(v, depth + 1) if depth < 3 else "...") for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v, depth + 1) for v in x[:3]] + (["... %d more" % (len(x) - 3)] if len(x) > 3 else [])
    return x


def join_agg(a, b):
    for k in ("runs", "nontrivial", "restarts", "simtime", "events"):
        a[k] += b[k]
    a["sigs"] |= set(b["sigs"])
    for k in ("faults", "stats"):
        for x, y in b[k].items():
            a[k][x] = a[k].get(x, 0) + y
    a["samples"] = (a["samples"] + b["samples"])[:3]
    a["digests"].update(b["digests"])


def search(pid, seed, tier, first, runs, deadline, workers):
    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    procs = []
    for k in range(workers):
        a, b = ctx.Pipe(False)
        cur = ctx.Value("q", -1)
        p = ctx.Process(target=worker, args=(pid, seed, tier, list(range(first + k, first + runs, workers)), b, cur,
                                             stop, deadline, 6 << 30))
        p.start()
        b.close()
        procs.append((p, a, cur))
    agg = new_agg()
    viol = []
    died = []
    for p, a, cur in procs:
        msg = None
        try:
            while True:
                if a.poll(1.0):
                    msg = a.recv()
                    break
                if not p.is_alive() and not a.poll(0):
                    break
                if MONO() > deadline + 120:
                    p.kill()
                    break
        except (EOFError, OSError):
            pass
        p.join(30)
        if msg is None:
            died.append(cur.value)
        else:
            join_agg(agg, msg["agg"])
            viol += msg["viol"]
            died += msg["died"]
    viol.sort(key=lambda v: v["idx"])
    return agg, viol, died


# ------------------------------------------------------------------ minimisation
def default_shrinks(plan):
    ops = plan.get("ops")
    if isinstance(ops, list):
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                q = dict(plan)
                q["ops"] = ops[:a] + ops[a + size:]
                if q["ops"]:
                    yield q
            size //= 2
        for i, o in enumerate(ops):
            if isinstance(o, dict):
                fl = o.get("faults")
                if fl:
                    for k in range(len(fl)):
                        q = copy.deepcopy(plan)
                        del q["ops"][i]["faults"][k]
                        yield q
                for key in ("int", "env"):
                    if o.get(key):
                        q = copy.deepcopy(plan)
                        q["ops"][i].pop(key)
                        yield q
    thr = plan.get("threads")
    if isinstance(thr, list):
        for i, t in enumerate(thr):
            if isinstance(t, list) and t:
                for k in range(len(t)):
                    q = copy.deepcopy(plan)
                    del q["threads"][i][k]
                    if any(q["threads"]):
                        yield q
    sw = (plan.get("sched") or {}).get("list")
    if sw:
        n = len(sw)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                q = copy.deepcopy(plan)
                q["sched"]["list"] = sw[:a] + sw[a + size:]
                yield q
            size //= 2
    if isinstance(plan.get("dbs"), list):
        for i, s in enumerate(plan["dbs"]):
            for t in gen.spec_shrinks(s):
                q = dict(plan)
                q["dbs"] = plan["dbs"][:i] + [t] + plan["dbs"][i + 1:]
                yield q
    e = plan.get("env")
    if e:
        base = {"tz": "UTC", "enc": "utf-8", "now": 1_700_000_000, "user": "sim", "buf": 8192, "chunk": 8192}
        for k, v in base.items():
            if e.get(k, v) != v:
                q = copy.deepcopy(plan)
                q["env"][k] = v
                yield q


def same_class(a, b):
    return a is not None and b is not None and a[0] == b[0]


def minimise(prop, plan, viol, sched, budget):
    end = MONO() + budget
    steps = 0
    if sched is not None and plan.get("sched") is not None and "list" not in plan["sched"]:
        q = copy.deepcopy(plan)
        q["sched"] = {"list": sched, "gran": plan["sched"].get("gran")}
        r = execute(prop, q)
        if same_class(r["violation"], viol):
            plan = q
    changed = True
    shr = getattr(prop, "shrinks", default_shrinks)
    while changed and MONO() < end:
        changed = False
        for q in shr(plan):
            if MONO() > end:
                break
            steps += 1
            try:
                r = execute(prop, q)
            except Exception:
                continue
            if same_class(r["violation"], viol):
                plan = q
                viol = r["violation"]
                changed = True
                break
    return plan, viol, steps


def minimise_child(pid, item, budget):
    """Minimise in a child process so that nothing can hurt the parent."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def body():
        prop = load(pid)
        best = minimise(prop, item["plan"], item["res"]["violation"], item["res"].get("sched"), budget)
        b.send(best)
        b.close()
    p = ctx.Process(target=body)
    p.start()
    b.close()
    out = None
    t = MONO() + budget + 60
    while MONO() < t:
        try:
            if a.poll(0.5):
                out = a.recv()
                break
        except EOFError:
            break
        if not p.is_alive():
            break
    if p.is_alive():
        p.kill()
    p.join()
    return out


def write_replay(pid, seed, idx, plan, viol, note):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha1(json.dumps(plan, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, idx, key))
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "seed": seed, "run": idx, "violation": viol, "plan": plan, "note": note}, f,
                  indent=1, ensure_ascii=True)
    return path


def replay_file(path, quiet=False):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    prop = load(d["property"])
    res = execute(prop, d["plan"], limit=120)
    return d, res


def replay_fresh(path):
    """Replay in a fresh interpreter; returns the violation or None, or 'died'."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "4242"
    try:
        p = subprocess.run([PY, os.path.join(HERE, "check.py"), "--replay-json", path], env=env, timeout=200,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return ["no-progress", "replay did not finish"]
    try:
        return json.loads(p.stdout.decode().strip().split("\n")[-1])["violation"]
    except Exception:
        return ["process-died", "exit status %s" % p.returncode]


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as f:
            for l in f:
                l = l.strip()
                if l.startswith("KNOWN-FINDING: property=%s " % pid):
                    out.append(l)
    return out


# ------------------------------------------------------------------ determinism self check
def determinism(pid, seed, tier, digests, n):
    idxs = sorted(digests)[:n]
    if not idxs:
        return {"checked": 0, "different": 0}
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "977"
    try:
        p = subprocess.run([PY, os.path.join(HERE, "check.py"), "--digests", pid, str(seed), tier,
                            ",".join(map(str, idxs))], env=env, timeout=120, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL)
        got = json.loads(p.stdout.decode().strip().split("\n")[-1])
    except Exception as e:
        return {"checked": 0, "different": 0, "error": repr(e)[:200]}
    diff = [i for i in idxs if got.get(str(i)) != digests[i]]
    return {"checked": len(idxs), "different": len(diff), "which": diff[:5],
            "how": "same run indices re-executed in a fresh interpreter under another PYTHONHASHSEED; "
                   "event-log digests compared"}


# ------------------------------------------------------------------ main entry
def check(pid, tier):
    t0 = MONO()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = load(pid)
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    runs = prop.runs[tier]
    cap = prop.cap.get(tier, {"quick": 200, "thorough": 3600}[tier]) if hasattr(prop, "cap") else \
        {"quick": 200, "thorough": 3600}[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    runs = max(workers, int(runs * scale))
    deadline = t0 + cap
    prep = getattr(prop, "prepare", None)
    if prep:
        prep()
    for l in known_findings(pid):
        print(l)
    agg = new_agg()
    found = None
    unrepro = []
    first = 0
    rounds = 0
    while first < runs and MONO() < deadline and found is None and rounds < 12:
        rounds += 1
        a, viol, died = search(pid, seed, tier, first, runs - first, deadline, workers)
        join_agg(agg, a)
        first = runs
        for i in died:
            if i < 0:
                continue
            plan = prop.gen(gen.rng_for(seed, pid, i), tier, i)
            path = write_replay(pid, seed, i, plan, ["process-died", ""], "worker process died")
            v = replay_fresh(path)
            if v:
                found = (i, path, v, 0)
                break
            os.unlink(path)
        if found:
            break
        done_idx = -1
        for item in viol:
            done_idx = max(done_idx, item["idx"])
            i = item["idx"]
            raw = write_replay(pid, seed, i, item["plan"], item["res"]["violation"], "unminimised")
            v = replay_fresh(raw)
            if not v:
                v = replay_fresh(raw)
            if not v:
                unrepro.append({"run": i, "violation": item["res"]["violation"]})
                os.unlink(raw)
                continue
            best = minimise_child(pid, item, 45 if tier == "quick" else 120)
            path, vv, steps = raw, v, 0
            if best is not None:
                mplan, mviol, steps = best
                mp_ = write_replay(pid, seed, i, mplan, mviol, "minimised in %d steps" % steps)
                mv = replay_fresh(mp_)
                if same_class(mv, mviol):
                    if mp_ != raw:
                        os.unlink(raw)
                    path, vv = mp_, mv
            found = (i, path, vv, steps)
            break
        if found is None and viol:
            first = done_idx + 1     # unreproducible: carry on behind it
            if len(unrepro) > 8:
                break
    det = determinism(pid, seed, tier, agg["digests"], 12 if tier == "quick" else 60) if found is None else None
    wall = MONO() - t0
    write_evidence(prop, pid, tier, seed, agg, wall, found, unrepro, det, workers)
    if found:
        i, path, v, steps = found
        print("run %d of seed %d: %s: %s" % (i, seed, v[0], str(v[1])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held on %d simulated runs (%d distinct non-trivial), faults fired %d, %.1fs" % (
        pid, agg["runs"], len(agg["sigs"]), sum(agg["faults"].values()), wall))
    return 0


def write_evidence(prop, pid, tier, seed, agg, wall, found, unrepro, det, workers):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    runs = agg["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(agg["sigs"]),
        "rule": prop.rule,
        "samples": agg["samples"],
        "runs_per_hour": int(runs / max(wall, 1e-6) * 3600),
        "seeds_per_hour": int(runs / max(wall, 1e-6) * 3600),
        "one_seed": "each run has its own seed derived from (VERIF_SEED, property, run index)",
        "nontrivial_runs": agg["nontrivial"],
        "simulated_seconds_covered": round(agg["simtime"], 1),
        "process_restarts_simulated": agg["restarts"],
        "events_recorded": agg["events"],
        "faults_fired": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["stats"].items())),
        "distinct_measure": prop.measure,
        "real_components": prop.real,
        "stub_components": prop.stub,
        "determinism": det,
        "unreproduced_alarms": unrepro,
        "workers": workers,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": 1 if found else 0}
    if found:
        ev["coverage"]["violation"] = {"run": found[0], "replay": found[1], "what": found[2],
                                       "minimisation_steps": found[3]}
    with open(os.path.join(d, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")

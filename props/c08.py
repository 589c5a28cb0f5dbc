"""C08: an interrupted or failed operation leaves no residue in the process."""
import os
import threading
import traceback

from sim import gen, sched
from sim.world import Interrupt, Violation, import_all
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, read_faults, write_faults
from . import kit


def cut(r):
    x = r.random()
    if x < 0.6:
        n = r.randrange(1, 12) if r.random() < 0.3 else int(10 ** r.uniform(0.3, 3.5))
        return {"n": n, "exc": r.choice(["KeyboardInterrupt", "MemoryError", "MemoryError", "EIO"])}
    if x < 0.8:
        f = read_faults(r, r.choice(["*", "data", "schema"]))
    else:
        f = write_faults(r, "*")
    if r.random() < 0.25:
        f[0]["act"] = r.choice(["KeyboardInterrupt", "MemoryError"])
    return {"faults": f}


class C08:
    runs = {"quick": 3500, "thorough": 120000}
    rule = ("one evaluation loads the package afresh, optionally warms it up, then cuts 1-3 operations (format lookup, "
            "read, save, merge, report, YAML load, command) off at an arbitrary executed line, with "
            "KeyboardInterrupt/MemoryError/OSError or an injected I/O failure, retries each one in the same process "
            "and performs unrelated operations (some in another thread); every retried and later result is compared "
            "with the reference model, i.e. with what a fresh process gives. non-trivial = a cut actually happened "
            "inside an operation")
    measure = "distinct event-log digests (operations, where they were cut, results) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST + "; locks are simulation locks, so a lock left held is detected instead of hanging"
    assumptions = ASSUME + ["interrupts arrive at executed source lines of the package (not inside third-party or "
                            "interpreter code, not on with/try/except/finally lines)"]

    def gen(self, r, tier, idx):
        st = kit.gen_stock(r, r.choice([0.0, 0.2]), 1)
        steps = []
        for _ in range(r.randrange(0, 2)):
            steps.append({"o": kit.op(r)})
        for _ in range(r.randrange(1, 4)):
            o = kit.op(r)
            cuts = [cut(r) for _ in range(r.choice([1, 1, 2]))]
            steps.append({"o": o, "cuts": cuts})
            for _ in range(r.randrange(0, 3)):
                steps.append({"o": kit.op(r), "thread": r.random() < 0.3})
        st.update(env=gen.env_plain(r), steps=steps, imported=r.random() < 0.7)
        return st

    def run(self, plan, ctx):
        w = ctx.w
        w.bufsize = max(w.bufsize, 64)
        K = kit.Kit(ctx, plan)
        K.files()
        K.bind()
        K.references([s["o"] for s in plan["steps"]])
        with sched.patched_locks():
            w.restart()
            if plan["imported"]:
                import_all()
        K.bind()
        ncut = 0
        env = dict(os.environ)
        before = w.process_state()
        between = []
        with sched.patched_locks():
            for si, s in enumerate(plan["steps"]):
                o = s["o"]
                for c in s.get("cuts", []):
                    v, e, fired = self.cut(ctx, K, o, c, "t%d" % si)
                    if fired:
                        between.append(w.process_state())
                    ctx.ev("cut", o["op"], exc_name(e) if e else "done", fired)
                    if fired:
                        ncut += 1
                        ctx.hit("cut-" + o["op"])
                    if e is None:
                        K.judge(o, v, "result-of-disturbed-operation")
                    elif not fired:
                        raise Violation("failed-without-cause", "%s: %r" % (o, e))
                    K.check_inputs("input-changed-by-interrupted-operation")
                v, e = self.plain(ctx, K, o, "t%d" % si, s.get("thread"))
                if e is not None:
                    raise Violation("retry-failed" if s.get("cuts") else "later-operation-failed", "%s: %s" % (
                        o["op"], "".join(traceback.format_exception(type(e), e, e.__traceback__))[-900:]))
                d = K.judge(o, v, "retry-differs" if s.get("cuts") else "later-operation-differs")
                ctx.ev(o["op"], d)
        K.check_inputs("input-changed")
        between.append(w.process_state())
        if any(x != before for x in between):
            # left by the cut, or what these operations always do to the process?
            w.set_process_state(before, env)
            w.restart()
            K.bind()
            usual = [before]
            for si, s in enumerate(plan["steps"]):
                attempt(lambda: K.do(s["o"], "t%d" % si))
                usual.append(w.process_state())
            w.set_process_state(before, env)
            for x in between:
                for k in before:
                    if all(x[k] != u[k] for u in usual):
                        raise Violation("process-changed", "%s: %r, before the interrupted operations it was %r" % (
                            k, x[k], before[k]))
        ctx.nontrivial = ncut > 0

    def cut(self, ctx, K, o, c, tag):
        w = ctx.w
        if "n" in c:
            it = Interrupt(w, c["n"], c["exc"])
            with it:
                v, e = attempt(lambda: K.do(o, tag))
            return v, e, it.fired
        w.arm(c["faults"])
        v, e = attempt(lambda: K.do(o, tag))
        return v, e, w.disarm()

    def plain(self, ctx, K, o, tag, thread):
        if not thread or o["op"].startswith("cli"):
            return attempt(lambda: K.do(o, tag))
        box = []
        with sched.real_locks():
            t = threading.Thread(target=lambda: box.append(attempt(lambda: K.do(o, tag))), daemon=True)
        t.start()
        t.join(20)
        if not box:
            raise Violation("no-progress", "%s in another thread does not finish" % o["op"])
        return box[0]


PROP = C08()

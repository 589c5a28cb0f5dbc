"""C07: observers (iterate, save, merge from, report) are safe while one thread keeps recording."""
import io
import json

from sim import build, gen, model, sched
from sim.live import Live, binof
from sim.world import Violation, import_all
from .common import ASSUME, REAL_ALL, read, save

OBS = ["iter", "iter", "save", "save", "merge", "merge", "report", "report", "json", "text", "hist", "dbwrite"]


class Recorder:
    """Performs elementary recording calls and knows, at every moment, what is surely/possibly in the database."""

    def __init__(self, L):
        self.L = L
        self.m = L.m
        self.lo = {}          # (i, g, ci, kind, item, bin, bkind) -> count, calls that have returned
        self.hi = {}          # ... including calls that have begun
        for p, key, c in flat(L.model):
            self.lo[p + key] = self.hi[p + key] = c
        self.al = {}
        self.hist_done = len(L.hist)
        self.hist_started = [h[0] for h in L.hist]

    def view_lo(self):
        return dict(self.lo), self.hist_done

    def view_hi(self):
        return dict(self.hi), list(self.hist_started)

    def incr(self, p, key, amt):
        k = tuple(p) + key
        b = binof(self.m, self.L.find(p), key)
        self.hi[k] += amt
        b.incrementCover(amt)
        self.lo[k] += amt
        self.L.group(p)[p[3]][p[4]]["bins"][key][0] += amt

    def create(self, p, key, count, capi):
        k = tuple(p) + key
        it = self.L.group(p)[p[3]][p[4]]
        al = next(iter(it["bins"].values()))[1]
        sc = self.L.find(p)
        self.hi[k] = count
        if capi:
            u = self.m.ucis
            cd = u.CoverData(build.kind_of(self.m, key[1]), 0)
            cd.data = count
            cd.at_least = al
            sc.createNextCover(key[0], cd, None)
        else:
            sc.createBin(key[0], None, al, count, key[0], build.kind_of(self.m, key[1]))
        self.lo[k] = count
        it["bins"][key] = [count, al]

    def op(self, o):
        L = self.L
        if o[0] == "inc":
            bs = L.bins()
            p, key = bs[o[1] % len(bs)]
            for q in levels(p):
                self.incr(q, key, o[2])
        elif o[0] == "bin":
            ls = L.leaves()
            p = ls[o[1] % len(ls)]
            key = (o[2], o[3])
            if key in L.group(p)[p[3]][p[4]]["bins"]:
                return
            for q in levels(p):
                if key in L.group(q)[q[3]][q[4]]["bins"]:
                    self.incr(q, key, o[4])
                else:
                    self.create(q, key, o[4], o[5])
        elif o[0] == "hist":
            self.hist_started.append(o[1]["logical"])
            build.add_history(self.m, L.db, o[1])
            L.hist.append(model.hist_rec(o[1]))
            self.hist_done += 1


def levels(p):
    return [p] if p[2] is None else [p, [p[0], p[1], None, p[3], p[4]]]


def flat(M):
    for i, I in M["insts"].items():
        for g, G in I["cgs"].items():
            for ci, C in [(None, G)] + list(G["insts"].items()):
                for kind in ("cps", "crs"):
                    for n, it in C[kind].items():
                        for key, (c, al) in it["bins"].items():
                            yield (i, g, ci, kind, n), key, c


def flat_dump(dump, what):
    out = {}
    shape = {}
    for inst, du, cgs in dump:
        for g in cgs:
            for ci, C in [(None, g)] + [(x[0], x) for x in g[4]]:
                for kind, items in (("cps", C[2]), ("crs", C[3])):
                    for n, w, on, bins in items:
                        sk = (inst, g[0], ci, kind, n)
                        if sk in shape:
                            raise Violation(what, "%r appears twice" % (sk,))
                        shape[sk] = (w, on)
                        for b, bk, c, al in bins:
                            k = (inst, g[0], ci, kind, n, b, bk)
                            if k in out:
                                raise Violation(what, "bin %r appears twice" % (k,))
                            out[k] = c
    return out, shape


class C07:
    runs = {"quick": 1500, "thorough": 80000}
    rule = ("one evaluation lets one thread record 4-14 increments, new bins and history records into an in-memory "
            "database while 1-3 observer threads iterate it, save it as XML (and read the result), merge from it and "
            "report it, under one seeded schedule with switch points at every line or bytecode instruction of the "
            "package, raw I/O and lock operations; each observation is checked against the recording calls that had "
            "returned when it began and those that had begun when it ended. non-trivial = the recorder made a call "
            "while some observation was in progress")
    measure = "distinct executed schedules (switch sequence plus observed values) of non-trivial runs"
    real = REAL_ALL + ", real threads"
    stub = "the thread scheduler (seeded, one thread at a time), threading.Lock/RLock, the raw file layer, clock, user"
    assumptions = ASSUME + ["one recorder; bins and history records are added, scopes are not",
                            "switches happen at line/bytecode boundaries of the package, at simulated I/O and at locks"]

    def gen(self, r, tier, idx):
        spice = 0.1
        uni = gen.universe(r, r.choice([1, 1, 2]), spice, wide=0)
        spec = gen.draw(r, uni, True, spice=spice, big=False)
        spec["hist"] = spec["hist"][:2]
        ops = []
        for k in range(r.randrange(4, 15)):
            x = r.random()
            if x < 0.5:
                ops.append(["inc", r.randrange(500), r.choice([1, 1, 1, 5, 2**31])])
            elif x < 0.85:
                ops.append(["bin", r.randrange(200), "n%d" % k, r.choice(["bin", "bin", "bin", "ign", "ill"]),
                            r.choice([0, 1, 7]), r.random() < 0.3])
            else:
                h = gen.hrec(r, 0, minimal=r.random() < 0.5)
                h["logical"] = "h%d_%s" % (k, h["logical"])
                ops.append(["hist", h])
        if r.random() < 0.3:
            # many calls on one item: an iteration over it cannot avoid overlapping with them
            o = r.randrange(200)
            ops = [["bin", o, "z%d" % k, "bin", 1, False] for k in range(r.randrange(6, 20))]
        obs = [[r.choice(OBS) for _ in range(r.randrange(1, 4))] for _ in range(r.choice([1, 1, 2, 3]))]
        s = sched.policies(r)
        if r.random() < 0.4:
            s = {"seed": r.getrandbits(48), "gran": s["gran"], "pol": "rand", "p": r.choice([0.3, 0.1, 0.03])}
        return {"env": gen.env_plain(r), "db": spec, "kind": r.choice(["mem", "xml"]), "ops": ops, "obs": obs,
                "sched": s}

    def run(self, plan, ctx):
        w = ctx.w
        w.bufsize = max(w.bufsize, 512)
        with sched.patched_locks():
            w.fresh()
            import_all()
        m = ctx.m
        for n in ("ucis", "mem_factory", "xml_factory", "merge", "rgy", "builder", "rpt_text", "rpt_json",
                  "scope_t", "cover_t", "hnk", "tst", "xml_reader", "xml_writer"):
            getattr(m, n)
        L = Live(m, plan["db"], plan["kind"])
        R = Recorder(L)
        base = {}
        for i, I in L.model["insts"].items():
            for g, G in I["cgs"].items():
                for ci, C in [(None, G)] + list(G["insts"].items()):
                    for kind in ("cps", "crs"):
                        for n, it in C[kind].items():
                            base[(i, g, ci, kind, n)] = (it["w"], tuple(it["on"]) if "on" in it else None)
        base_saved = {}
        typeonly = {(i, g) for i, I in L.model["insts"].items() for g, G in I["cgs"].items() if not G["insts"]}
        for (i, g, ci, kind, n), v in base.items():
            base_saved[(i, g, ci, kind, n)] = v
            if (i, g) in typeonly:
                base_saved[(i, g, g, kind, n)] = v
        S = sched.Sched(plan["sched"])
        calls = [0]
        overlap = [0]

        def bounds(what, got, lo, hi):
            for k, v in lo.items():
                if k not in got:
                    raise Violation(what, "bin %r, recorded before the observation began, is missing" % (k,))
                if got[k] < v:
                    raise Violation(what, "bin %r: saw %r, but %r had been recorded before the observation began"
                                    % (k, got[k], v))
            for k, v in got.items():
                if k not in hi:
                    raise Violation(what, "bin %r was never recorded" % (k,))
                if v > hi[k]:
                    raise Violation(what, "bin %r: saw %r, but only %r was ever recorded" % (k, v, hi[k]))

        def shape_eq(what, got, want):
            if got != want:
                k = sorted((x for x in set(got) | set(want) if got.get(x) != want.get(x)), key=repr)[0]
                raise Violation(what, "item %r: expected %r, got %r" % (k, want.get(k), got.get(k)))

        def hist_ok(what, got, done0, final, started):
            """got: dump_hist tuples; `final` complete records (filled in order)."""
            if len(got) < done0:
                raise Violation(what, "%d history records seen, %d were complete before" % (len(got), done0))
            if [h[0] for h in got] != started[:len(got)]:
                raise Violation(what, "history %r, recorded were %r" % ([h[0] for h in got], started))
            if tuple(got[:done0]) != tuple(final[:done0]):
                raise Violation(what, "a history record completed before the observation differs")

        def saved_view(d, drop_type):
            """Expectation for a saved file: instance level only (type level is derived from it)."""
            out = {}
            for k, v in d.items():
                if (k[0], k[1]) in typeonly:
                    out[(k[0], k[1], k[1]) + k[3:]] = v
                elif k[2] is not None:
                    out[k] = v
            return out

        def check_loaded(what, db, lo, hi, done0, final, started):
            got, shape = flat_dump(model.dump_db(m, db), what)
            shape_eq(what, shape, base_saved)
            inst = {k: v for k, v in got.items() if k[2] is not None}
            bounds(what, inst, saved_view(lo, True), saved_view(hi, True))
            tot = {}
            for k, v in inst.items():
                q = (k[0], k[1], None) + k[3:]
                tot[q] = tot.get(q, 0) + v
            if tot != {k: v for k, v in got.items() if k[2] is None}:
                raise Violation(what, "type-level counts of the saved database are not the sum of its instances")
            hist_ok(what, model.dump_hist(m, db), done0, final, started)

        def observe(t, n, kind):
            lo, done0 = R.view_lo()
            c0 = calls[0]
            db = L.db
            res = None
            if kind == "iter":
                res = model.dump_db(m, db)
            elif kind == "hist":
                res = model.dump_hist(m, db)
            elif kind in ("save", "dbwrite"):
                f = "o%d_%d.xml" % (t, n)
                if kind == "dbwrite" and L.kind == "xml":
                    save(ctx, db, "dbwrite", f)
                else:
                    save(ctx, db, "stringio" if n % 2 else "path", f)
                res = f
            elif kind == "merge":
                res = m.mem_factory.MemFactory.create()
                ctx.tool(m.merge.DbMerger).merge(res, [db])
            elif kind == "report":
                res = m.builder.CoverageReportBuilder.build(db)
            elif kind == "json":
                s = io.StringIO()
                ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("json").fmt_if).report(db, s, [])
                res = s.getvalue()
            elif kind == "text":
                s = io.StringIO()
                ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("txt").fmt_if).report(db, s, [])
                res = s.getvalue()
            hi, started = R.view_hi()
            if calls[0] != c0:
                overlap[0] += 1
            return kind, res, lo, hi, done0, started

        obs = []

        def observer(t, kinds):
            def go():
                out = []
                for n, k in enumerate(kinds):
                    out.append(observe(t, n, k))
                return out
            return go

        def recorder():
            for o in plan["ops"]:
                calls[0] += 1
                R.op(o)
                calls[0] += 1

        w.sched = S
        try:
            res = S.run([recorder] + [observer(t, k) for t, k in enumerate(plan["obs"])])
        finally:
            w.sched = None
            ctx.sched_record = S.record
        for t, (v, e) in enumerate(res):
            if isinstance(e, Violation):
                raise e
            if e is not None:
                import traceback
                tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
                raise Violation("observer-failed" if t else "recorder-failed", "%r %s" % (e, tb[-700:]))
        L.check("recorder-data-affected")
        final = [tuple(h) for h in L.hist]
        for t, (v, e) in enumerate(res[1:]):
            for kind, val, lo, hi, done0, started in v:
                what = "observation-" + kind
                ctx.hit("obs-" + kind)
                if kind == "iter":
                    got, shape = flat_dump(val, what)
                    shape_eq(what, shape, base)
                    bounds(what, got, lo, hi)
                    ctx.ev(kind, sorted(got.items(), key=repr))
                elif kind == "hist":
                    hist_ok(what, val, done0, final, started)
                    ctx.ev(kind, len(val))
                elif kind in ("save", "dbwrite"):
                    db = read(ctx, "path", val)
                    check_loaded(what, db, lo, hi, done0, final, started)
                    ctx.ev(kind, w.get(val))
                elif kind == "merge":
                    got, shape = flat_dump(model.dump_db(m, val), what)
                    shape_eq(what, shape, base)
                    bounds(what, got, lo, hi)
                    ctx.ev(kind, sorted(got.items(), key=repr))
                elif kind in ("report", "json"):
                    d = model.dump_report(val) if kind == "report" else \
                        model.dump_json_report(json.loads(val), what)
                    self.check_report(what, d, lo, hi, L)
                    ctx.ev(kind, repr(d))
                elif kind == "text":
                    lines = [l for l in val.split("\n") if l.strip()]
                    n = len(model.expect_text(model.report_of(L.model), 1, 1))
                    if len(lines) != n:
                        raise Violation(what, "text report has %d lines, %d items are recorded" % (len(lines), n))
                    ctx.ev(kind, val)
        ctx.ev("sched", S.record, S.step)
        ctx.hit("preemptions", S.switches)
        ctx.hit("overlapping-observations", overlap[0])
        ctx.nontrivial = overlap[0] > 0

    def check_report(self, what, d, lo, hi, L):
        """Reports do not name the design instance: compare per (covergroup, instance, item) as multisets of groups."""
        def sig(i, g):
            return i

        def items(g, ci):
            for kind in ("cps", "crs"):
                for x in g[kind]:
                    for f, bk in (("bins", "bin"), ("ign", "ign"), ("ill", "ill")):
                        for b, al, c in x[f]:
                            yield (ci, kind, x["name"], b, bk), c

        cands = [(i, g) for i, I in L.model["insts"].items() for g in I["cgs"]]
        if len(d["groups"]) != len(cands):
            raise Violation(what, "%d covergroups reported, %d recorded" % (len(d["groups"]), len(cands)))

        def fits(g, i, gn):
            if g["name"] != gn:
                return "name"
            got = {}
            for ci, C in [(None, g)] + [(x["name"], x) for x in g["insts"]]:
                for k, c in items(C, ci):
                    if k in got:
                        return "bin %r reported twice" % (k,)
                    got[k] = c
            l = {k[2:]: v for k, v in lo.items() if k[0] == i and k[1] == gn}
            h = {k[2:]: v for k, v in hi.items() if k[0] == i and k[1] == gn}
            for k, v in l.items():
                if k[1] == "crs" and k[4] != "bin":
                    continue            # reports list only the normal bins of crosses
                if k not in got:
                    return "bin %r recorded before is missing" % (k,)
                if got[k] < v:
                    return "bin %r: %r reported, %r recorded before" % (k, got[k], v)
            for k, v in got.items():
                if k not in h or v > h[k]:
                    return "bin %r: %r reported, never recorded" % (k, v)
            return None
        def figures(g, i, gn):
            """Coverage figures must follow from counts the bins held at some moment of the observation."""
            for ci, C in [(None, g)] + [(x["name"], x) for x in g["insts"]]:
                num = den = 0
                for kind in ("cps", "crs"):
                    for x in C[kind]:
                        lh = hh = 0
                        for b, al, c in x["bins"]:
                            k = (i, gn, ci, kind, x["name"], b, "bin")
                            lh += k in lo and lo[k] >= al
                            hh += hi[k] >= al
                        n = len(x["bins"])
                        if n and not (100.0 * lh / n - 1e-6 <= x["cov"] <= 100.0 * hh / n + 1e-6):
                            raise Violation(what, "%r: coverage %r; of its %d listed bins %d were covered before the "
                                            "observation and %d after" % (x["name"], x["cov"], n, lh, hh))
                        if not n and x["cov"] != 0:
                            raise Violation(what, "%r: coverage %r without bins" % (x["name"], x["cov"]))
                        if x["w"] is not None:
                            num += x["cov"] * x["w"]
                            den += x["w"]
                if den and not model.close(num / den, C["cov"]):
                    raise Violation(what, "%r: coverage %r, its items give %r" % (C["name"], C["cov"], num / den))

        left = list(cands)
        for g in d["groups"]:
            why = None
            for c in left:
                f = fits(g, *c)
                if f is None:
                    left.remove(c)
                    if sum(1 for x in cands if x[1] == g["name"]) == 1:
                        figures(g, *c)
                    break
                if f != "name":
                    why = f
            else:
                # greedy matching can pick the wrong twin only if two design instances hold equally named
                # covergroups; then try all of them
                if sum(1 for c in cands if c[1] == g["name"]) > 1 and any(fits(g, *c) is None for c in cands):
                    continue
                raise Violation(what, "covergroup %r: %s" % (g["name"], why or "unknown"))


PROP = C07()

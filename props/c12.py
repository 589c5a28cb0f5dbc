"""C12: results are snapshots; later changes do not leak between databases or into reports."""

from sim import gen, model
from sim.live import Live, binof
from sim.world import Interrupt, Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, mutation, read, save
from . import kit


def gen_op(r):
    x = r.random()
    o = {"slot": r.randrange(30), "at": r.randrange(1000)}
    if x < 0.3:
        o.update(op="mutate", muts=[mutation(r, 0.1) for _ in range(r.randrange(1, 4))])
    elif x < 0.4:
        o.update(op="opt", what=r.choice(["Goal", "AtLeast", "AutoBinMax", "Comment", "DetectOverlap", "Strobe",
                                          "Weight"]), v=r.randrange(2, 99))
    elif x < 0.48:
        o.update(op="extend", what=r.choice(["cg", "cp", "ci", "inst", "cross"]), n="ext%d" % r.randrange(1000))
    elif x < 0.53:
        o.update(op="poke", v=r.randrange(0, 99))
    elif x < 0.66:
        o.update(op="merge", slots=[r.randrange(30) for _ in range(r.randrange(1, 4))], again=r.random() < 0.4)
    elif x < 0.76:
        o.update(op="read", file=r.choice(["a.xml", "b.xml", "c.xml.gz"]), via=r.choice(["path", "rgy"]))
    elif x < 0.82:
        o.update(op="reload", via=r.choice(["path", "stringio"]))
    elif x < 0.87:
        o.update(op="yaml", via=r.choice(["loads", "rgy"]))
    elif x < 0.95:
        o.update(op="report")
    else:
        o.update(op="hist", h=gen.hrec(r, 0.1))
    if o["op"] in ("merge", "read", "reload", "report") and r.random() < 0.15:
        o["int"] = {"n": int(10 ** r.uniform(0, 3.2)), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
    return o


def options(s):
    out = []
    for k in ("Goal", "AtLeast", "AutoBinMax", "Comment", "DetectOverlap", "Strobe", "Weight", "PerInstance",
              "MergeInstances"):
        f = getattr(s, "get" + k, None)
        if f is not None:
            try:
                out.append(repr(f()))
            except (NotImplementedError, AttributeError):
                out.append(None)
    return tuple(out)


def full(m, db):
    """Everything observable about a database (coverage, options, history)."""
    def scope(s):
        bins = ()
        on = ()
        if hasattr(s, "coverItems"):
            bins = tuple((b.getName(), tuple(sorted((k, repr(v)) for k, v in vars(b.getCoverData()).items())))
                         for b in s.coverItems(-1))
        if hasattr(s, "getNumCrossedCoverpoints"):
            on = tuple(s.getIthCrossedCoverpoint(i).getScopeName() for i in range(s.getNumCrossedCoverpoints()))
        du = None
        if hasattr(s, "getInstanceDu") and s.getInstanceDu() is not None:
            du = s.getInstanceDu().getScopeName()
        return (s.getScopeName(), int(s.getScopeType()), options(s), du, on, bins,
                tuple(scope(c) for c in s.scopes(-1)))
    return tuple(scope(c) for c in db.scopes(-1)), model.dump_hist(m, db)


class C12:
    runs = {"quick": 4000, "thorough": 140000}
    rule = ("one evaluation derives databases from one another by merging, reading the same files repeatedly, "
            "save/reload and YAML loading, and reports from them, with some of these steps interrupted, and in "
            "between records into, re-weights, re-optionises and extends arbitrary ones; after each change every "
            "other database (all scopes, options, bins, history) and every earlier report must be exactly as before, "
            "and the changed one must match its reference model. non-trivial = a database was changed while another "
            "one derived from it, or from the same file, existed")
    measure = "distinct event-log digests (derivations, changes, contents) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["source locations and file handles are not coverage data and may be shared"]

    def gen(self, r, tier, idx):
        st = kit.gen_stock(r, 0.1, 1)
        st.update(env=gen.env_plain(r), ops=[gen_op(r) for _ in range(r.randrange(6, 20))])
        return st

    def run(self, plan, ctx):
        w, m = ctx.w, ctx.m
        K = kit.Kit(ctx, plan)
        K.files()
        slots = [Live(m, s) for s in plan["dbs"]]
        snap = [full(m, s.db) for s in slots]
        reports = []
        keen = False
        u = m.ucis
        for n, o in enumerate(plan["ops"]):
            i = o["slot"] % len(slots)
            S = slots[i]
            k = o["op"]
            changed = None
            if k == "mutate":
                if not S.bins():
                    continue
                S.mutate(o["muts"])
                changed = i
            elif k == "hist":
                S.add_history(o["h"])
                changed = i
            elif k == "opt":
                sc = self.scopes(m, S.db)
                x = sc[o["at"] % len(sc)]
                if not sc or not S.leaves():
                    continue
                if o["what"] == "Weight":
                    S.set_weight(o["at"], o["v"])
                elif hasattr(x, "set" + o["what"]):
                    getattr(x, "set" + o["what"])(str(o["v"]) if o["what"] == "Comment" else o["v"])
                changed = i
            elif k == "poke":
                bs = S.bins()
                if not bs:
                    continue
                p, key = bs[o["at"] % len(bs)]
                binof(m, S.find(p), key).getCoverData().data = o["v"]
                S.group(p)[p[3]][p[4]]["bins"][key][0] = o["v"]
                changed = i
            elif k == "extend":
                self.extend(m, S, o)
                changed = i
            elif k == "report":
                r, e = self.maybe(ctx, o, lambda: m.builder.CoverageReportBuilder.build(S.db))
                if e is None:
                    d = model.dump_report(r)
                    model.cmp_report(model.report_of(S.model), d, "report-differs")
                    reports.append((r, repr(d)))
            else:
                L = None
                for rep in range(2 if o.get("again") else 1):
                    if k == "merge":
                        src = [slots[x % len(slots)] for x in o["slots"]]
                        if any(getattr(x, "mixed", False) for x in src):
                            continue

                        def go():
                            dst = m.mem_factory.MemFactory.create()
                            ctx.tool(m.merge.DbMerger).merge(dst, [x.db for x in src])
                            return dst
                        M, H = model.merge([x.model for x in src]), []
                    elif k == "read":
                        go = lambda: read(ctx, o["via"], o["file"])
                        M, H = K.fmodel[o["file"]]
                    elif k == "reload":
                        f = "r%d.xml" % n

                        def go():
                            save(ctx, S.db, o["via"], f)
                            return read(ctx, "path", f)
                        if not self.expressible(S):
                            continue
                        M, H = model.saved(S.model), S.hist
                    elif k == "yaml":
                        if o["via"] == "loads":
                            go = lambda: ctx.tool(m.yaml_reader.YamlReader).loads(w.get("y.yml").decode())
                        else:
                            go = lambda: ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("yaml").fmt_if).read(w.path("y.yml"))
                        M, H = K.fmodel["y.yml"][0], []
                    db, e = self.maybe(ctx, o, go)
                    if e is not None:
                        continue
                    model.check_db(m, db, M, "derived-database-differs")
                    L = Live.wrap(m, db, M, H)
                    slots.append(L)
                    snap.append(full(m, db))
                    ctx.hit("derived-" + k)
            ctx.ev(k, i)
            if changed is not None:
                if len(slots) > 2:
                    keen = True
                model.check_db(m, S.db, S.model, "changed-database-differs")
                snap[changed] = full(m, S.db)
            for j, x in enumerate(slots):
                f = full(m, x.db)
                if f != snap[j]:
                    raise Violation("change-leaked", "database %d changed when %s was applied to %d: %s" % (
                        j, k, i, model.diff(snap[j], f)))
            for r, d in reports:
                if repr(model.dump_report(r)) != d:
                    raise Violation("report-changed", "an earlier report changed when %s was applied to %d" % (k, i))
        for s in slots:
            model.check_db(m, s.db, s.model, "database-differs")
        ctx.ev(snap[-1])
        ctx.nontrivial = keen

    def expressible(self, S):
        return all(I["cgs"] and all(
            all(x["cps"] and all(y["bins"] for kk in ("cps", "crs") for y in x[kk].values())
                for x in (list(g["insts"].values()) or [g])) for g in I["cgs"].values())
            for I in S.model["insts"].values()) and not getattr(S, "mixed", False) and len(S.hist) > 0

    def maybe(self, ctx, o, go):
        if not o.get("int"):
            return attempt_or_raise(go)
        it = Interrupt(ctx.w, o["int"]["n"], o["int"]["exc"])
        with it:
            v, e = attempt(go)
        if e is not None and not it.fired:
            raise e
        return v, e

    def scopes(self, m, db):
        out = []

        def rec(s):
            for c in s.scopes(-1):
                if hasattr(c, "getGoal"):
                    out.append(c)
                rec(c)
        rec(db)
        return out

    def extend(self, m, S, o):
        u = m.ucis
        M = S.model["insts"]
        n = o["n"]
        i = list(M)[o["at"] % len(M)]
        what = o["what"]
        if what == "inst":
            if n in M:
                return
            du = S.db.createScope("xdu", None, 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, 0)
            S.db.createInstance(n, None, 1, u.UCIS_OTHER, u.UCIS_INSTANCE, du, 0)
            M[n] = {"du": "xdu", "cgs": {}}
            return
        I = M[i]
        inst = [s for s in S.db.scopes(m.scope_t.ScopeTypeT.INSTANCE) if s.getScopeName() == i][0]
        if what == "cg" or not I["cgs"]:
            if n in I["cgs"]:
                return
            inst.createCovergroup(n, None, 3, u.UCIS_OTHER)
            I["cgs"][n] = {"w": 3, "cps": {}, "crs": {}, "insts": {}}
            return
        g = list(I["cgs"])[o["at"] % len(I["cgs"])]
        G = I["cgs"][g]
        cg = S.find([i, g, None, None, None])
        if what == "ci":
            if n in G["insts"]:
                return
            S.mixed = True
            cg.createCoverInstance(n, None, 2, u.UCIS_OTHER)
            G["insts"][n] = {"w": 2, "cps": {}, "crs": {}, "insts": {}}
            return
        if n in G["cps"] or n in G["crs"]:
            return
        S.mixed = True
        if what == "cp" or not G["cps"]:
            cg.createCoverpoint(n, None, 4, u.UCIS_OTHER).createBin("b", None, 1, 5, "b")
            G["cps"][n] = {"w": 4, "bins": {("b", "bin"): [5, 1]}}
        else:
            on = list(G["cps"])[:2]
            pts = [S.find([i, g, None, "cps", x]) for x in on]
            cg.createCross(n, None, 4, u.UCIS_OTHER, pts).createBin("b", None, 1, 5, "b")
            G["crs"][n] = {"w": 4, "on": on, "bins": {("b", "bin"): [5, 1]}}


def attempt_or_raise(go):
    return go(), None


PROP = C12()

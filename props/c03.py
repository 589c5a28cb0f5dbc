"""C03: merging counts every source exactly once, in any order and grouping."""
import copy

from sim import build, gen, model
from sim.runner import default_shrinks
from sim.world import Interrupt, Violation
from .common import (ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, hard, read, read_faults, save, write_faults)


def cap_counts(spec, lim):
    for i in spec["insts"]:
        for g in i["cgs"]:
            for h in ([g] if g["mode"] == "type" else g["insts"]):
                for key in ("cps", "crs"):
                    for x in h[key]:
                        for b in x["bins"]:
                            b[2] = min(b[2], lim)


def tree(r, leaves, mode, depth=0):
    """A random grouping of `leaves` into nested merges."""
    if len(leaves) == 1 and depth > 0 and r.random() < 0.85:
        return {"k": "leaf", "s": leaves[0]}
    if len(leaves) <= 2 or depth >= 3 or r.random() < 0.3:
        kids = [{"k": "leaf", "s": x} for x in leaves]
    else:
        kids, rest = [], list(leaves)
        while rest:
            n = r.randrange(1, len(rest) + 1)
            if depth == 0 and n == len(leaves) and len(leaves) > 1:
                n -= 1
            kids.append(tree(r, rest[:n], mode, depth + 1))
            rest = rest[n:]
    kinds = {"mem": ["mem"], "file": ["cli", "cli", "file"], "mix": ["mem", "mem", "cli", "file"]}[mode]
    t = {"k": r.choice(kinds), "kids": kids}
    if r.random() < 0.3:
        if t["k"] == "mem":
            t["int"] = {"n": r.randrange(1, 60) if r.random() < 0.3 else r.randrange(1, 1200),
                        "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
        else:
            t["faults"] = write_faults(r) if r.random() < 0.5 else read_faults(r)
    if r.random() < 0.15:
        t["restart"] = True
    if r.random() < 0.3:
        t["dst"] = "xml"
    return t


class C03:
    runs = {"quick": 2200, "thorough": 200000}
    rule = ("one evaluation records 1-6 source databases over a shared shape (some holding the same instance or "
            "covergroup twice), then merges the same multiset of sources in 2-4 different orders and groupings - in "
            "memory, through files, and by the command line - with interrupts, I/O faults, retries and restarts "
            "(one plan in fifty merges up to 260 sources at once); every result is compared with the reference sum and "
            "all sources with their state before. non-trivial = at least two groupings of at least two sources agreed with the model")
    measure = "distinct event-log digests (grouping outcomes, faults, merged contents) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["equally named items have equal shape options (weight, at_least, crossed coverpoints) in "
                            "all sources", "the destination of a merge starts empty"]

    def gen(self, r, tier, idx):
        mode = r.choice(["mem", "mem", "file", "mix"])
        spice = r.choice([0.0, 0.25])
        uni = gen.universe(r, r.choice([1, 1, 2, 3]), spice, mode="inst" if mode == "mix" else None)
        ns = r.choice([1, 2, 2, 3, 3, 4, 6])
        dbs, sources = [], []
        for _ in range(ns):
            k = 1 if r.random() < 0.8 else 2
            idxs = []
            for _ in range(k):
                s = gen.draw(r, uni, hist=r.random() < 0.5, spice=spice)
                cap_counts(s, 2**60 if mode == "mem" else 2**53)
                idxs.append(len(dbs))
                dbs.append(s)
            sources.append(idxs)
        leaves = list(range(ns))
        if r.random() < 0.3:
            leaves += [r.randrange(ns) for _ in range(r.randrange(1, 3))]     # a source listed twice
        trees = []
        for _ in range(r.randrange(2, 5)):
            r.shuffle(leaves)
            trees.append(tree(r, list(leaves), mode))
        if r.random() < 0.02:
            # one merge of very many sources against the same ones merged in two halves
            n = r.choice([33, 65, 70, 129, 140, 260])
            wide = [{"k": "leaf", "s": r.randrange(ns)} for _ in range(n)]
            k = "mem" if mode == "mem" else r.choice(["cli", "file"])
            cut = r.randrange(1, n)
            trees = [{"k": k, "kids": wide},
                     {"k": k, "kids": [{"k": k, "kids": wide[:cut]}, {"k": k, "kids": wide[cut:]}]}]
        return {"env": gen.env_plain(r), "dbs": dbs, "sources": sources, "mode": mode, "trees": trees}

    def shrinks(self, plan):
        T = plan["trees"]
        if len(T) > 1:
            for i in range(len(T)):
                q = dict(plan)
                q["trees"] = [T[i]]
                yield q

        def nodes(t, path=()):
            yield path, t
            for i, k in enumerate(t.get("kids", [])):
                yield from nodes(k, path + (i,))
        for ti, t in enumerate(T):
            for path, n in list(nodes(t)):
                for key in ("faults", "int", "restart", "dst"):
                    if key in n:
                        q = copy.deepcopy(plan)
                        x = q["trees"][ti]
                        for p in path:
                            x = x["kids"][p]
                        x.pop(key)
                        yield q
                if len(n.get("kids", [])) > 1:
                    for i in range(len(n["kids"])):
                        q = copy.deepcopy(plan)
                        x = q["trees"][ti]
                        for p in path:
                            x = x["kids"][p]
                        del x["kids"][i]
                        yield q
        for i, s in enumerate(plan["sources"]):
            if len(s) > 1:
                q = copy.deepcopy(plan)
                q["sources"][i] = s[:1]
                yield q
        yield from default_shrinks({k: v for k, v in plan.items()})

    def run(self, plan, ctx):
        w = ctx.w
        mode = plan["mode"]
        env = {"live": {}, "n": 0}
        models = []
        for s in plan["sources"]:
            ms = [model.model_of(plan["dbs"][i]) for i in s]
            models.append((model.merge(ms), model.merge([model.saved(x) for x in ms])))

        def source_db(i):
            if i not in env["live"]:
                db = None
                for k in plan["sources"][i]:
                    db = build.build(ctx.m, plan["dbs"][k], db)
                env["live"][i] = (db, model.dump_db(ctx.m, db), model.dump_hist(ctx.m, db))
            return env["live"][i][0]

        def restart():
            w.restart()
            env["live"] = {}

        if mode != "mem":
            for i in range(len(plan["sources"])):
                save(ctx, source_db(i), "path", "s%d.xml" % i)
            docs = {"s%d.xml" % i: w.get("s%d.xml" % i) for i in range(len(plan["sources"]))}

        def check_sources():
            for i, (db, d, h) in env["live"].items():
                if model.dump_db(ctx.m, db) != d or model.dump_hist(ctx.m, db) != h:
                    raise Violation("source-changed", "source %d was changed by a merge: %s" % (
                        i, model.diff(d, model.dump_db(ctx.m, db))))
            if mode != "mem":
                for n, b in docs.items():
                    if not w.exists(n) or w.get(n) != b:
                        raise Violation("source-file-changed", n)

        def fresh_name():
            env["n"] += 1
            return "m%d.xml" % env["n"]

        def ev(t):
            """-> (kind, value, model); intermediate results live in files unless the node merges in memory."""
            if t["k"] == "leaf":
                i = t["s"]
                if mode == "file":
                    return ("file", "s%d.xml" % i, models[i][1])
                return ("src", i, models[i][0])
            kids = [ev(k) for k in t["kids"]]
            want = model.merge([k[2] if t["k"] == "mem" else model.saved(k[2]) for k in kids])
            if t.get("restart") and not any(k[0] == "db" for k in kids):
                restart()
            if t["k"] == "mem":
                def dbs():
                    out = []
                    for k in kids:
                        if k[0] == "db":
                            out.append(k[1])
                        elif k[0] == "src":
                            out.append(source_db(k[1]))
                        else:
                            out.append(read(ctx, "path", k[1]))
                    return out
                srcs = dbs()

                def newdst():
                    if t.get("dst") == "xml":
                        return ctx.m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()
                    return ctx.m.mem_factory.MemFactory.create()
                dst = newdst()
                if t.get("int"):
                    it = Interrupt(w, t["int"]["n"], t["int"]["exc"])

                    def go():
                        with it:
                            ctx.tool(ctx.m.merge.DbMerger).merge(dst, srcs)
                    _, e = attempt(go)
                    ctx.ev("merge", exc_name(e) if e else "ok", it.fired)
                    if e is not None:
                        if it.fired is None:
                            raise Violation("merge-failed", repr(e))
                        check_sources()
                        ctx.hit("interrupted-merge-retried")
                        dst = newdst()
                        ctx.tool(ctx.m.merge.DbMerger).merge(dst, srcs)
                else:
                    _, e = attempt(lambda: ctx.tool(ctx.m.merge.DbMerger).merge(dst, srcs))
                    if e is not None:
                        raise Violation("merge-failed", repr(e))
                model.check_db(ctx.m, dst, want, "merge-result")
                ctx.hit("merge-mem")
                return ("db", dst, want)
            names = []
            for k in kids:
                if k[0] == "file":
                    names.append(k[1])
                elif k[0] == "src":
                    names.append("s%d.xml" % k[1])
                else:
                    n = fresh_name()
                    save(ctx, k[1], "path", n)
                    names.append(n)
            out = fresh_name()

            def once():
                if t["k"] == "cli":
                    rc, so, se = w.cli(["merge", "-o", out] + names)
                    if rc != 0:
                        raise RuntimeError("exit %d: %s" % (rc, se[-300:]))
                else:
                    srcs = [read(ctx, "path", n) for n in names]
                    dst = ctx.m.mem_factory.MemFactory.create()
                    ctx.tool(ctx.m.merge.DbMerger).merge(dst, srcs)
                    save(ctx, dst, "path", out)
            w.arm(t.get("faults"))
            _, e = attempt(once)
            fired = w.disarm()
            ctx.ev("merge", t["k"], exc_name(e) if e else "ok", fired)
            if e is not None:
                if not hard(fired):
                    raise Violation("merge-failed", repr(e))
                ctx.hit("failed-merge-retried")
                _, e = attempt(once)
                if e is not None:
                    raise Violation("merge-retry-failed", repr(e))
            ctx.hit("merge-" + t["k"])
            return ("file", out, model.saved(want))

        ok = 0
        for t in plan["trees"]:
            kind, val, want = ev(t)
            db = val if kind == "db" else (read(ctx, "path", val) if kind == "file" else source_db(val))
            model.check_db(ctx.m, db, want, "merge-result")
            check_sources()
            ctx.ev("content", model.dump_db(ctx.m, db))
            ok += 1
        ctx.nontrivial = ok >= 2 and len(plan["sources"]) > 1


PROP = C03()

"""C06: threads that work on separate databases do not disturb each other."""
import argparse
import io
import json

from sim import gen, model, sched, yamldoc
from sim.live import Live
from sim.world import Violation, import_all
from .common import ASSUME, REAL_ALL, mutation, read, save

OPS = ["rec", "save", "read", "merge", "report", "text", "json", "yaml", "rgy", "cmd_merge", "cmd_convert",
       "cmd_report", "mutate", "form"]


def op(r):
    k = r.choice(OPS)
    o = {"op": k}
    if k == "save":
        o["via"] = r.choice(["path", "stringio", "stream", "dbwrite"])
    elif k == "read":
        o["via"] = r.choice(["path", "rgy", "bytesio", "rb", "text"])
    elif k == "mutate":
        o["muts"] = [mutation(r, 0) for _ in range(r.randrange(1, 4))]
    elif k == "cmd_report":
        o["of"] = r.choice(["json", "txt"])
    elif k == "yaml":
        o["via"] = r.choice(["loads", "rgy"])
    return o


class C06:
    runs = {"quick": 1500, "thorough": 100000}
    rule = ("one evaluation starts 2-4 threads in a freshly loaded package, each recording, saving, reading, merging, "
            "reporting, loading YAML or calling the command implementations on databases and files of its own, under "
            "one seeded schedule with switch points at every line or bytecode instruction of the package, every raw "
            "I/O operation and every lock operation; every result is compared with the reference model. non-trivial "
            "= at least one preemption inside the package")
    measure = ("distinct_nontrivial counts distinct executed schedules (sequence of step/thread switches plus results) "
               "of non-trivial runs; probes give preemption counts")
    real = REAL_ALL + ", real threads"
    stub = "the thread scheduler (seeded, one thread at a time), threading.Lock/RLock, the raw file layer, clock, user"
    assumptions = ASSUME + ["switches happen at line/bytecode boundaries of the package, at simulated I/O and at locks; "
                            "third-party and interpreter code runs without preemption", "all modules are imported "
                            "before the threads start"]

    def gen(self, r, tier, idx):
        n = r.choice([2, 2, 2, 3, 4])
        spice = 0.1
        dbs = [gen.draw(r, gen.universe(r, 1, spice, wide=0), spice=spice, big=False) for _ in range(n)]
        ymls = [yamldoc.generate(r, 1, spice) for _ in range(n)]
        for y in ymls:
            y["cgs"] = y["cgs"][:1]
            y["cgs"][0]["insts"] = y["cgs"][0]["insts"][:1]
        if r.random() < 0.3:
            # everybody does the same thing at once: first use of one facility
            o = op(r)
            threads = [[dict(o)] for _ in range(n)]
        else:
            threads = [[op(r) for _ in range(r.randrange(1, 4))] for _ in range(n)]
            if r.random() < 0.4:
                # the same beginning, different continuations
                o = op(r)
                if r.random() < 0.4:
                    o = {"op": "yaml", "via": r.choice(["loads", "rgy"])}
                for t in threads:
                    t[0] = dict(o)
        if r.random() < 0.25:
            # equal names everywhere: nothing may be keyed by name across databases
            dbs = [json.loads(json.dumps(dbs[0])) for _ in range(n)]
            for k, s in enumerate(dbs):
                for i in s["insts"]:
                    for g in i["cgs"]:
                        for h in ([g] if g["mode"] == "type" else g["insts"]):
                            for x in h["cps"] + h["crs"]:
                                for b in x["bins"]:
                                    b[2] = b[2] + k * 1000
        return {"env": gen.env_plain(r), "dbs": dbs, "ymls": ymls, "threads": threads, "sched": sched.policies(r)}

    def run(self, plan, ctx):
        w = ctx.w
        w.bufsize = max(w.bufsize, 64)
        with sched.patched_locks():
            w.fresh()
            import_all()
        m = ctx.m
        for n in ("ucis", "mem_factory", "xml_factory", "merge", "rgy", "builder", "rpt_text", "rpt_json", "rpt_form",
                  "yaml_reader", "scope_t", "cover_t", "hnk", "tst", "xml_reader", "xml_writer"):
            getattr(m, n)
        cmds = {}

        def commands():
            cmds.update((c, m.imp("ucis.cmd.cmd_" + c)) for c in ("merge", "convert", "report"))
        commands()
        S = sched.Sched(plan["sched"])
        texts = {}

        def body(t, ops):
            def go():
                out = []
                texts[t] = []
                L = Live(m, plan["dbs"][t], "xml" if t % 2 else "mem")
                f = "t%d.xml" % t
                saved = None

                def ensure():
                    nonlocal saved
                    if saved is None:
                        save(ctx, L.db, "path", f)
                        saved = (model.saved(L.model), tuple(L.hist))
                for o in ops:
                    k = o["op"]
                    if k == "rec":
                        L = Live(m, plan["dbs"][t], "mem")
                        L.check("recorded")
                    elif k == "mutate":
                        L.mutate(o["muts"])
                        L.check("recorded")
                    elif k == "save":
                        via = o["via"] if o["via"] != "dbwrite" or L.kind == "xml" else "path"
                        save(ctx, L.db, via, f)
                        saved = (model.saved(L.model), tuple(L.hist))
                    elif k == "read":
                        ensure()
                        db = read(ctx, o["via"], f)
                        model.check_db(m, db, saved[0], "read-differs")
                        model.check_hist(m, db, saved[1], "read-differs")
                    elif k == "merge":
                        dst = m.mem_factory.MemFactory.create()
                        ctx.tool(m.merge.DbMerger).merge(dst, [L.db, L.db])
                        model.check_db(m, dst, model.merge([L.model, L.model]), "merge-differs")
                    elif k == "report":
                        rep = m.builder.CoverageReportBuilder.build(L.db)
                        model.cmp_report(model.report_of(L.model), model.dump_report(rep), "report-differs")
                    elif k == "form":
                        rep = m.builder.CoverageReportBuilder.build(L.db)
                        s = io.StringIO()
                        m.rpt_form.TextCoverageReportFormatter(rep, s).report()
                        model.check_text(model.report_of(L.model), s.getvalue(), "report-differs", 0.0051, 0.0051)
                        texts[t].append((k, s.getvalue()))
                    elif k == "text":
                        s = io.StringIO()
                        ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("txt").fmt_if).report(L.db, s, [])
                        model.check_text(model.report_of(L.model), s.getvalue(), "report-differs", 0.51, 0.0051)
                        texts[t].append((k, s.getvalue()))
                    elif k == "json":
                        s = io.StringIO()
                        ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("json").fmt_if).report(L.db, s, [])
                        model.cmp_report(model.report_of(L.model),
                                         model.dump_json_report(json.loads(s.getvalue()), "report-differs"),
                                         "report-differs", weights=False)
                        texts[t].append((k, s.getvalue()))
                    elif k == "yaml":
                        y = plan["ymls"][t]
                        if o["via"] == "loads":
                            db = ctx.tool(m.yaml_reader.YamlReader).loads(yamldoc.render(y, "json"))
                        else:
                            w.put("t%d.yml" % t, yamldoc.render(y, "json"))
                            db = ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("yaml").fmt_if).read(w.path("t%d.yml" % t))
                        model.check_db(m, db, yamldoc.as_model(y), "yaml-differs")
                    elif k == "rgy":
                        rg = m.rgy.FormatRgy.inst()
                        a = (sorted(rg.getDatabaseFormats()), sorted(rg.getReportFormats()), rg.getDefaultDatabase(),
                             rg.getDefaultReport())
                        for x in ("xml", "yaml", "libucis"):
                            if not rg.hasDatabaseFormat(x) or rg.getDatabaseDesc(x).name != x:
                                raise Violation("registry", "database format %s missing" % x)
                        for x in ("json", "txt"):
                            if not rg.hasReportFormat(x) or rg.getReportDesc(x).name != x:
                                raise Violation("registry", "report format %s missing" % x)
                        out.append(a)
                    elif k == "cmd_merge":
                        ensure()
                        a = argparse.Namespace(input_format=None, output_format=None, out="t%dm.xml" % t,
                                               db=[f, f], libucis=None)
                        cmds["merge"].merge(a)
                        db = read(ctx, "path", "t%dm.xml" % t)
                        model.check_db(m, db, model.saved(model.merge([saved[0], saved[0]])), "merge-differs")
                    elif k == "cmd_convert":
                        ensure()
                        a = argparse.Namespace(input_format=None, output_format=None, out="t%dc.xml" % t, input=f)
                        cmds["convert"].convert(a)
                        db = read(ctx, "path", "t%dc.xml" % t)
                        model.check_db(m, db, saved[0], "convert-differs")
                    elif k == "cmd_report":
                        ensure()
                        a = argparse.Namespace(input_format=None, output_format=o["of"], out="t%dr.out" % t, db=f)
                        cmds["report"].report(a)
                        txt = w.get("t%dr.out" % t).decode("utf-8")
                        texts[t].append((k, txt))
                        want = model.report_of(saved[0])
                        if o["of"] == "json":
                            model.cmp_report(want, model.dump_json_report(json.loads(txt), "report-differs"),
                                             "report-differs", weights=False)
                        else:
                            model.check_text(want, txt, "report-differs", 0.51, 0.0051)
                    out.append(k)
                    ctx.hit("op-" + k)
                return out
            return go
        w.sched = S
        try:
            res = S.run([body(i, t) for i, t in enumerate(plan["threads"])])
        finally:
            w.sched = None
            ctx.sched_record = S.record
        for t, (v, e) in enumerate(res):
            if isinstance(e, Violation):
                raise Violation(e.kind, "thread %d: %s" % (t, e.detail))
            if e is not None:
                import traceback
                tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
                raise Violation("thread-failed", "thread %d: %r %s" % (t, e, tb[-700:]))
            ctx.ev("thread", t, v)
        together = dict(texts)
        if any(together.values()):
            # the same work once more, each thread's alone in a new process: every text has to be the same
            w.fresh()
            m = ctx.m
            commands()
            for t, ops in enumerate(plan["threads"]):
                body(t, ops)()
                for (k, a), (_, b) in zip(together[t], texts[t]):
                    if a != b:
                        i = next((j for j, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))) if x != y), -1)
                        raise Violation("text-differs", "thread %d: %s printed %r, alone %r" % (
                            t, k, a.split("\n")[i], b.split("\n")[i]))
        ctx.ev("sched", S.record, S.step)
        ctx.hit("preemptions", S.switches)
        ctx.hit("steps", S.step)
        ctx.nontrivial = S.switches > 0


PROP = C06()

"""C10: reports state exactly what the database holds when they are made."""
import io
import json

from sim import gen, model, yamldoc
from sim.live import Live
from sim.world import Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, mutation, read, save, write_faults, read_faults
from . import kit

REPS = ["obj", "obj", "form", "formd", "formh", "txt", "txtd", "txth", "json", "json", "clitxt", "clijson", "clistd"]


def gen_op(r):
    x = r.random()
    if x < 0.22:
        return {"op": "mutate", "slot": r.randrange(20), "muts": [mutation(r, 0.2) for _ in range(r.randrange(1, 5))]}
    if x < 0.32:
        return {"op": "merge", "slots": [r.randrange(20) for _ in range(r.randrange(1, 4))]}
    if x < 0.42:
        o = {"op": "load", "slot": r.randrange(20), "sv": r.choice(["path", "stringio", "stream"]),
             "rv": r.choice(["path", "rgy", "bytesio", "rb", "text"])}
        if r.random() < 0.4:
            o["wf"] = write_faults(r)
        if r.random() < 0.4:
            o["rf"] = read_faults(r)
        return o
    if x < 0.46:
        return {"op": "yaml"}
    o = {"op": "report", "slot": r.randrange(20), "how": r.choice(REPS)}
    if r.random() < 0.15:
        o["bad"] = r.randrange(1, 12)
    return o


class BadStream(io.StringIO):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n <= 0:
            raise OSError(28, "No space left on device (simulated)")
        return super().write(s)


class C10:
    runs = {"quick": 2500, "thorough": 140000}
    rule = ("one evaluation interleaves 6-16 recording, merging, save/load (with injected, retried I/O failures) and "
            "reporting steps over a growing set of databases; each report (object, both text formatters with and "
            "without bins, JSON, command line) is compared with the reference model of that database at that moment, "
            "the database is compared before/after, and every earlier report object is compared again at the end. "
            "non-trivial = reports of one database were made both before and after it changed, or of a merged/loaded "
            "database")
    measure = "distinct event-log digests (operations and report contents) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["text reports round percentages to the precision they print",
                            "ignore/illegal bins of crosses are not listed"]

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.25])
        st = kit.gen_stock(r, spice, r.choice([1, 2, 2]))
        if r.random() < 0.15:
            # zero weights everywhere: nothing to average over
            for s in st["dbs"]:
                for i in s["insts"]:
                    for g in i["cgs"]:
                        g["w"] = 0
                        for h in ([g] if g["mode"] == "type" else g["insts"]):
                            for x in h["cps"] + h["crs"]:
                                x["w"] = 0
        st.update(env=gen.env_plain(r), ops=[gen_op(r) for _ in range(r.randrange(6, 17))])
        return st

    def run(self, plan, ctx):
        w, m = ctx.w, ctx.m
        slots = [Live(m, s) for s in plan["dbs"]]
        made = {}
        old = []
        keen = False
        for n, o in enumerate(plan["ops"]):
            k = o["op"]
            if k == "mutate":
                slots[o["slot"] % len(slots)].mutate(o["muts"])
                s = o["slot"] % len(slots)
                if s in made:
                    made[s] = "changed"
                continue
            if k == "merge":
                src = [slots[i % len(slots)] for i in o["slots"]]
                dst = m.mem_factory.MemFactory.create()
                ctx.tool(m.merge.DbMerger).merge(dst, [x.db for x in src])
                slots.append(Live.wrap(m, dst, model.merge([x.model for x in src])))
                continue
            if k == "yaml":
                db = ctx.tool(m.yaml_reader.YamlReader).loads(yamldoc.render(plan["yml"], plan["ystyle"]))
                slots.append(Live.wrap(m, db, yamldoc.as_model(plan["yml"])))
                continue
            S = slots[o["slot"] % len(slots)]
            if k == "load":
                f = "f%d.xml" % n
                w.arm(o.get("wf"))
                attempt(lambda: save(ctx, S.db, o["sv"], f))
                w.disarm()
                if o.get("wf"):
                    save(ctx, S.db, o["sv"], f)
                w.arm(o.get("rf"))
                db, e = attempt(lambda: read(ctx, o["rv"], f))
                w.disarm()
                if e is not None or db is None:
                    db = read(ctx, o["rv"], f)
                slots.append(Live.wrap(m, db, model.saved(S.model), S.hist))
                continue
            if made.get(o["slot"] % len(slots)) == "changed" or o["slot"] % len(slots) > 1:
                keen = True
            made.setdefault(o["slot"] % len(slots), "made")
            want = model.report_of(S.model)
            if o.get("bad"):
                b = BadStream(o["bad"])
                _, e = attempt(lambda: self.stream_report(ctx, m, S.db, o["how"], b))
                w.count_fault("report-stream.ENOSPC")
                ctx.ev("bad", e is not None)
            how = o["how"]
            if how == "obj":
                rep = m.builder.CoverageReportBuilder.build(S.db)
                d = model.dump_report(rep)
                model.cmp_report(want, d, "report-object")
                model.check_report_maps(rep, "report-object")
                old.append((rep, repr(d)))
                ctx.ev(how, repr(d))
            elif how.startswith("cli"):
                f = "r%d.xml" % n
                save(ctx, S.db, "path", f)
                want = model.report_of(model.saved(S.model))
                argv = ["report"] + (["-of", "json"] if how != "clitxt" else [])
                if how != "clistd":
                    argv += ["-o", "r%d.out" % n]
                rc, so, se = w.cli(argv + [f])
                if rc:
                    raise Violation("report-command", "exit %d: %s" % (rc, se[-300:]))
                txt = so if how == "clistd" else w.get("r%d.out" % n).decode("utf-8")
                if how == "clitxt":
                    model.check_text(want, txt, "report-command", 0.51, 0.0051)
                else:
                    self.json(want, txt, "report-command")
                ctx.ev(how, txt)
            else:
                s = io.StringIO()
                self.stream_report(ctx, m, S.db, how, s)
                txt = s.getvalue()
                if how == "json":
                    self.json(want, txt, "report-json")
                elif how.startswith("form"):
                    model.check_text(want, txt, "report-text", 0.0051, 0.0051, how != "form")
                else:
                    model.check_text(want, txt, "report-text", 0.51, 0.0051, how != "txt")
                ctx.ev(how, txt)
            ctx.hit("report-" + how)
            model.check_db(m, S.db, S.model, "database-changed-by-report")
        for rep, d in old:
            if repr(model.dump_report(rep)) != d:
                raise Violation("earlier-report-changed", "a report object changed after it was made")
        for S in slots:
            model.check_db(m, S.db, S.model, "database-changed")
        ctx.nontrivial = keen

    def json(self, want, txt, what):
        try:
            d = json.loads(txt)
        except ValueError as e:
            raise Violation(what, "JSON report does not parse: %s" % e)
        model.cmp_report(want, model.dump_json_report(d, what), what, weights=False)

    def stream_report(self, ctx, m, db, how, s):
        if how.startswith("form"):
            f = m.rpt_form.TextCoverageReportFormatter(m.builder.CoverageReportBuilder.build(db), s)
            f.details = how != "form"
            f.order_bins_by_hit = how == "formh"
            f.report()
        elif how == "json" or how.startswith("cli") or how == "obj":
            ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("json").fmt_if).report(db, s, [])
        else:
            f = m.rgy.FormatRgy.inst().getReportDesc("txt").fmt_if()
            f.details = how != "txt"
            f.order_bins_by_hit = how == "txth"
            f.report(db, s, [])


PROP = C10()

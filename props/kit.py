"""A fixed stock of files and live databases and the whole repertoire of operations on them, each with its oracle."""
import gzip
import io
import json

from sim import gen, model, yamldoc
from sim.live import Live
from sim.world import Violation
from .common import READ_VIAS, read, save

KINDS = ["read", "read", "save", "save", "merge", "report", "form", "text", "json", "yaml", "rgy",
         "cli_merge", "cli_convert", "cli_report", "cli_list", "fmerge"]


def op(r, kinds=KINDS):
    k = r.choice(kinds)
    o = {"op": k}
    if k == "read":
        o["file"] = r.choice(["a.xml", "b.xml", "c.xml.gz"])
        o["via"] = r.choice(["path", "path", "rel", "rgy"] if o["file"].endswith("gz") else READ_VIAS)
    elif k == "save":
        o["db"] = r.randrange(2)
        o["via"] = r.choice(["path", "path", "rel", "stringio", "stream", "writer", "dbwrite", "gzstream"])
    elif k in ("report", "form", "text", "json"):
        o["db"] = r.randrange(2)
    elif k == "merge":
        o["dbs"] = [r.randrange(2) for _ in range(r.randrange(1, 4))]
    elif k == "fmerge":
        o["files"] = [r.choice(["a.xml", "b.xml", "c.xml.gz"]) for _ in range(r.randrange(1, 3))]
    elif k == "yaml":
        o["via"] = r.choice(["loads", "rgy", "load"])
    elif k == "cli_merge":
        o["files"] = [r.choice(["a.xml", "b.xml", "c.xml.gz"]) for _ in range(r.randrange(1, 4))]
    elif k == "cli_convert":
        o["file"] = r.choice(["a.xml", "b.xml", "c.xml.gz", "y.yml"])
    elif k == "cli_report":
        o["file"] = r.choice(["a.xml", "b.xml", "c.xml.gz", "y.yml"])
        o["of"] = r.choice([None, "txt", "json"])
        o["out"] = r.random() < 0.5
    elif k == "cli_list":
        o["what"] = r.choice(["list-db-formats", "list-rpt-formats"])
    return o


def gen_stock(r, spice=0.25, size=None):
    uni = gen.universe(r, size or r.choice([1, 1, 2]), spice)
    dbs = [gen.draw(r, uni, spice=spice, big=False) for _ in range(2)]
    y = yamldoc.generate(r, 1, spice)
    for g in y["cgs"]:
        for ci in g["insts"]:
            for x in ci["cps"] + ci["crs"]:
                if not x["bins"]:
                    x["bins"] = [["b0", "bin", 1]]
                for b in x["bins"]:
                    b[2] = min(2**50, b[2])
    return {"dbs": dbs, "yml": y, "ystyle": r.choice(["json", "json", "block"])}


class Kit:
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.fmodel = {}
        self.n = 0
        self.ref = {}

    # ------------------------------------------------------------ texts: equal whenever and wherever they are made
    def text_key(self, o):
        k = o["op"]
        if k in ("form", "text", "json"):
            return k, o["db"]
        if k == "cli_report":
            return "file", o["file"], o["of"] or "txt"
        if k == "cli_list":
            return k, o["what"]
        return None

    def same_text(self, o, txt, what):
        want = self.ref.setdefault(self.text_key(o), txt)
        if want != txt:
            a, b = want.split("\n"), txt.split("\n")
            for i in range(max(len(a), len(b))):
                x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
                if x != y:
                    raise Violation(what, "%s: line %d is %r, elsewhere it was %r" % (o["op"], i + 1, y, x))
            raise Violation(what, "%s: texts differ" % o["op"])

    def references(self, ops):
        """Make every text once in the current process, undisturbed."""
        for o in ops:
            key = self.text_key(o)
            if key is not None and key not in self.ref:
                self.judge(o, self.do(o, "ref"), "undisturbed-operation")

    def files(self):
        """Create the stock of files (in whatever process is current)."""
        ctx, w = self.ctx, self.ctx.w
        for i, n in ((0, "a.xml"), (1, "b.xml")):
            L = Live(ctx.m, self.plan["dbs"][i])
            save(ctx, L.db, "path", n)
            self.fmodel[n] = (model.saved(L.model), tuple(L.hist))
        self.fmodel["c.xml.gz"] = self.fmodel["b.xml"]
        w.put("c.xml.gz", gzip.compress(w.get("b.xml"), 6, mtime=0))
        w.put("y.yml", yamldoc.render(self.plan["yml"], self.plan["ystyle"]))
        self.fmodel["y.yml"] = (yamldoc.as_model(self.plan["yml"]), None)
        self.keep = {n: w.get(n) for n in self.fmodel}

    def bind(self):
        """Record the live databases in the current process."""
        self.L = [Live(self.ctx.m, s) for s in self.plan["dbs"]]

    def check_inputs(self, what):
        for L in self.L:
            L.check(what)
        for n, b in self.keep.items():
            if self.ctx.w.get(n) != b:
                raise Violation(what, "input file %s changed" % n)

    # ------------------------------------------------------------ run an operation (the part that may be cut off)
    def do(self, o, tag="x"):
        ctx, w, m = self.ctx, self.ctx.w, self.ctx.m
        k = o["op"]
        if k == "read":
            return read(ctx, o["via"], o["file"])
        if k == "save":
            f = "s_%s.xml" % tag
            via = o["via"]
            if via == "dbwrite":
                x = m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()
                from sim import build
                build.build(m, self.plan["dbs"][o["db"]], x)
                save(ctx, x, "dbwrite", f)
            else:
                save(ctx, self.L[o["db"]].db, via, f)
            return f
        if k == "merge":
            dst = m.mem_factory.MemFactory.create()
            ctx.tool(m.merge.DbMerger).merge(dst, [self.L[i].db for i in o["dbs"]])
            return dst
        if k == "fmerge":
            dst = m.mem_factory.MemFactory.create()
            ctx.tool(m.merge.DbMerger).merge(dst, [read(ctx, "path", f) for f in o["files"]])
            return dst
        if k == "report":
            return m.builder.CoverageReportBuilder.build(self.L[o["db"]].db)
        if k == "form":
            rep = m.builder.CoverageReportBuilder.build(self.L[o["db"]].db)
            s = io.StringIO()
            m.rpt_form.TextCoverageReportFormatter(rep, s).report()
            return s.getvalue()
        if k in ("text", "json"):
            s = io.StringIO()
            ctx.tool(m.rgy.FormatRgy.inst().getReportDesc("txt" if k == "text" else "json").fmt_if).report(
                self.L[o["db"]].db, s, [])
            return s.getvalue()
        if k == "yaml":
            if o["via"] == "loads":
                return ctx.tool(m.yaml_reader.YamlReader).loads(w.get("y.yml").decode("utf-8"))
            if o["via"] == "load":
                f = w.sim_open(w.path("y.yml"), "r", encoding="utf-8")
                try:
                    return ctx.tool(m.yaml_reader.YamlReader).load(f)
                finally:
                    f.close()
            return ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("yaml").fmt_if).read(w.path("y.yml"))
        if k == "rgy":
            rg = m.rgy.FormatRgy.inst()
            for x in ("xml", "yaml", "libucis"):
                if not rg.hasDatabaseFormat(x) or rg.getDatabaseDesc(x).name != x:
                    raise Violation("registry", "database format %s missing" % x)
            for x in ("json", "txt"):
                if not rg.hasReportFormat(x) or rg.getReportDesc(x).name != x:
                    raise Violation("registry", "report format %s missing" % x)
            return (tuple(sorted(rg.getDatabaseFormats())), tuple(sorted(rg.getReportFormats())),
                    rg.getDefaultDatabase(), rg.getDefaultReport())
        f = "c_%s.out" % tag

        def rel(n):
            return w.rel(n)
        if k == "cli_list":
            argv = [o["what"]]
        elif k == "cli_merge":
            argv = ["merge", "-o", rel(f)] + [rel(n) for n in o["files"]]
        else:
            argv = [k[4:]]
            if o["file"].endswith(".yml"):
                argv += ["-if", "yaml"]
            if o.get("of"):
                argv += ["-of", o["of"]]
            if k == "cli_convert" or o.get("out"):
                argv += ["-o", rel(f)]
            argv.append(rel(o["file"]))
        rc, so, se = w.cli(argv)
        if rc != 0:
            raise RuntimeError("exit %d: %s" % (rc, se[-400:]))
        return so, f

    # ------------------------------------------------------------ judge its result; returns a digestible value
    def judge(self, o, v, what):
        ctx, w, m = self.ctx, self.ctx.w, self.ctx.m
        k = o["op"]
        if k == "read":
            M, H = self.fmodel[o["file"]]
            return model.check_db(m, v, M, what), model.check_hist(m, v, H, what)
        if k == "save":
            L = self.L[o["db"]]
            data = w.get(v)
            if data[:2] == b"\x1f\x8b":
                data = gzip.decompress(data)
            db = m.xml_factory.XmlFactory.read(io.BytesIO(data))
            return (model.check_db(m, db, model.saved(L.model), what), model.check_hist(m, db, tuple(L.hist), what))
        if k == "merge":
            return model.check_db(m, v, model.merge([self.L[i].model for i in o["dbs"]]), what)
        if k == "fmerge":
            return model.check_db(m, v, model.merge([self.fmodel[f][0] for f in o["files"]]), what)
        if k == "report":
            d = model.dump_report(v)
            model.cmp_report(model.report_of(self.L[o["db"]].model), d, what)
            model.check_report_maps(v, what)
            return repr(d)
        if k == "form":
            model.check_text(model.report_of(self.L[o["db"]].model), v, what, 0.0051, 0.0051)
            self.same_text(o, v, what)
            return v
        if k == "text":
            model.check_text(model.report_of(self.L[o["db"]].model), v, what, 0.51, 0.0051)
            self.same_text(o, v, what)
            return v
        if k == "json":
            self.judge_json(model.report_of(self.L[o["db"]].model), v, what)
            self.same_text(o, v, what)
            return v
        if k == "yaml":
            return model.check_db(m, v, self.fmodel["y.yml"][0], what)
        if k == "rgy":
            if not ({"xml", "yaml", "libucis"} <= set(v[0]) and {"json", "txt"} <= set(v[1])):
                raise Violation(what, "formats listed: %r" % (v,))
            return v
        so, f = v
        if k == "cli_list":
            want = ["xml", "yaml", "libucis"] if "db" in o["what"] else ["json", "txt"]
            have = [l.split()[0] for l in so.split("\n") if l.strip()]
            if any(x not in have for x in want):
                raise Violation(what, "%s printed %r" % (o["what"], so))
            self.same_text(o, so, what)
            return so
        if k == "cli_report":
            txt = w.get(f).decode("utf-8") if o["out"] else so
            want = model.report_of(self.fmodel[o["file"]][0])
            if o["of"] == "json":
                self.judge_json(want, txt, what)
            else:
                model.check_text(want, txt, what, 0.51, 0.0051)
            self.same_text(o, txt, what)
            return txt
        ms = [self.fmodel[x][0] for x in (o["files"] if k == "cli_merge" else [o["file"]])]
        db = read(ctx, "path", f)
        return model.check_db(m, db, model.saved(model.merge(ms)), what)

    def judge_json(self, want, txt, what):
        try:
            d = json.loads(txt)
        except ValueError as e:
            raise Violation(what, "JSON report does not parse: %s" % e)
        model.cmp_report(want, model.dump_json_report(d, what), what, weights=False)

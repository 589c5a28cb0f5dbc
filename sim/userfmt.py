"""Formats as a user registers them: a database format, a one-file report and a directory report.

Written against the public base classes FormatIfDb / FormatIfRpt and registered with FormatRgy, so that the commands
run them like the built-in ones. They use builtins.open (simulated inside the scratch directory).
"""
import builtins
import json
import os
import shutil

from . import build, model
from .world import Violation


def canon_json(M):
    """What a file of the 'udb' format holds for a model."""
    return json.loads(json.dumps(model.canon_sorted(M)))


def report_json(d):
    def bins(l):
        return [{"name": n, "goal": g, "count": c} for n, g, c in l]

    def item(x):
        return {"name": x["name"], "coverage": x["cov"], "bins": bins(x["bins"]), "ignorebins": bins(x["ign"]),
                "illegalbins": bins(x["ill"])}

    def group(g):
        return {"name": g["name"], "coverage": g["cov"], "coverpoints": [item(x) for x in g["cps"]],
                "crosses": [item(x) for x in g["crs"]], "covergroups": [group(x) for x in g["insts"]]}
    return {"coverage": d["cov"], "covergroups": [group(g) for g in d["groups"]]}


class Formats:
    def __init__(self, ctx):
        self.refuse = None          # None | exception name raised by the next plug-in call
        m, w = ctx.m, ctx.w
        dbi = w.mods.imp("ucis.rgy.format_if_db")
        rpt = w.mods.imp("ucis.rgy.format_if_rpt")
        me = self

        def refused():
            if me.refuse:
                raise getattr(builtins, me.refuse)("refused by the plug-in")

        class UserDb(m.mem.MemUCIS):
            def write(self, file, scope=None, recurse=True, covertype=-1):
                refused()
                text = json.dumps(model.dump_db(m, self))
                with open(file, "w", encoding="utf-8") as fp:
                    for k in range(0, len(text), 97):
                        fp.write(text[k:k + 97])

        class UserIf(dbi.FormatIfDb):
            def init(self, options):
                pass

            def create(self, filename=None):
                return UserDb()

            def read(self, file_or_filename):
                with open(file_or_filename, "r", encoding="utf-8") as fp:
                    spec = json.load(fp)
                return build.build(m, spec, UserDb())

        def of(db):
            return report_json(model.dump_report(m.builder.CoverageReportBuilder.build(db)))

        class UserStream(rpt.FormatIfRpt):
            def report(self, db, out, args):
                text = json.dumps(of(db))
                for k in range(0, len(text), 61):
                    if k:
                        refused()
                    out.write(text[k:k + 61])
                refused()

        class UserDir(rpt.FormatIfRpt):
            def report(self, db, out, args):
                d = of(db)
                for k, g in enumerate(d["covergroups"]):
                    with open(os.path.join(out, "g%d.json" % k), "w", encoding="utf-8") as fp:
                        fp.write(json.dumps(g))
                refused()
                with open(os.path.join(out, "index.json"), "w", encoding="utf-8") as fp:
                    fp.write(json.dumps({"coverage": d["coverage"], "n": len(d["covergroups"])}))

        F = dbi.FormatDbFlags
        rgy = m.rgy.FormatRgy.inst()
        rgy.addDatabaseFormat(dbi.FormatDescDb(UserIf, "udb", F.Create | F.Read | F.Write, "user database"))
        rgy.addReportFormat(rpt.FormatDescRpt(UserStream, "ustr", rpt.FormatRptOutFlags.Stream, "user report"))
        rgy.addReportFormat(rpt.FormatDescRpt(UserDir, "udir", rpt.FormatRptOutFlags.Dir, "user report directory"))


def read_dir(w, name):
    """The report a 'udir' directory holds, and the files in it."""
    d = json.loads(w.get(name + "/index.json").decode("utf-8"))
    files = sorted(k[len(name) + 1:] for k in w.listing() if k.startswith(name + "/") and k != name + "/")
    d["covergroups"] = [json.loads(w.get("%s/g%d.json" % (name, k)).decode("utf-8")) for k in range(d.pop("n"))]
    return d, files


class Contained:
    """While active, directory trees are only removed inside the scratch directory; other attempts are violations."""

    def __init__(self, w):
        self.w = w
        self.strays = []

    def __enter__(self):
        self.rmtree = shutil.rmtree

        def guarded(path, *args, **kw):
            if not os.path.realpath(path).startswith(os.path.realpath(self.w.dir) + os.sep):
                self.strays.append(str(path))
                raise OSError(13, "Permission denied (simulated)")
            return self.rmtree(path, *args, **kw)
        shutil.rmtree = guarded
        return self

    def __exit__(self, *a):
        shutil.rmtree = self.rmtree
        return False

    def check(self):
        if self.strays:
            raise Violation("other-directory-removed", "the command removes %s" % self.strays[0])

"""C05: a command reports success exactly when its output is complete."""
import copy
import gzip
import json
import os
import shutil

from sim import gen, model, userfmt, yamldoc
from sim.live import Live
from sim.world import Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, hard, read, save

GOODU = ["u.udb", "v.udb"]
GOODX = ["a.xml", "b.xml", "c.xml.gz"]
BADX = ["noref.xml", "torn.xml", "torn.xml.gz", "invalid.xml", "empty.xml", "junk.bin", "missing.xml", "adir", "y.yml"]
BADY = ["bad.yml", "noref.yml", "badschema.yml", "missing.yml", "a.xml", "adir", "c.xml.gz"]


def op(r):
    c = r.choice(["merge", "merge", "convert", "convert", "report", "report", "report", "ldb", "lrpt"])
    o = {"cmd": c}
    if c in ("ldb", "lrpt"):
        if r.random() < 0.5:
            o["faults"] = [{"op": "write", "role": "<stdout>", "act": r.choice(["EPIPE", "EIO", "ENOSPC"]),
                            "nth": 1, "times": 1000}]
        return o
    yml = r.random() < 0.3
    udb = not yml and r.random() < 0.12
    if yml:
        o["if"] = "yaml"
    elif udb:
        o["if"] = "udb"
    elif r.random() < 0.3:
        o["if"] = "xml"
    good = ["y.yml", "z.yml"] if yml else GOODU if udb else GOODX
    bad = BADY if yml else ["a.xml", "missing.udb", "adir"] if udb else BADX
    if yml and c == "report":
        good = good + ["noinst.yml"]
    n = r.randrange(1, 4) if c == "merge" else 1
    ins = [r.choice(good) for _ in range(n)]
    if r.random() < 0.2:
        ins[r.randrange(n)] = r.choice(bad)
    o["ins"] = ins
    if c == "report":
        o["of"] = r.choice([None, "txt", "json", "json"])
        o["out"] = r.choice([None, None, "r.out", "old.txt"])
    else:
        o["of"] = r.choice([None, None, "xml"])
        o["out"] = r.choice(["o.xml", "old.xml"])
        if r.random() < 0.12:
            o["of"] = "udb"
    if c == "report" and r.random() < 0.25:
        o["of"] = r.choice(["ustr", "udir", "udir"])
        if o["of"] == "udir":
            o["out"] = r.choice(["newdir", "newdir", "olddir", "olddir", "a/b/c", "old.txt", None])
    if o["of"] in ("udb", "ustr", "udir") and r.random() < 0.2:
        o["refuse"] = r.choice(["ValueError", "NotImplementedError", "OSError", "MemoryError", "BrokenPipeError"])
    x = r.random()
    if x < 0.06:
        o["of"] = r.choice(["nope", "html"]) if c == "report" else r.choice(["nope", "yaml"])
    elif x < 0.09:
        o["if"] = "nope"
    elif x < 0.14 and o.get("out"):
        o["out"] = r.choice(["nodir/x.xml", "adir"])
    y = r.random()
    if y < 0.25:
        tgt = os.path.basename(o["out"]) if o.get("out") else "<stdout>"
        if o.get("of") == "udir" and o["out"]:
            tgt = r.choice(["index.json", "g0.json"])
        k = r.random()
        if k < 0.15 and tgt != "<stdout>":
            o["faults"] = [{"op": "openw", "role": tgt, "act": r.choice(["EACCES", "ENOSPC", "EROFS", "EMFILE"])}]
        elif k < 0.35 and tgt != "<stdout>":
            o["faults"] = [{"op": "close", "role": tgt, "act": r.choice(["EIO", "ENOSPC", "EDQUOT"])}]
        elif k < 0.85:
            o["faults"] = [{"op": "write", "role": tgt, "act": r.choice(["EIO", "ENOSPC", "EPIPE", "EDQUOT"]),
                            "nth": r.randrange(1, 5) if r.random() < 0.7 else r.randrange(1, 60),
                            "part": r.choice([0, 1, 50]), "times": r.choice([1, 1000])}]
        else:
            o["faults"] = [{"op": "write", "role": tgt, "act": r.choice(["short", "EINTR"]), "nth": 1,
                            "times": r.choice([1, 20]), "len": r.choice([1, 13])}]
    elif y < 0.5:
        o["faults"] = [{"op": r.choice(["read", "read", "read", "openr", "seek", "close"]),
                        "role": r.choice(["*", "data", "schema", ins[0]]), "nth": r.randrange(1, 8),
                        "act": r.choice(["EIO", "ENOMEM", "ESTALE", "eof", "short", "KeyboardInterrupt"]),
                        "times": r.choice([1, 1, 50]), "len": 5}]
        f = o["faults"][0]
        if f["op"] != "read" and f["act"] in ("eof", "short"):
            f["act"] = "EIO"
    return o


def stray_cross(a):
    """The document with a cross over a coverpoint that does not exist."""
    c = (b'<cross name="stray" key="0"><options/><crossExpr>no such point</crossExpr>'
         b'<crossBin name="b" key="0" type="default"><index>-1</index><contents coverageCount="1"/></crossBin></cross>')
    k = a.rindex(b"</cgInstance>")
    return a[:k] + c + a[k:]


class C05:
    runs = {"quick": 3000, "thorough": 180000}
    rule = ("one evaluation runs 4-9 commands (merge, convert, report to file or stdout, format lists) on good, "
            "damaged and missing inputs with injected open/read/write/flush/close/stdout failures; the exit status "
            "is compared with whether a failure fired, and every status-0 output is parsed and compared with the "
            "reference model. non-trivial = at least one failed and one successful command")
    measure = "distinct event-log digests (command, status, faults, output contents) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["stderr works", "an input-side failure may be absorbed if the output is complete all the "
                            "same; an output-side failure may not"]

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.25])
        uni = gen.universe(r, r.choice([1, 1, 2]), spice)
        dbs = [gen.draw(r, uni, spice=spice, big=False) for _ in range(2)]
        y1 = yamldoc.generate(r, 1, spice)
        y2 = copy.deepcopy(y1)
        for g in y2["cgs"]:
            for ci in g["insts"]:
                for x in ci["cps"] + ci["crs"]:
                    for b in x["bins"]:
                        b[2] = min(2**40, b[2]) + r.randrange(3)
        for y in (y1, y2):
            for g in y["cgs"]:
                for ci in g["insts"]:
                    for x in ci["cps"] + ci["crs"]:
                        if not x["bins"]:
                            x["bins"] = [["b0", "bin", 1]]     # XML needs at least one bin
                        for b in x["bins"]:
                            b[2] = min(2**50, b[2])
        return {"env": gen.env_plain(r), "dbs": dbs, "ymls": [y1, y2], "ystyle": r.choice(["json", "json", "json", "block"]), "cut": round(r.random() * 0.98, 3),
                "ops": [op(r) for _ in range(r.randrange(4, 10))]}

    def run(self, plan, ctx):
        w = ctx.w
        models = {}
        for i, n in ((0, "a.xml"), (1, "b.xml")):
            L = Live(ctx.m, plan["dbs"][i])
            save(ctx, L.db, "path", n)
            models[n] = model.saved(L.model)
        models["c.xml.gz"] = models["b.xml"]
        a, b = w.get("a.xml"), w.get("b.xml")
        z = gzip.compress(b, 6, mtime=0)
        w.put("c.xml.gz", z)
        w.put("torn.xml", a[:int(len(a) * plan["cut"])])
        w.put("torn.xml.gz", z[:max(3, int(len(z) * plan["cut"]))])
        w.put("invalid.xml", a.replace(b"coverageCount", b"coverageCnt"))
        w.put("empty.xml", b"")
        w.put("junk.bin", bytes(range(256)))
        for i, n in ((0, "y.yml"), (1, "z.yml")):
            w.put(n, yamldoc.render(plan["ymls"][i], plan["ystyle"]))
            models[n] = yamldoc.as_model(plan["ymls"][i])
        t = yamldoc.tree(plan["ymls"][0])
        t["coverage"]["covergroups"].append({"name": "lonely"})
        w.put("noinst.yml", json.dumps(t))
        ym = yamldoc.as_model(plan["ymls"][0])
        ym["insts"]["cg_inst"]["cgs"]["lonely"] = {"w": 1, "cps": {}, "crs": {}, "insts": {}}
        models["noinst.yml"] = ym
        w.put("bad.yml", yamldoc.render(plan["ymls"][0], plan["ystyle"]) + "\n: : [\n")
        w.put("badschema.yml", "coverage:\n  covergroups:\n  - nam: x\n")
        ctxt = json.loads(json.dumps(yamldoc.tree(plan["ymls"][0])))
        ci = ctxt["coverage"]["covergroups"][0]["instances"][0]
        ci["crosses"] = [{"name": "stray", "coverpoints": ["no such point"], "bins": [{"name": "b", "count": 1}]}]
        w.put("noref.yml", json.dumps(ctxt))
        w.put("noref.xml", stray_cross(a))
        for i, n in ((0, "u.udb"), (1, "v.udb")):
            w.put(n, json.dumps(plan["dbs"][i]))
            models[n] = model.model_of(plan["dbs"][i])
        os.mkdir(w.path("adir"))
        U = userfmt.Formats(ctx)
        with userfmt.Contained(w) as box:
            self.commands(plan, ctx, w, models, U, box)

    def commands(self, plan, ctx, w, models, U, box):
        nfail = nok = 0
        for o in plan["ops"]:
            for n in ("o.xml", "r.out"):
                if w.exists(n):
                    os.unlink(w.path(n))
            w.put("old.xml", b"previous contents\n" * 50)
            w.put("old.txt", b"\x00\xffprevious")
            for n in ("newdir", "olddir", "a"):
                if os.path.isdir(w.path(n)):
                    shutil.rmtree(w.path(n))
            os.mkdir(w.path("olddir"))
            w.put("olddir/stale.json", b"{}")
            w.put("olddir/index.json", b"{}")
            U.refuse = o.get("refuse")
            c = o["cmd"]
            if c in ("ldb", "lrpt"):
                argv = ["list-db-formats" if c == "ldb" else "list-rpt-formats"]
            else:
                argv = [c]
                if o.get("if"):
                    argv += ["-if", o["if"]]
                if o.get("of"):
                    argv += ["-of", o["of"]]
                if o.get("out"):
                    argv += ["-o", o["out"]]
                argv += o["ins"]
            w.arm(o.get("faults"))
            rc, so, se = w.cli(argv)
            fired = w.disarm()
            box.check()
            h = hard(fired)
            ctx.ev(c, rc, fired)
            must_fail = any(f[0] in ("openw", "write") or (f[0] == "close" and f[1] in (o.get("out"), "<stdout>", "index.json", "g0.json"))
                            for f in h)
            why = None
            if c not in ("ldb", "lrpt"):
                good = ("y.yml", "z.yml", "noinst.yml") if o.get("if") == "yaml" else \
                    GOODU if o.get("if") == "udb" else GOODX
                if o.get("if") == "nope" or o.get("of") in ("nope", "html", "yaml"):
                    why = "unknown or unusable format"
                elif any(i not in good for i in o["ins"]):
                    why = "bad input"
                elif o.get("out") in ("nodir/x.xml", "adir") and o.get("of") != "udir":
                    why = "output cannot be opened"
                elif o.get("refuse"):
                    why = "the plug-in refused"
                elif o.get("of") == "udir" and o.get("out") in (None, "old.txt"):
                    why = "needs a directory"
            if rc == 0 and (must_fail or why):
                raise Violation("success-claimed", "%s exited 0 despite %s" % (" ".join(argv), h or why))
            if rc != 0:
                nfail += 1
                if not h and not why:
                    raise Violation("failed-without-cause", "%s exited %d: %s" % (" ".join(argv), rc, se[-300:]))
                if not se.strip() and not so.strip():
                    if not any(f[1] == "<stdout>" for f in h):
                        raise Violation("silent-failure", "%s exited %d without a message" % (" ".join(argv), rc))
                ctx.hit("failed")
                continue
            nok += 1
            ctx.hit("succeeded")
            if c in ("ldb", "lrpt"):
                want = ["xml", "yaml", "libucis", "udb"] if c == "ldb" else ["json", "txt", "ustr", "udir"]
                have = [l.split()[0] for l in so.split("\n") if l.strip()]
                if any(x not in have for x in want):
                    raise Violation("incomplete-output", "%s: %r" % (c, so))
                continue
            ms = [models[i] for i in o["ins"]]
            if c == "report":
                want = model.report_of(ms[0])
                if o.get("of") == "udir":
                    try:
                        d, files = userfmt.read_dir(w, o["out"])
                    except (OSError, ValueError, KeyError) as e:
                        raise Violation("incomplete-output", "exit 0 but no report in the directory: %r" % e)
                    if len(files) != len(d["covergroups"]) + 1:
                        raise Violation("incomplete-output", "the report directory holds %r" % files)
                    model.cmp_report(want, model.dump_json_report(d, "incomplete-output"), "incomplete-output",
                                     weights=False)
                    ctx.ev("udir", files)
                    ctx.hit("user-format")
                    continue
                if o.get("out"):
                    if not w.exists(o["out"]):
                        raise Violation("incomplete-output", "exit 0 but no report file")
                    txt = w.get(o["out"]).decode("utf-8")
                else:
                    txt = so
                if o.get("of") in ("json", "ustr"):
                    try:
                        d = json.loads(txt)
                    except ValueError as e:
                        raise Violation("incomplete-output", "JSON report does not parse: %s" % e)
                    model.cmp_report(want, model.dump_json_report(d, "incomplete-output"), "incomplete-output",
                                     weights=False)
                else:
                    model.check_text(want, txt, "incomplete-output", 0.51, 0.0051)
                ctx.ev("report", txt)
            else:
                if not w.exists(o["out"]):
                    raise Violation("incomplete-output", "exit 0 but no output file")
                if o.get("of") == "udb":
                    try:
                        got = json.loads(w.get(o["out"]).decode("utf-8"))
                    except ValueError as e:
                        raise Violation("incomplete-output", "exit 0 but the output is %r" % e)
                    want = userfmt.canon_json(model.merge(ms))
                    if got != want:
                        raise Violation("incomplete-output", "user format: expected %r, got %r" % (want, got))
                    ctx.hit("user-format")
                    continue
                try:
                    db = read(ctx, "path", o["out"])
                except Exception as e:
                    raise Violation("incomplete-output", "output cannot be read: %r" % e)
                model.check_db(ctx.m, db, model.saved(model.merge(ms)), "incomplete-output")
        ctx.nontrivial = nfail > 0 and nok > 0


PROP = C05()

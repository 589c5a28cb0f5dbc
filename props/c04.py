"""C04: a failed command (or save) leaves existing files as they were; inputs are never modified."""
import gzip

import shutil

from sim import gen, userfmt, yamldoc
from sim.live import Live
from sim.world import Interrupt, SimCrash, Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, save

# modules that only compute (they run before the output is opened or after it is closed)
PURE = ["merge/", "mem/", "report/", "xml/xml_reader.py", "xml/xml_writer.py", "yaml/yaml_reader.py", "rgy/"]

INPUTS = ["a.xml", "b.xml", "c.xml.gz", "y.yml", "torn.xml", "torn.xml.gz", "invalid.xml", "empty.xml", "junk.bin",
          "bad.yml", "badschema.yml", "ctl.yml", "sur.yml", "missing.xml", "adir"]
GOODX = ["a.xml", "b.xml", "c.xml.gz"]
OUTS = ["out.xml", "old.xml", "old.txt", "new.txt", "same"]


def gen_cmd(r):
    c = r.choice(["merge", "merge", "convert", "report", "report"])
    bad = r.random() < 0.6
    pool = INPUTS if bad else GOODX
    o = {"op": "cli", "cmd": c, "out": r.choice(["new.out", "old.xml", "old.txt", "a.xml"])}
    if c == "merge":
        ins = [r.choice(GOODX) for _ in range(r.randrange(0, 3))] + [r.choice(pool)]
        r.shuffle(ins)
        o["ins"] = ins
    else:
        o["ins"] = [r.choice(pool)]
    if any(i.endswith(".yml") for i in o["ins"]) and r.random() < 0.8:
        o["if"] = "yaml"
        if c == "merge":
            o["ins"] = [i if i.endswith(".yml") else "y.yml" for i in o["ins"]]
    elif r.random() < 0.08:
        o["if"] = r.choice(["yaml", "nope", "xml", ""])
    if c == "report":
        x = r.random()
        if x < 0.45:
            o["of"] = "json"
        elif x < 0.6:
            o["of"] = r.choice(["txt", "nope", "html"])
    elif r.random() < 0.12:
        o["of"] = r.choice(["yaml", "nope", "xml"])
    if r.random() < 0.05:
        o["noout"] = True
    if r.random() < 0.12:
        # formats registered by the user
        o["of"] = "ustr" if c == "report" else "udb"
        if c == "report" and r.random() < 0.4:
            o["of"], o["out"] = "udir", r.choice(["olddir", "olddir", "old.txt", "newdir"])
            o["ins"] = [r.choice(["torn.xml", "torn.xml.gz", "missing.xml", "invalid.xml", "adir", "y.yml", "a.xml"])]
        else:
            o["refuse"] = r.choice([None, "ValueError", "OSError", "MemoryError", "KeyboardInterrupt"])
    elif r.random() < 0.04:
        o["if"] = "udb"
    return o


def op(r, ndb):
    x = r.random()
    if x < 0.72:
        o = gen_cmd(r)
    else:
        o = {"op": "save", "db": r.randrange(ndb), "via": r.choice(["path", "dbwrite", "rel"]),
             "out": r.choice(["new.out", "old.xml", "old.txt", "a.xml"]),
             "poison": r.choice([None, None, "ctl", "sur", "none-name", "date", "int-name", "bad-count", "du-ctl",
                                 "hist-ctl", "crosspt"])}
    y = r.random()
    if o.get("of") == "udir":
        y = max(y, 0.25)          # the old directory is removed first: nothing is promised from there on
    if y < 0.25:
        o["int"] = {"n": r.randrange(1, 40) if r.random() < 0.3 else r.randrange(1, 2500),
                    "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
    elif y < 0.5:
        f = {"op": r.choice(["openr", "read", "read", "seek"]), "role": r.choice(["*", "data", "schema"]),
             "nth": r.randrange(1, 12), "act": r.choice(["EIO", "EACCES", "crash", "ENOMEM", "KeyboardInterrupt"])}
        if f["op"] == "openr":
            f["nth"] = r.randrange(1, 5)
        o["faults"] = [f]
    elif y < 0.6:
        o["faults"] = [{"op": "write", "role": "*", "nth": r.randrange(1, 4),
                        "act": r.choice(["crash", "ENOSPC", "EIO", "KeyboardInterrupt"]), "part": r.choice([0, 5])}]
        o["wfault"] = True
    return o


def poison(m, db, kind):
    """Make the database impossible to express in XML."""
    u = m.ucis
    ST = m.scope_t.ScopeTypeT
    inst = next(db.scopes(ST.INSTANCE))
    bad = {"ctl": "x\x01y", "sur": "x\ud800y", "none-name": None, "int-name": 7}.get(kind)
    if kind in ("ctl", "sur", "none-name", "int-name"):
        cg = inst.createCovergroup("pz", None, 1, u.UCIS_OTHER)
        cp = cg.createCoverpoint("cp", None, 1, u.UCIS_OTHER)
        cp.createBin(bad, None, 1, 1, "b")
    elif kind == "date":
        h = db.createHistoryNode(None, "h", None, None)
        h.setDate("not a date")
    elif kind == "bad-count":
        cg = inst.createCovergroup("pz", None, 1, u.UCIS_OTHER)
        cp = cg.createCoverpoint("cp", None, "\x02", u.UCIS_OTHER)
        cp.createBin("b", None, 1, 1, "b")
    elif kind == "du-ctl":
        du = db.createScope("d\x03", None, 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, 0)
        db.createInstance("i2", None, 1, u.UCIS_OTHER, u.UCIS_INSTANCE, du, 0)
    elif kind == "hist-ctl":
        h = db.createHistoryNode(None, "h", None, None)
        h.setComment("c\x00")
    elif kind == "crosspt":
        cg = inst.createCovergroup("pz", None, 1, u.UCIS_OTHER)
        cp = cg.createCoverpoint("c\x01", None, 1, u.UCIS_OTHER)
        cp.createBin("b", None, 1, 1, "b")


class C04:
    runs = {"quick": 2600, "thorough": 150000}
    rule = ("one evaluation prepares a directory of good, damaged, invalid and missing inputs and pre-existing "
            "outputs, then runs 4-9 commands or saves that fail for a bad input, unrepresentable data, a wrong format, "
            "an injected read error, an interrupt at an arbitrary line of the computing code or a crash; the whole "
            "directory is compared byte for byte around each. non-trivial = at least one failed operation had an "
            "existing output file at stake")
    measure = "distinct event-log digests (operation, outcome, faults) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["interrupts are delivered in the computing modules; between opening and closing the "
                            "output nothing is promised about the output itself"]

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.25])
        uni = gen.universe(r, r.choice([1, 2]), spice)
        dbs = [gen.draw(r, uni, spice=spice, big=False) for _ in range(2)]
        return {"env": gen.env_plain(r), "dbs": dbs, "yml": yamldoc.generate(r, 1, spice),
                "ystyle": r.choice(["json", "json", "json", "block"]), "cut": round(r.random() * 0.98, 3), "ops": [op(r, 2) for _ in range(r.randrange(4, 10))]}

    def setup(self, plan, ctx):
        import os
        w = ctx.w
        for i, n in ((0, "a.xml"), (1, "b.xml")):
            L = Live(ctx.m, plan["dbs"][i])
            save(ctx, L.db, "path", n)
        a, b = w.get("a.xml"), w.get("b.xml")
        z = gzip.compress(b, 6, mtime=0)
        w.put("c.xml.gz", z)
        w.put("torn.xml", a[:int(len(a) * plan["cut"])])
        w.put("torn.xml.gz", z[:max(3, int(len(z) * plan["cut"]))])
        w.put("invalid.xml", a.replace(b"coverageCount", b"coverageCnt"))
        w.put("empty.xml", b"")
        w.put("junk.bin", bytes(range(256)))
        y = yamldoc.render(plan["yml"], plan["ystyle"])
        w.put("y.yml", y)
        w.put("bad.yml", y + "\n: : [\n")
        w.put("badschema.yml", "coverage:\n  covergroups:\n  - nam: x\n")
        doc = ('coverage:\n  covergroups:\n  - name: cg\n    instances:\n    - name: i\n      coverpoints:\n'
               '      - name: "%s"\n        bins:\n        - {name: "%s", count: 1}\n')
        w.put("ctl.yml", doc % (("x\\x07",) * 2))
        w.put("sur.yml", doc % (("x\\ud800",) * 2))
        os.mkdir(w.path("adir"))
        w.put("old.xml", b"previous contents\n" * 50)
        w.put("old.txt", b"\x00\xffprevious")
        os.mkdir(w.path("olddir"))
        w.put("olddir/index.json", b"old report")
        w.put("unrelated.dat", b"hands off")

    def run(self, plan, ctx):
        w = ctx.w
        self.setup(plan, ctx)
        U = userfmt.Formats(ctx)
        with userfmt.Contained(w) as box:
            self.operations(plan, ctx, U, box)

    def operations(self, plan, ctx, U, box):
        import os
        w = ctx.w
        stake = 0

        for o in plan["ops"]:
            before = w.listing()
            out = o["out"]
            it = None
            crashed = False
            U.refuse = o.get("refuse")
            w.sync()

            def mine(k):
                return k == out or (o.get("of") == "udir" and k.startswith(out + "/"))
            if o["op"] == "cli":
                argv = [o["cmd"]]
                if o.get("if") is not None:
                    argv += ["--input-format", o["if"]]
                if o.get("of") is not None:
                    argv += ["--output-format", o["of"]]
                if not o.get("noout"):
                    argv += ["-o", out]
                argv += o["ins"]
                ins = set(o["ins"])

                def go():
                    rc, so, se = w.cli(argv)
                    if rc != 0:
                        raise RuntimeError("exit %d" % rc)
            else:
                L = Live(ctx.m, plan["dbs"][o["db"]], "xml")
                if o["poison"]:
                    poison(ctx.m, L.db, o["poison"])
                ins = set()

                def go():
                    save(ctx, L.db, o["via"], out)
            w.arm(o.get("faults"))
            e = None
            try:
                if o.get("int"):
                    it = Interrupt(w, o["int"]["n"], o["int"]["exc"], only=PURE)
                    with it:
                        _, e = attempt(go)
                else:
                    _, e = attempt(go)
            except SimCrash:
                crashed = True
            fired = w.disarm()
            box.check()
            after = w.listing()
            ctx.ev(o["op"], o.get("cmd"), "crash" if crashed else exc_name(e) if e else "ok", fired,
                   it.fired if it else None)
            wrote = any(f[0] in ("write", "close", "openw") for f in fired)
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            ctx.ev("changed", changed)
            # input files are never modified (unless the caller named one of them as the output)
            for k in changed:
                if k in before and not mine(k):
                    raise Violation("other-file-modified", "%s was changed by %s" % (k, describe(o)))
            if crashed:
                w.restart()
                U = userfmt.Formats(ctx)
                if not wrote and changed:
                    raise Violation("crash-before-write-changed-files", "%s changed by %s" % (changed, describe(o)))
            elif e is not None and not wrote:
                late = False
                if changed == [out] and it is not None and it.fired:
                    # interrupted after the result was complete?  then it equals an undisturbed result
                    _, e2 = attempt(go)
                    late = e2 is None and w.exists(out) and w.get(out) == after[out]
                if changed and not late:
                    raise Violation("failed-operation-changed-files", "%s changed by failed %s (%s)" % (
                        changed, describe(o), str(e)[:150]))
                ctx.hit("failed-clean")
                if out in before:
                    stake += 1
            elif e is None:
                extra = [k for k in changed if not mine(k)]
                if extra:
                    raise Violation("extra-files", "%s created by %s" % (extra, describe(o)))
                ctx.hit("succeeded")
            else:
                ctx.hit("failed-while-writing")
            # put the directory back
            for k in list(after):
                if k not in before and k.endswith("/") and os.path.isdir(w.path(k[:-1])):
                    shutil.rmtree(w.path(k[:-1]))
            for k in before:
                if k.endswith("/") and not os.path.isdir(w.path(k[:-1])):
                    os.mkdir(w.path(k[:-1]))
            after = w.listing()
            for k in list(after):
                if k not in before and os.path.isfile(w.path(k)):
                    os.unlink(w.path(k))
            for k, v in before.items():
                if not k.endswith("/") and w.listing().get(k) != v:
                    w.put(k, v)
        ctx.nontrivial = stake > 0


def describe(o):
    return " ".join(str(x) for x in ([o.get("cmd") or "save"] + (o.get("ins") or []) + ["->", o["out"]]))


PROP = C04()

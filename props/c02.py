"""C02: a torn, truncated or half-read XML file never loads as different data."""
import gzip
import json
import os

from sim import gen, model
from sim.live import Live
from sim.world import SimCrash, Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, hard, read, save


def point(r):
    x = r.random()
    if x < 0.35:
        return ["frac", round(r.random(), 6)]
    if x < 0.6:
        return ["end", r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 20, 33, r.randrange(1, 200)])]
    if x < 0.9:
        return ["gt", r.randrange(0, 12) if r.random() < 0.5 else r.randrange(0, 400), r.choice([0, 1])]
    return ["start", r.choice([0, 1, 2, 3, 4, 5, 10, 60])]


def resolve(p, data):
    n = len(data)
    if p[0] == "frac":
        return int(n * p[1])
    if p[0] == "end":
        return max(0, n - p[1])
    if p[0] == "start":
        return min(n, p[1])
    pos = [i + 1 for i, c in enumerate(data) if c == 0x3E]      # after '>'
    if not pos:
        return n // 2
    return max(0, pos[-1 - (p[1] % len(pos))] - p[2])


VIAS = ["path", "path", "rgy", "bytesio", "rb", "text", "stringio", "reader"]


def op(r):
    x = r.random()
    o = {"at": point(r), "gz": r.random() < 0.3, "level": r.choice([0, 1, 9]),
         "vias": r.sample(["path", "rgy", "bytesio", "rb", "text", "reader"], 2), "cmd": None}
    if r.random() < 0.5:
        o["cmd"] = r.choice(["merge", "merge2", "convert", "report", "reportj"])
    if x < 0.35:
        o["op"] = "cut"
    elif x < 0.5:
        o["op"] = "zero"
    elif x < 0.8:
        o["op"] = "save"
        o["gz"] = False
        o["via"] = r.choice(["path", "path", "stream", "dbwrite", "cli"])
        o["old"] = r.choice([None, None, "other", "same"])
        o["act"] = r.choice(["crash", "crash", "EIO", "ENOSPC", "KeyboardInterrupt"])
        if r.random() < 0.25:
            o["nth"] = r.randrange(1, 6)
        o["tail"] = {"mode": r.choice(["keep", "keep", "trunc", "zero"]), "frac": round(r.random(), 4)}
    else:
        o["op"] = "rfault"
        o["act"] = r.choice(["eof", "eof", "EIO", "ESTALE"])
        o["times"] = r.choice([1, 1, 2, 100000])
        if r.random() < 0.4:
            o["nth"] = r.randrange(1, 9)
    return o


class C02:
    runs = {"quick": 2400, "thorough": 150000}
    rule = ("one evaluation saves one or two generated databases and then applies 3-8 damages: file cut at a byte, "
            "tail zeroed, save torn at a byte by a crash (with loss or zeroing of the unsynced tail), by a disk error "
            "or by an interrupt, or reading an intact file cut off by an early end-of-file or error; after each, the "
            "file is read through several routes and given to a command. non-trivial = at least one damaged file "
            "was rejected")
    measure = "distinct event-log digests (damage offset, route, outcome) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["damage is a lost or zeroed tail, not bit rot inside plain XML"]

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.3])
        size = r.choice([1, 1, 2, 3])
        uni = gen.universe(r, size, spice)
        dbs = [gen.draw(r, uni, True, spice=spice, big=False), gen.draw(r, uni, spice=spice, big=False)]
        env = gen.env_plain(r)
        return {"env": env, "dbs": dbs, "ops": [op(r) for _ in range(r.randrange(3, 9))]}

    def run(self, plan, ctx):
        w = ctx.w
        L = [Live(ctx.m, s, "xml") for s in plan["dbs"]]
        wants = []
        for i, l in enumerate(L):
            save(ctx, l.db, "path", "ref%d.xml" % i)
            M, H = l.snapshot()
            wants.append((model.saved(M), H))
        docs = [w.get("ref%d.xml" % i) for i in range(2)]
        rejected = 0

        def same(db, k, hist=True):
            try:
                model.check_db(ctx.m, db, wants[k][0], "x")
                if hist:
                    model.check_hist(ctx.m, db, wants[k][1], "x")
                return True
            except Violation as v:
                same.why = v.detail
                return False

        def judge(db, e, ok_for, what, hist=True):
            """Error, or exactly one of the complete saves in ok_for."""
            nonlocal rejected
            if e is not None:
                rejected += 1
                ctx.hit("rejected")
                return
            if any(same(db, k, hist) for k in ok_for):
                ctx.hit("accepted-complete")
                return
            raise Violation("damaged-file-loaded", "%s: %s" % (what, same.why))

        def commands(o, name, ok_for, faults=None):
            c = o["cmd"]
            if not c:
                return
            out = "out.xml"
            if os.path.exists(w.path(out)):
                os.unlink(w.path(out))
            if c == "merge":
                argv, exp = ["merge", "-o", out, name], lambda k: model.merge([wants[k][0]])
            elif c == "merge2":
                argv, exp = ["merge", "-o", out, "ref0.xml", name], \
                    lambda k: model.merge([wants[0][0], wants[k][0]])
            elif c == "convert":
                argv, exp = ["convert", "-o", out, name], lambda k: model.merge([wants[k][0]])
            elif c == "report":
                argv, exp = ["report", "-o", out, name], None
            else:
                argv, exp = ["report", "-of", "json", "-o", out, name], None
            w.arm(faults)
            rc, so, se = w.cli(argv)
            fired = w.disarm()
            ctx.ev(c, rc, fired)
            if faults and not hard(fired):
                if rc != 0:
                    raise Violation("command-failed", se[-300:])
            if rc != 0:
                ctx.hit("command-rejected")
                return
            why = "?"
            for k in ok_for:
                try:
                    if exp is not None:
                        db = read(ctx, "path", out)
                        model.check_db(ctx.m, db, model.saved(exp(k)), "x")
                    elif c == "report":
                        model.check_text(model.report_of(wants[k][0]), w.get(out).decode(), "x", 0.51, 0.0051)
                    else:
                        d = model.dump_json_report(json.loads(w.get(out)), "x")
                        model.cmp_report(model.report_of(wants[k][0]), d, "x", weights=False)
                    ctx.hit("command-complete")
                    return
                except Violation as v:
                    why = v.detail
                except Exception as e:
                    why = repr(e)
            raise Violation("damaged-file-used-by-command", "%s exited 0: %s" % (c, why))

        for n, o in enumerate(plan["ops"]):
            k = o["op"]
            name = "t%d.xml" % n
            doc = docs[0]
            if o["gz"]:
                doc = gzip.compress(doc, o["level"], mtime=0)
            at = resolve(o["at"], doc)
            ctx.ev(k, at, o["gz"])
            ok_for = [0]
            if k in ("cut", "zero"):
                body = doc[:at]
                if k == "zero":
                    body += b"\0" * (len(doc) - at)
                w.put(name, body)
                w.count_fault("damage." + k + (".gz" if o["gz"] else ""))
            elif k == "save":
                if o["old"]:
                    w.put(name, docs[1] if o["old"] == "other" else docs[0])
                    ok_for = [0, 1] if o["old"] == "other" else [0]
                f = {"op": "write", "role": name, "act": o["act"]}
                if "nth" in o:
                    f["nth"] = o["nth"]
                else:
                    f["at"] = at
                w.sync()
                w.arm([f])
                crashed = False
                rc = None
                try:
                    if o["via"] == "cli":
                        rc, so, se = w.cli(["convert", "-o", name, "ref0.xml"])
                        e = None if rc == 0 else Exception("rc %d" % rc)
                    else:
                        _, e = attempt(lambda: save(ctx, L[0].db, o["via"], name))
                except SimCrash:
                    crashed = True
                    e = None
                fired = w.disarm()
                ctx.ev("save", o["via"], crashed, exc_name(e) if e else "ok", fired)
                if crashed:
                    w.crash_tail(o["tail"])
                    w.restart()
                    # the process is gone: rebuild what it had in memory
                    L = [Live(ctx.m, s, "xml") for s in plan["dbs"]]
                w.sync()
                if not fired and e is not None:
                    raise Violation("save-failed", repr(e))
            if k == "rfault":
                w.put(name, doc)
                f = {"op": "read", "role": name, "act": o["act"], "times": o["times"]}
                if "nth" in o:
                    f["nth"] = o["nth"]
                else:
                    f["at"] = at
                for via in o["vias"]:
                    if o["gz"] and via not in ("path", "rgy"):
                        continue
                    if via == "bytesio":
                        continue
                    w.arm([f])
                    db, e = attempt(lambda: read(ctx, via, name))
                    fired = w.disarm()
                    ctx.ev("read", via, exc_name(e) if e else "ok", fired)
                    if not fired and e is not None:
                        raise Violation("read-failed", "%s: %r" % (via, e))
                    judge(db, e, [0], "%s with %s at %s" % (via, o["act"], o.get("nth", at)))
                commands(o, name, [0], [f])
                continue
            if not w.exists(name):
                continue
            hist = not (k == "save" and o["via"] == "cli")
            for via in o["vias"]:
                if w.get(name)[:2] == b"\x1f\x8b" and via not in ("path", "rgy"):
                    continue
                db, e = attempt(lambda: read(ctx, via, name))
                ctx.ev("read", via, exc_name(e) if e else "ok")
                judge(db, e, ok_for, "%s of %s at byte %d of %d" % (via, k, at, len(doc)), hist)
            commands(o, name, ok_for)
        ctx.nontrivial = rejected > 0


PROP = C02()

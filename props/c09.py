"""C09: results do not depend on the host environment."""
import json
import os
import re
import subprocess
import sys

from sim import gen, hashrun, model, yamldoc
from sim.live import Live
from sim.world import REAL_DT, Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, read, save
from . import kit

KINDS = kit.KINDS + ["regen", "regen", "regen", "stamp", "stamp", "record", "xfer", "xfer"]


def host(r):
    e = gen.env(r)
    if r.random() < 0.3:
        # right around a daylight-saving change of the zone
        tz, t = r.choice([("America/New_York", 1710054000), ("America/New_York", 1730613600),
                          ("Europe/Berlin", 1711846800), ("Europe/Berlin", 1729987200),
                          ("Australia/Lord_Howe", 1712415600), ("Pacific/Apia", 1325239200),
                          ("America/St_Johns", 1710048600)])
        e["tz"], e["now"] = tz, t + r.randrange(-5400, 5400)
    e["cwd"] = r.choice([".", ".", "wd", "wd/ünter"])
    return e


def gen_op(r):
    o = kit.op(r, [r.choice(KINDS)])
    if o["op"] == "regen":
        o["file"] = r.choice(["a.xml", "b.xml"])
        o["sv"] = r.choice(["path", "rel", "stringio", "stream", "writer"])
        o["rv"] = r.choice(["path", "rel", "rgy", "bytesio", "rb", "text", "reader"])
    elif o["op"] in ("stamp", "record"):
        o["db"] = r.randrange(2)
    elif o["op"] == "xfer":
        o["db"] = r.randrange(2)
        o["host"] = host(r)
        o["restart"] = r.random() < 0.5
        o["sv"] = r.choice(["path", "rel", "stream"])
        o["rv"] = r.choice(["path", "rel", "rgy", "rb", "text"])
    return o


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "at %d: %r / %r" % (i, a[i:i + 60], b[i:i + 60]) if isinstance(a, str) else "%r / %r" % (x, y)
    return "lengths %d / %d" % (len(a), len(b))


class C09:
    runs = {"quick": 3000, "thorough": 150000}
    rule = ("one evaluation moves files and a process through 3-7 hosts that differ in time zone (including "
            "daylight-saving gaps and overlaps), locale encoding, clock (jumping forwards and backwards), working "
            "directory and user database (and, in some, in the interpreter's hash seed), performing recording, save, read, merge, report and command operations on "
            "each; every result is compared with the reference model, which knows no host, and stamps with the "
            "simulated clock. non-trivial = at least three hosts with different zone or encoding were used")
    measure = "distinct event-log digests (hosts, operations, results) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["locale encodings are ASCII supersets; text reports are printed to a standard output that can express their names"]

    def gen(self, r, tier, idx):
        st = kit.gen_stock(r, r.choice([0.1, 0.4]), r.choice([1, 1, 2]))
        hosts = []
        for _ in range(r.randrange(3, 8)):
            hosts.append({"host": host(r), "restart": r.random() < 0.4,
                          "ops": [gen_op(r) for _ in range(r.randrange(1, 4))], "jump": r.choice([0, 0, 1, -3600, 86400, -10**7])})
        e = host(r)
        st.update(env={k: v for k, v in e.items() if k != "cwd"}, hosts=hosts)
        if r.random() < 0.02:
            y = yamldoc.generate(r, 2, 0.2)
            st["hash"] = {"seeds": [r.randrange(1, 2**32) for _ in range(2)], "yaml": json.dumps(yamldoc.tree(y))}
        return st

    def switch(self, ctx, h, restart):
        w = ctx.w
        w.set_tz(h["tz"])
        w.set_user(h["user"])
        w.encoding = h["enc"]
        w.bufsize, w.chunk = max(16, h["buf"]), h["chunk"]
        w.sim_elapsed += abs(h["now"] - w.now)
        w.now = float(h["now"])
        w.chdir(w.path(h["cwd"]))
        if restart:
            w.restart()

    def run(self, plan, ctx):
        w = ctx.w
        os.makedirs(w.path("wd", "ünter"))
        K = kit.Kit(ctx, plan)
        K.files()
        K.bind()
        seen = set()
        for hi, h in enumerate(plan["hosts"]):
            self.switch(ctx, h["host"], h["restart"])
            if h["restart"]:
                K.bind()
            seen.add((h["host"]["tz"], h["host"]["enc"]))
            ctx.hit("hosts")
            w.count_fault("env.host-switch")
            for oi, o in enumerate(h["ops"]):
                if h["jump"]:
                    w.advance(h["jump"])
                    w.count_fault("env.clock-jump")
                tag = "%d_%d" % (hi, oi)
                k = o["op"]
                m = ctx.m
                if k == "regen":
                    db = read(ctx, o["rv"], o["file"])
                    M, H = K.fmodel[o["file"]]
                    model.check_db(m, db, M, "read-differs")
                    model.check_hist(m, db, H, "read-differs")
                    save(ctx, db, o["sv"], o["file"])
                    K.keep[o["file"]] = w.get(o["file"])
                    d = None
                elif k == "record":
                    L = Live(m, plan["dbs"][o["db"]])
                    L.check("recorded-differs")
                    d = None
                elif k == "xfer":
                    L = Live(m, plan["dbs"][o["db"]])
                    f = "x_%s.xml" % tag
                    save(ctx, L.db, o["sv"], f)
                    want = model.saved(L.model), tuple(L.hist)
                    self.switch(ctx, o["host"], o["restart"])
                    if o["restart"]:
                        K.bind()
                    db = read(ctx, o["rv"], f)
                    model.check_db(ctx.m, db, want[0], "transfer-differs")
                    model.check_hist(ctx.m, db, want[1], "transfer-differs")
                    d = None
                elif k == "stamp":
                    d = self.stamp(ctx, plan["dbs"][o["db"]], "p_%s.xml" % tag)
                else:
                    w.stdout_enc = self.stdout_enc(K, o, w.encoding)
                    v = K.do(o, tag)
                    w.stdout_enc = "utf-8"
                    d = K.judge(o, v, "result-depends-on-host")
                ctx.ev(k, d)
        K.check_inputs("input-changed")
        if plan.get("hash"):
            self.hash_seeds(ctx, plan)
        ctx.nontrivial = len(seen) >= 3

    def hash_seeds(self, ctx, plan):
        """The interpreter's hash seed is part of the host: the same pipeline in fresh processes that differ in it."""
        w = ctx.w
        d = os.path.join(os.environ["VERIF_SCRATCH"], "hash-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        src, dst = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(src, "w", encoding="utf-8") as f:
            json.dump({"dbs": plan["dbs"], "yaml": plan["hash"]["yaml"]}, f)
        res = []
        for s in plan["hash"]["seeds"]:
            if os.path.exists(dst):
                os.unlink(dst)
            env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(s), "PYTHONUTF8": "1", "TZ": "UTC",
                   "LOGNAME": "sim"}
            p = subprocess.run([sys.executable, hashrun.__file__, os.environ.get("VERIF_REPO", "/repo"), src, dst],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if p.returncode:
                raise Violation("pipeline-failed", "with hash seed %d: %s" % (s, p.stdout.decode(errors="replace")[-500:]))
            with open(dst, encoding="utf-8") as f:
                res.append(json.load(f))
            w.count_fault("env.hash-seed")
        for k in res[0]:
            if res[0][k] != res[1][k]:
                raise Violation("depends-on-hash-seed", "%s differs: %s" % (k, first_diff(res[0][k], res[1][k])))
        ctx.ev("hash", sorted(res[0]))
        ctx.hit("hash-seeds-compared")

    def stdout_enc(self, K, o, enc):
        """Standard output has the locale's encoding, unless the text to be printed cannot be expressed in it."""
        if o["op"] != "cli_report" or o["out"] or o["of"] == "json":
            return enc
        try:
            json.dumps(model.report_of(K.fmodel[o["file"]][0]), ensure_ascii=False, default=str).encode(enc)
            return enc
        except UnicodeError:
            return "utf-8"

    def stamp(self, ctx, spec, f):
        w, m = ctx.w, ctx.m
        L = Live(m, spec)
        local = REAL_DT.fromtimestamp(w.now)
        if L.db.getWrittenTime() != int(w.now):
            raise Violation("stamp", "database created at %r claims %r" % (int(w.now), L.db.getWrittenTime()))
        by = L.db.getWrittenBy()
        if not isinstance(by, str) or (w.user is not None and by != w.user):
            raise Violation("stamp", "written by %r, the user is %r" % (by, w.user))
        n = L.db.createHistoryNode(None, "stamped", None, m.hnk.HistoryNodeKind.TEST)
        want = local.strftime("%Y%m%d%H%M%S")
        if n.getDate() != want:
            raise Violation("stamp", "default date %r, the host's clock says %r" % (n.getDate(), want))
        if m.ucis.ucis_Time() != want:
            raise Violation("stamp", "ucis_Time() %r, the host's clock says %r" % (m.ucis.ucis_Time(), want))
        n.setUserName("u")
        save(ctx, L.db, "path", f)
        head = w.get(f).decode("utf-8")
        t = re.search(r'writtenTime="([^"]*)"', head)
        if t is None or t.group(1)[:10] != local.strftime("%Y-%m-%d"):
            raise Violation("stamp", "file written on %s is stamped %r" % (local, t and t.group(1)))
        db = read(ctx, "path", f)
        got = model.dump_hist(m, db)[-1]
        if got[12] != want:
            raise Violation("stamp", "default date %r read back as %r" % (want, got[12]))
        return want


PROP = C09()

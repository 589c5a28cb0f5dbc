"""C01: acknowledged XML saves read back exactly, over histories of saves, mutations, faults and restarts."""
import gzip

from sim import gen, model
from sim.live import Live
from sim.world import Violation
from .common import (ASSUME, READ_VIAS, REAL_ALL, SAVE_VIAS, STUB_HOST, attempt, chk, exc_name, hard, mutation,
                     read, read_faults, save, write_faults)


def op(r, ndb, nf):
    f = "f%d.xml" % r.randrange(nf)
    x = r.random()
    if x < 0.30:
        o = {"op": "save", "db": r.randrange(ndb), "file": f, "via": r.choice(SAVE_VIAS)}
        if r.random() < 0.45:
            o["faults"] = write_faults(r)
        return o
    if x < 0.58:
        o = {"op": "read", "file": f, "via": r.choice(READ_VIAS)}
        if r.random() < 0.4:
            o["faults"] = read_faults(r)
        return o
    if x < 0.68:
        return {"op": "mutate", "db": r.randrange(ndb), "muts": [mutation(r) for _ in range(r.randrange(1, 5))]}
    if x < 0.76:
        o = {"op": "gen", "src": f, "dst": "f%d.xml" % r.randrange(nf), "via": r.choice(SAVE_VIAS)}
        if r.random() < 0.3:
            o["faults"] = write_faults(r)
        return o
    if x < 0.84:
        o = {"op": "convert", "src": f, "dst": "f%d.xml" % r.randrange(nf)}
        if r.random() < 0.4:
            o["faults"] = write_faults(r) if r.random() < 0.6 else read_faults(r)
        return o
    if x < 0.90:
        return {"op": "gz", "src": f, "dst": "f%d.xml" % r.randrange(nf), "level": r.choice([0, 1, 9])}
    if x < 0.95:
        return {"op": "restart"}
    return {"op": "advance", "dt": r.choice([1, 3600, -7200, 86400 * 200, -86400 * 3000])}


class C01:
    runs = {"quick": 3000, "thorough": 260000}
    rule = ("one evaluation is one simulated history: 1-3 databases, 4-14 operations (save by every route, mutate, "
            "read by every route, re-save generation, command-line convert, gzip, process restart, clock jump) with "
            "injected I/O faults and retries, ending in a restart and a read of every acknowledged file; non-trivial "
            "= at least one acknowledged save was read back after a fault fired, a restart, a mutation or another "
            "generation")
    measure = ("distinct_nontrivial counts distinct event-log digests (operation outcomes, fault firings and a hash "
               "of every database read) of non-trivial runs")
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME

    def gen(self, r, tier, idx):
        size = r.choice([1, 1, 2, 2, 3]) if r.random() < 0.95 else r.choice([5, 8])
        spice = r.choice([0.0, 0.25, 0.6])
        ndb = r.choice([1, 1, 2, 3])
        dbs = [gen.draw(r, gen.universe(r, size, spice), spice=spice) for _ in range(ndb)]
        kinds = [r.choice(["mem", "xml"]) for _ in range(ndb)]
        capi = [r.random() < 0.3 for _ in range(ndb)]
        nf = r.choice([1, 2, 3])
        ops = [{"op": "save", "db": 0, "file": "f0.xml", "via": r.choice(SAVE_VIAS)}]
        ops += [op(r, ndb, nf) for _ in range(r.randrange(3, 13))]
        for h in [h for d in dbs for h in d.get("hist", [])] + [
                m[1] for o in ops for m in o.get("muts", []) if m[0] == "hist"]:
            if r.random() < 0.15:
                h.pop("date", None)
        env = gen.env(r) if r.random() < 0.3 else gen.env_plain(r)
        return {"env": env, "dbs": dbs, "kinds": kinds, "capi": capi, "ops": ops}

    def run(self, plan, ctx):
        w = ctx.w
        state = {"interesting": 0}
        lives = {}
        acked = {}       # file -> (model, hist)

        def live(k):
            if k not in lives:
                lives[k] = Live(ctx.m, plan["dbs"][k], plan["kinds"][k], plan["capi"][k])
            return lives[k]

        def do_save(db, via, name, faults):
            """Save with faults, then retry without until acknowledged."""
            acked.pop(name, None)
            w.arm(faults)
            _, e = attempt(lambda: save(ctx, db, via, name))
            fired = w.disarm()
            if fired:
                state["interesting"] += 1
            ctx.ev("save", via, name, exc_name(e) if e else "ok", fired)
            if e is None:
                ctx.hit("save-acked" + ("-despite-fault" if hard(fired) else ""))
                return
            if not hard(fired):
                raise Violation("save-failed", "%s: %r" % (via, e))
            ctx.hit("save-failed-retried")
            _, e = attempt(lambda: save(ctx, db, via, name))
            if e is not None:
                raise Violation("retry-failed", "%s: %r" % (via, e))

        def do_read(via, name, faults, what):
            want = acked[name]
            if via in ("bytesio", "stringio", "text", "reader", "rb") and w.get(name)[:2] == b"\x1f\x8b":
                via = "path"
            w.arm(faults)
            db, e = attempt(lambda: read(ctx, via, name))
            fired = w.disarm()
            if fired:
                state["interesting"] += 1
            ctx.ev("read", via, name, exc_name(e) if e else "ok", fired)
            if e is not None:
                if not hard(fired):
                    raise Violation("read-failed", "%s after %s: %r" % (via, what, e))
                ctx.hit("read-failed-retried")
                db, e = attempt(lambda: read(ctx, via, name))
                if e is not None:
                    raise Violation("read-retry-failed", "%s: %r" % (via, e))
            chk(ctx, db, want, "read-back-differs")
            ctx.hit("read-verified")
            ctx.ev("content", model.canon_sorted(want[0]))
            return db

        def restart():
            w.restart()
            lives.clear()
            state["interesting"] += 1

        for o in plan["ops"]:
            k = o["op"]
            if k == "save":
                L = live(o["db"])
                via = o["via"]
                if via == "dbwrite" and L.kind != "xml":
                    via = "path"
                do_save(L.db, via, o["file"], o.get("faults"))
                M, H = L.snapshot()
                acked[o["file"]] = (model.saved(M), H)
            elif k == "mutate":
                live(o["db"]).mutate(o["muts"])
                state["interesting"] += 1
            elif k == "read":
                if o["file"] in acked:
                    do_read(o["via"], o["file"], o.get("faults"), "read")
            elif k == "gen":
                if o["src"] in acked:
                    db = do_read("path", o["src"], None, "generation")
                    want = acked[o["src"]]
                    via = "path" if o["via"] == "dbwrite" else o["via"]
                    if want[1] is not None or True:
                        do_save(db, via, o["dst"], o.get("faults"))
                        acked[o["dst"]] = want
                        state["interesting"] += 1
            elif k == "convert":
                if o["src"] in acked and o["src"] != o["dst"]:
                    want = acked[o["src"]]
                    acked.pop(o["dst"], None)
                    w.arm(o.get("faults"))
                    rc, so, se = w.cli(["convert", "-o", o["dst"], o["src"]])
                    fired = w.disarm()
                    ctx.ev("convert", rc, fired)
                    if rc != 0:
                        if not hard(fired):
                            raise Violation("convert-failed", se[-400:])
                        rc, so, se = w.cli(["convert", "-o", o["dst"], o["src"]])
                        if rc != 0:
                            raise Violation("convert-retry-failed", se[-400:])
                    acked[o["dst"]] = (want[0], None)
                    state["interesting"] += 1
            elif k == "gz":
                if o["src"] in acked:
                    d = w.get(o["src"])
                    w.put(o["dst"], gzip.compress(d, o["level"], mtime=0))
                    if d[:2] == b"\x1f\x8b":
                        w.put(o["dst"], d)
                    acked[o["dst"]] = acked[o["src"]]
            elif k == "restart":
                restart()
            elif k == "advance":
                w.advance(o["dt"])
        restart()
        for f in sorted(acked):
            do_read("path", f, None, "final restart")
        ctx.nontrivial = bool(acked) and state["interesting"] > 1


PROP = C01()

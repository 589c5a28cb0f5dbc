"""C13: the in-memory database holds exactly what was recorded, in order."""
from sim import build, gen, model
from sim.world import Interrupt, Violation
from .common import STUB_HOST, attempt

DUS = ["DU_MODULE", "DU_ARCH", "DU_PACKAGE", "DU_PROGRAM", "DU_INTERFACE"]
CT = ["CVGBIN", "CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN", "STMTBIN", "BRANCHBIN", "TOGGLEBIN", "USERBIN",
      "BLOCKBIN"]
OPTS = ["w", "goal", "at_least", "auto_bin_max", "detect_overlap", "strobe", "comment", "per_instance",
        "merge_instances", "source_type"]
SETTER = {"w": "Weight", "goal": "Goal", "at_least": "AtLeast", "auto_bin_max": "AutoBinMax",
          "detect_overlap": "DetectOverlap", "strobe": "Strobe", "comment": "Comment",
          "per_instance": "PerInstance", "merge_instances": "MergeInstances"}
PROPS = {"w": "SCOPE_WEIGHT", "goal": "SCOPE_GOAL", "at_least": "CVG_ATLEAST", "auto_bin_max": "CVG_AUTOBINMAX",
         "detect_overlap": "CVG_DETECTOVERLAP", "strobe": "CVG_STROBE", "per_instance": "CVG_PERINSTANCE",
         "merge_instances": "CVG_MERGEINSTANCES", "source_type": "SCOPE_SOURCE_TYPE"}
BOOLS = ("detect_overlap", "per_instance", "merge_instances")
CG_ONLY = ("per_instance", "merge_instances")


def gen_op(r, spice, k):
    x = r.random()
    o = {"db": r.randrange(3), "at": r.randrange(1000), "capi": r.random() < 0.3}
    nm = gen.name(r, spice)
    if x < 0.36:
        o.update(op="scope", what=r.choice(["du", "inst", "inst", "cg", "cg", "cg2", "cp", "cp", "cp", "cp2", "ci", "ci",
                                            "ci2", "cross", "cross", "subinst", "toggle"]),
                 n=nm, w=r.choice([0, 1, 1, 2, 50]), src=src(r), capi=r.random() < 0.3, t=r.choice(DUS),
                 k=r.randrange(1, 4), reuse=r.random() < 0.3)
    elif x < 0.62:
        o.update(op="bin", on=r.choice(["p", "p", "p", "p", "i"]), stmt=r.choice([None, 0, 1, 77]), n=nm, c=gen.count(r), al=r.choice([1, 1, 2, 10]), t=r.choice(CT), src=src(r),
                 via=r.choice(["bin", "bin", "bin", "cover", "reuse", "capi"]), g=r.randrange(0, 5), wt=r.randrange(0, 5))
    elif x < 0.74:
        o.update(op="inc", b=r.randrange(1000), amt=r.choice([None, 1, 2, 1000, 2**33]))
    elif x < 0.84:
        w = r.choice(OPTS)
        v = r.random() < 0.5 if w in BOOLS else gen.name(r, spice) if w == "comment" else r.randrange(0, 200)
        o.update(op="opt", what=w, v=v, prop=r.random() < 0.4, rp=r.random() < 0.4,
                 capi=r.random() < 0.4)
    elif x < 0.91:
        h = gen.hrec(r, spice)
        o.update(op="hist", h=h, td=r.random() < 0.3, capi=r.random() < 0.3,
                 parent=r.choice([None, None, r.randrange(10)]))
    elif x < 0.94:
        o.update(op="fh", n=r.choice(FILES + [nm]), wd=r.choice([".", "/w", None]), capi=r.random() < 0.3)
    elif x < 0.98:
        o.update(op="iter", what=r.choice(["scopes", "scopes", "bins", "hist"]), steps=r.randrange(0, 4),
                 mask=gen_mask(r))
    else:
        o.update(op="check")
    if o["op"] in ("scope", "bin", "inc", "hist", "opt") and r.random() < 0.25:
        o["int"] = {"n": r.randrange(1, 40), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
    return o


# different names; only comparing them as they are keeps them apart
FILES = ["a.sv", "b.sv", "A.sv", "a.SV", "dir/a.sv", "dir//a.sv", "./a.sv", "x/../a.sv", "dir\\a.sv", "/a.sv",
         "ü.sv", "u\u0308.sv", "a.sv ", "a.v", ""]


def kinds_with(what):
    """The kinds of object that have this option."""
    if what in CG_ONLY:
        return "cg", "ci"
    return ("inst", "du", "cg", "ci", "cp", "cross") if what in ("w", "goal", "source_type") else ("cg", "ci", "cp", "cross")


def src(r):
    if r.random() < 0.6:
        return None
    return [r.choice(FILES), r.randrange(0, 5000), r.randrange(0, 100)]


def gen_mask(r):
    return r.choice(["all", "all", [r.randrange(0, 40) for _ in range(r.randrange(1, 6))]])


class Node:
    def __init__(self, kind, name, typ, w, src, obj):
        self.kind, self.name, self.typ, self.w, self.src, self.obj = kind, name, typ, w, src, obj
        self.opts = {}
        self.kids = []
        self.bins = []
        self.on = None
        self.du = None
        self.up = None
        self.base = {}

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()


class Db:
    def __init__(self, m):
        ST = m.scope_t.ScopeTypeT
        self.db = m.mem_factory.MemFactory.create()
        self.root = Node("db", "", int(ST.RESERVEDSCOPE), 1, None, self.db)
        self.hist = []
        self.hobj = []
        self.fh = {}
        self.iters = []
        self.shared_cd = None


class C13:
    runs = {"quick": 12000, "thorough": 400000}
    rule = ("one evaluation performs 15-60 interleaved recording calls (scopes, instances, covergroups, coverpoints, "
            "crosses, cover instances, bins of every kind, increments, options by setter or property, history, file "
            "handles) on three databases, a quarter of them cut off by an interrupt at a seeded line, while iterators "
            "opened earlier are advanced in between; all databases are compared with the reference model after "
            "interrupts and at the end. non-trivial = an interrupt fired inside a creation or increment, or an open "
            "iterator was overtaken by a creation")
    measure = "distinct event-log digests (calls, interruption points, contents) of non-trivial runs"
    real = "ucis.mem, ucis base classes and the ucis_* functions"
    stub = STUB_HOST
    assumptions = ["interrupts arrive at executed source lines of the package",
                   "after an iterator has ended nothing is claimed about it",
                   "options that were never set keep the value they had when the object was made; that value itself is "
                   "only compared between objects of one kind none of whose ancestors had options set"]

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.3])
        ops = []
        for d in r.sample(range(3), r.choice([1, 1, 2, 3])):
            # something to start from, or most later calls would have no place to go
            for what in ("du", "inst", "cg", "cp", "cp", "ci", "cp", "cross")[:r.choice([3, 5, 8, 8])]:
                while True:
                    o = gen_op(r, spice, 0)
                    if o["op"] == "scope" and o["what"] == what:
                        break
                ops.append(dict(o, db=d))
        ops += [gen_op(r, spice, k) for k in range(r.randrange(15, 61))]
        return {"env": gen.env_plain(r), "ops": ops}

    def shrinks(self, plan):
        ops = plan["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(plan, ops=ops[:i] + ops[i + size:])
            size //= 2
        for i, o in enumerate(ops):
            if "int" in o:
                p = dict(o)
                del p["int"]
                yield dict(plan, ops=ops[:i] + [p] + ops[i + 1:])

    # ------------------------------------------------------------ helpers
    def source(self, m, D, s):
        if s is None:
            return None
        return m.src.SourceInfo(D.db.createFileHandle(s[0], "."), s[1], s[2])

    def mask(self, m, mk, bins=False):
        if mk == "all":
            return -1 if bins else m.scope_t.ScopeTypeT.ALL
        v = 0
        for b in mk:
            v |= 1 << b
        return v

    def pick(self, D, kinds, at):
        c = [n for n in D.root.walk() if n.kind in kinds]
        return c[at % len(c)] if c else None

    # ------------------------------------------------------------ run
    def run(self, plan, ctx):
        w, m = ctx.w, ctx.m
        for n in ("ucis", "mem_factory", "scope_t", "cover_t", "hnk", "tst", "td", "src"):
            getattr(m, n)
        m.imp("ucis.mem.mem_cross"), m.imp("ucis.mem.mem_toggle_instance_scope")
        self.IP = m.imp("ucis.int_property").IntProperty
        self.SP = m.imp("ucis.str_property").StrProperty
        self.fresh = {}
        dbs = [Db(m) for _ in range(3)]
        keen = False
        for o in plan["ops"]:
            D = dbs[o["db"]]
            k = o["op"]
            if k == "check":
                for x in dbs:
                    self.check(m, x, "recorded-data")
                continue
            if k == "fh":
                f = (m.ucis.ucis_CreateFileHandle(D.db, o["n"], o["wd"]) if o["capi"] else
                     D.db.createFileHandle(o["n"], o["wd"]))
                if f.getFileName() != o["n"]:
                    raise Violation("file-handle", "%r is named %r" % (o["n"], f.getFileName()))
                D.fh[o["n"]] = f
                continue
            if k == "iter":
                if self.iterate(m, D, o):
                    keen = True
                continue
            step = self.plan_call(m, D, o)
            if step is None:
                continue
            call, commit, done = step
            if not o.get("int"):
                commit(call())
                ctx.hit(k)
                continue
            it = Interrupt(w, o["int"]["n"], o["int"]["exc"])
            with it:
                v, e = attempt(call)
            if e is None:
                commit(v)
                continue
            if it.fired is None:
                raise Violation("call-failed", "%s: %r" % (o, e))
            ctx.hit("interrupted-" + k)
            keen = True
            # all or nothing: the call either took effect completely or left no trace
            took = done()
            ctx.ev("int", k, it.fired, took is not None)
            if took is not None:
                commit(took)
            for x in dbs:
                self.check(m, x, "interrupted-call-took-partial-effect")
        for x in dbs:
            self.check(m, x, "recorded-data")
            for it in x.iters:
                if self.drain(it):
                    keen = True
            ctx.ev(self.digest(x))
        ctx.nontrivial = keen

    def digest(self, D):
        return [(n.kind, n.name, n.w, [(b["n"], b["c"]) for b in n.bins]) for n in D.root.walk()], len(D.hist)

    def plan_call(self, m, D, o):
        """-> (call, commit(result), done() -> result if the call's effect is there) or None if not applicable."""
        u = m.ucis
        ST = m.scope_t.ScopeTypeT
        k = o["op"]
        if k == "scope":
            what = o["what"]
            s = o["src"]
            # the source information is an argument: made before the call
            args = lambda: self.source(m, D, s)
            need = {"du": ("db",), "inst": ("db",), "cg": ("inst", "db"), "cg2": ("inst",), "cp": ("cg", "ci"),
                    "cp2": ("cg", "ci"), "ci": ("cg",), "ci2": ("cg",), "cross": ("cg", "ci"), "subinst": ("inst",),
                    "toggle": ("inst",)}[what]
            P = self.pick(D, need, o["at"])
            if P is None:
                return None
            p = P.obj
            S = args()
            n, wt = o["n"], o["w"]
            O = u.UCIS_OTHER
            on = du = None
            if what == "du":
                t = ST[o["t"]]
                kind = "du"
                if o["capi"]:
                    call = lambda: u.ucis_CreateScope(D.db, None, n, S, wt, O, t, 0)
                else:
                    call = lambda: p.createScope(n, S, wt, O, t, 0)
            elif what in ("inst", "subinst"):
                t, kind = ST.INSTANCE, "inst"
                d = self.pick(D, ("du",), o["at"])
                if d is None:
                    return None
                du = d
                if o["capi"]:
                    par = None if what == "inst" else p
                    call = lambda: u.ucis_CreateInstance(D.db, par, n, S, wt, O, t, d.obj, 0)
                else:
                    call = lambda: p.createInstance(n, S, wt, O, t, d.obj, 0)
            elif what == "cg":
                t, kind = ST.COVERGROUP, "cg"
                call = lambda: p.createCovergroup(n, S, wt, O)
            elif what == "cg2":
                t, kind = ST.COVERGROUP, "cg"
                call = lambda: p.createScope(n, S, wt, O, ST.COVERGROUP, 0)
            elif what == "cp":
                t, kind = ST.COVERPOINT, "cp"
                call = lambda: p.createCoverpoint(n, S, wt, O)
            elif what == "cp2":
                t, kind = ST.COVERPOINT, "cp"
                call = lambda: p.createScope(n, S, wt, O, ST.COVERPOINT, 0)
            elif what == "ci":
                t, kind = ST.COVERINSTANCE, "ci"
                call = lambda: p.createCoverInstance(n, S, wt, O)
            elif what == "ci2":
                t, kind = ST.COVERINSTANCE, "ci"
                call = lambda: p.createScope(n, S, wt, O, ST.COVERINSTANCE, 0)
            elif what == "toggle":
                t, kind = ST.TOGGLE, "tgl"
                wt = None
                S = None
                if o["capi"]:
                    call = lambda: u.ucis_CreateToggle(D.db, p, n, None, 0, u.UCIS_TOGGLE_METRIC_ENUM,
                                                       u.UCIS_TOGGLE_TYPE_REG, u.UCIS_TOGGLE_DIR_INTERNAL)
                else:
                    call = lambda: p.createToggle(n, n, 0, 0, 0, 0)
            else:
                t, kind = ST.CROSS, "cross"
                cps = [x for x in P.kids if x.kind == "cp"]
                if not cps:
                    return None
                on = [cps[(o["at"] + i) % len(cps)] for i in range(o["k"])]
                pts = [x.obj for x in on]

                def call():
                    c = p.createCross(n, S, wt, O, pts)
                    return c
            before = len(P.kids)

            def commit(obj):
                N = Node(kind, n, int(t), wt, s if what != "toggle" else None, obj)
                if on is not None:
                    N.on = [x.name for x in on]
                    if o["reuse"]:
                        del pts[:]         # the caller's list is the caller's
                if du is not None:
                    N.du = du.name
                N.up = P
                self.baseline(N)
                P.kids.append(N)

            def done():
                kids = list(p.scopes(-1))
                return kids[-1] if len(kids) == before + 1 else None
            return call, commit, done
        if k == "bin":
            P = self.pick(D, ("cp", "cross") if o["on"] == "p" else ("inst", "tgl", "du", "cg", "ci"), o["at"])
            if P is None:
                return None
            p = P.obj
            t = m.cover_t.CoverTypeT[o["t"]]
            S = self.source(m, D, o["src"])
            al, goal, wt = o["al"], None, None
            if o["via"] == "bin" and P.kind in ("cp", "cross"):
                call = lambda: p.createBin(o["n"], S, al, o["c"], o["n"], t)
            else:
                if o["via"] == "reuse" and D.shared_cd is not None:
                    cd = D.shared_cd          # callers reuse one CoverData for many items
                    cd.type = t
                else:
                    cd = u.CoverData(t, 0)
                D.shared_cd = cd
                cd.data, cd.goal, cd.weight = o["c"], o["g"], o["wt"]
                if al == 1 and getattr(cd, "at_least", 1) == 1 and o["g"] % 2:
                    pass                      # 1 is what an item has unless told otherwise
                else:
                    cd.at_least = al
                goal, wt = o["g"], o["wt"]
                if o["via"] == "capi":
                    call = lambda: u.ucis_CreateNextCover(D.db, p, o["n"], cd, S)
                else:
                    call = lambda: p.createNextCover(o["n"], cd, S)
            before = len(P.bins)

            def commit(obj):
                if isinstance(obj, int):
                    # instances return the item's position, by which its properties are reached
                    if obj != before:
                        raise Violation("cover-index", "%s: item %d got index %d" % (P.name, before, obj))
                    if o["stmt"] is not None:
                        if o["capi"]:
                            u.ucis_SetIntProperty(D.db, p, obj, self.IP.STMT_INDEX, o["stmt"])
                        else:
                            p.setIntProperty(obj, self.IP.STMT_INDEX, o["stmt"])
                    stmt, obj = o["stmt"] or 0, p.getIthCoverItem(obj)
                elif P.kind in ("inst", "tgl"):
                    stmt = 0
                else:
                    stmt = None
                cd2 = obj.getCoverData()
                P.bins.append({"base": (cd2.goal, cd2.weight), "n": o["n"], "t": int(t), "c": o["c"], "al": al, "g": goal, "wt": wt, "src": o["src"],
                               "obj": obj, "stmt": stmt})

            def done():
                bs = list(p.coverItems(-1))
                return bs[-1] if len(bs) == before + 1 else None
            return call, commit, done
        if k == "inc":
            bs = [b for n in D.root.walk() for b in n.bins]
            if not bs:
                return None
            b = bs[o["b"] % len(bs)]
            amt = o["amt"]
            call = (lambda: b["obj"].incrementCover()) if amt is None else (lambda: b["obj"].incrementCover(amt))
            old = b["c"]

            def commit(_):
                b["c"] = old + (1 if amt is None else amt)
            return call, commit, lambda: True if b["obj"].getCoverData().data != old else None
        if k == "opt":
            what = o["what"]
            P = self.pick(D, kinds_with(what), o["at"])
            if P is None:
                return None
            p, v = P.obj, o["v"]
            if o["prop"] or what not in SETTER:
                if o["capi"]:
                    if what == "comment":
                        call = lambda: u.ucis_SetStringProperty(D.db, p, -1, self.SP.COMMENT, v)
                    else:
                        call = lambda: u.ucis_SetIntProperty(D.db, p, -1, self.IP[PROPS[what]], int(v))
                elif what == "comment":
                    call = lambda: p.setStringProperty(-1, self.SP.COMMENT, v)
                else:
                    call = lambda: p.setIntProperty(-1, self.IP[PROPS[what]], int(v))
            else:
                call = lambda: getattr(p, "set" + SETTER[what])(v)

            def commit(_):
                if what == "w":
                    P.w = v
                else:
                    P.opts[what] = v
            prev = P.w if what == "w" else P.opts.get(what, self)

            def done():
                got = self.option(p, what)
                if got == v:
                    return True
                if prev is not self and got != prev:
                    raise Violation("interrupted-call-took-partial-effect", "%s is %r, neither %r nor %r" % (
                        what, got, prev, v))
                return None
            return call, commit, done
        if k == "hist":
            h = o["h"]
            K = m.hnk.HistoryNodeKind
            kind = h.get("kind")
            if kind in ("TEST", "MERGE", "NONE"):
                kind = K[kind]
            par = None
            if o["parent"] is not None and D.hobj:
                par = D.hobj[o["parent"] % len(D.hobj)]
            if o["capi"]:
                call = lambda: u.ucis_CreateHistoryNode(D.db, par, h["logical"], h.get("physical"), kind)
            else:
                call = lambda: D.db.createHistoryNode(par, h["logical"], h.get("physical"), kind)
            before = len(D.hist)

            def commit(node):
                hh = h
                if o["td"]:
                    hh = {k2: v for k2, v in h.items()}
                    TS = m.tst.TestStatusT
                    td = m.td.TestData(TS[h.get("status", "OK")], h.get("toolcat", "tc"), h["date"],
                                       simtime=h.get("simtime", 1.5), timeunit=h.get("timeunit", "ps"),
                                       runcwd=h.get("runcwd", "/r"), cputime=h.get("cputime", 2.5),
                                       seed=h.get("seed", "7"), cmd=h.get("cmd", "c"), args=h.get("args", "a"),
                                       compulsory=h.get("compulsory", "1"), user=h.get("user", "u"),
                                       cost=h.get("cost", 3))
                    if o["capi"]:
                        u.ucis_SetTestData(D.db, node, td)
                    else:
                        node.setTestData(td)
                    hh = dict(logical=h["logical"], physical=h.get("physical"), kind=h.get("kind"),
                              status=h.get("status", "OK"), toolcat=td.toolcategory, date=td.date, simtime=td.simtime,
                              timeunit=td.timeunit, runcwd=td.runcwd, cputime=td.cputime, seed=td.seed, cmd=td.cmd,
                              args=td.args, compulsory=td.compulsory, user=td.user, cost=td.cost)
                    td.seed = td.cmd = "changed afterwards"
                else:
                    build.set_history(m, node, h)
                D.hist.append((model.hist_rec(hh), hh.get("kind"), par))
                D.hobj.append(node)

            def done():
                hs = list(D.db.historyNodes(K.ALL))
                return hs[-1] if len(hs) == before + 1 else None
            return call, commit, done
        raise ValueError(k)

    # ------------------------------------------------------------ iterators
    def iterate(self, m, D, o):
        """Open an iterator and take a few steps; it is drained later. Returns True if one was overtaken."""
        K = m.hnk.HistoryNodeKind
        if o["what"] == "hist":
            kind = [K.ALL, K.TEST, K.MERGE, K.NONE][o["at"] % 4]
            it = D.db.historyNodes(kind)
            want = lambda: [h[0][0] for h in D.hist if kind == K.ALL or h[1] == kind.name]
            name = lambda x: x.getLogicalName()
        elif o["what"] == "bins":
            P = self.pick(D, ("cp", "cross", "inst", "tgl"), o["at"])
            if P is None:
                return False
            mk = self.mask(m, o["mask"], True)
            it = P.obj.coverItems(mk)
            want = lambda: [b["n"] for b in P.bins if b["t"] & mk]
            name = lambda x: x.getName()
        else:
            P = self.pick(D, ("db", "inst", "cg"), o["at"])
            mk = self.mask(m, o["mask"])
            it = P.obj.scopes(mk)
            want = lambda: [c.name for c in P.kids if c.typ & int(mk)]
            name = lambda x: x.getScopeName()
        rec = {"it": iter(it), "want": want, "name": name, "got": [], "end": False, "n0": len(want())}
        for _ in range(o["steps"]):
            self.advance(rec)
        D.iters.append(rec)
        # advance an older one a bit as well
        old = D.iters[o["at"] % len(D.iters)]
        self.advance(old)
        return len(old["want"]()) > old["n0"]

    def advance(self, rec):
        if rec["end"]:
            return
        try:
            x = next(rec["it"])
        except StopIteration:
            rec["end"] = True
            if len(rec["got"]) != len(rec["want"]()):
                raise Violation("iterator", "iterator ended after %r, recorded are %r" % (rec["got"], rec["want"]()))
            return
        rec["got"].append(rec["name"](x))
        if rec["got"] != rec["want"]()[:len(rec["got"])]:
            raise Violation("iterator", "iterator returned %r, recorded are %r" % (rec["got"], rec["want"]()))

    def drain(self, rec):
        over = not rec["end"] and len(rec["want"]()) > rec["n0"]
        for _ in range(100000):
            if rec["end"]:
                return over
            self.advance(rec)
        raise Violation("iterator", "iterator does not end")

    def option(self, obj, k):
        if k in SETTER:
            return getattr(obj, "get" + SETTER[k])()
        return obj.getIntProperty(-1, self.IP[PROPS[k]])

    # ------------------------------------------------------------ what was never set
    def baseline(self, N):
        """Options nobody sets stay what they were when the object was made, whatever is set on other objects."""
        for k in OPTS:
            if k == "w" or N.kind not in kinds_with(k):
                continue
            N.base[k] = self.option(N.obj, k)
        p = N.up
        while p is not None:
            if p.opts:
                return
            p = p.up
        first = self.fresh.setdefault(N.kind, N.base)
        if first != N.base:
            raise Violation("state-shared", "a new %s starts with %r, an earlier one started with %r" % (
                N.kind, N.base, first))

    # ------------------------------------------------------------ full comparison through the public API
    def check(self, m, D, what):
        self.check_node(m, D.root, D.db, what, "")
        K = m.hnk.HistoryNodeKind
        got = model.dump_hist(m, D.db)
        want = tuple(h[0] for h in D.hist)
        if got != want:
            model.check_hist(m, D.db, want, what)
        for kind in (K.TEST, K.MERGE, K.NONE):
            a = [h[0][0] for h in D.hist if h[1] == kind.name]
            b = [h.getLogicalName() for h in D.db.historyNodes(kind)]
            if a != b or len(D.db.getHistoryNodes(kind)) != len(a):
                raise Violation(what, "history of kind %s: expected %r, got %r" % (kind.name, a, b))
        for (h, k, par), node in zip(D.hist, D.db.historyNodes(K.ALL)):
            pp = node.getParent()
            if (pp is None) != (par is None) or (par is not None and pp.getLogicalName() != par.getLogicalName()):
                raise Violation(what, "history %r has the wrong parent" % (h[0],))
        for n, f in D.fh.items():
            if f.getFileName() != n:
                raise Violation(what, "file handle %r is now named %r" % (n, f.getFileName()))

    def check_node(self, m, N, obj, what, path):
        def bad(msg, *a):
            raise Violation(what, (path or "/") + ": " + msg % a)
        if N.kind != "db":
            path = path + "/" + N.name
            if obj.getScopeName() != N.name:
                bad("name is %r", obj.getScopeName())
            if int(obj.getScopeType()) != N.typ:
                bad("type is %r, expected %r", obj.getScopeType(), N.typ)
            if N.w is not None and obj.getWeight() != N.w:
                bad("weight is %r, expected %r", obj.getWeight(), N.w)
            self.check_src(obj.getSourceInfo(), N.src, bad)
            for k, v in N.opts.items():
                got = self.option(obj, k)
                if got != v:
                    bad("%s is %r, last set was %r", k, got, v)
                if k == "comment":
                    got = m.ucis.ucis_GetStringProperty(None, obj, -1, self.SP.COMMENT)
                    if got != v:
                        bad("comment property is %r, last set was %r", got, v)
                elif m.ucis.ucis_GetIntProperty(None, obj, -1, self.IP[PROPS[k]]) != int(v):
                    bad("property %s is %r, last set was %r", k, obj.getIntProperty(-1, self.IP[PROPS[k]]), v)
            for k, v in N.base.items():
                if k not in N.opts:
                    got = self.option(obj, k)
                    if got != v:
                        bad("%s is %r, was %r and never set", k, got, v)
            if N.kind not in ("tgl",) and N.w is not None and \
                    obj.getIntProperty(-1, self.IP.SCOPE_WEIGHT) != N.w:
                bad("weight property is %r, expected %r", obj.getIntProperty(-1, self.IP.SCOPE_WEIGHT), N.w)
            if N.on is not None:
                on = [obj.getIthCrossedCoverpoint(i).getScopeName() for i in range(obj.getNumCrossedCoverpoints())]
                if on != N.on:
                    bad("crosses %r, expected %r", on, N.on)
            if N.du is not None and obj.getInstanceDu().getScopeName() != N.du:
                bad("design unit is %r, expected %r", obj.getInstanceDu().getScopeName(), N.du)
            if N.kind in ("cp", "cross", "inst", "tgl", "du", "cg", "ci"):
                bs = list(obj.coverItems(-1))
                if len(bs) != len(N.bins):
                    bad("%d bins, expected %d", len(bs), len(N.bins))
                for i, (b, e) in enumerate(zip(bs, N.bins)):
                    if e["stmt"] is not None and obj.getIntProperty(i, self.IP.STMT_INDEX) != e["stmt"]:
                        bad("statement index of item %d is %r, expected %r", i,
                            obj.getIntProperty(i, self.IP.STMT_INDEX), e["stmt"])
                    d = b.getCoverData()
                    got = (b.getName(), int(d.type), d.data, d.at_least)
                    exp = (e["n"], e["t"], e["c"], e["al"])
                    if got != exp or (e["g"] is not None and (d.goal, d.weight) != (e["g"], e["wt"])):
                        bad("bin is %r, expected %r", got, exp)
                    if e["g"] is None and (d.goal, d.weight) != e["base"]:
                        bad("bin %r has goal and weight %r, which were %r and never set", e["n"], (d.goal, d.weight),
                            e["base"])
                    if e["src"] is not None:
                        self.check_src(b.getSourceInfo(), e["src"], bad)
                for t in {e["t"] for e in N.bins} | {1, 0x80000}:
                    a = [e["n"] for e in N.bins if e["t"] & t]
                    g = [b.getName() for b in obj.coverItems(t)]
                    if a != g:
                        bad("bins of type %#x: expected %r, got %r", t, a, g)
        kids = list(obj.scopes(-1))
        if [k.getScopeName() for k in kids] != [k.name for k in N.kids]:
            bad("children are %r, expected %r", [k.getScopeName() for k in kids], [k.name for k in N.kids])
        for t in {k.typ for k in N.kids}:
            g = [k.getScopeName() for k in obj.scopes(t)]
            a = [k.name for k in N.kids if k.typ & t]
            if g != a:
                bad("children of type %#x: expected %r, got %r", t, a, g)
        for k, o in zip(N.kids, kids):
            self.check_node(m, k, o, what, path)

    def check_src(self, si, want, bad):
        if want is None:
            return
        if si is None or si.file is None or (si.file.getFileName(), si.line, si.token) != tuple(want):
            bad("source is %r, expected %r", si and (si.file and si.file.getFileName(), si.line, si.token), want)


PROP = C13()

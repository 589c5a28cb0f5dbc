"""C18: the function-style API is equivalent to the object API."""
import builtins
import contextlib
import datetime
import io
import os
import sys

from sim import gen
from sim.world import Violation
from .c11 import CT, HK, SRC, ST, Stub, gen_count, gen_flags, gen_src, gen_td
from .common import STUB_HOST, attempt, exc_name

OUT = ["out.xml", "out2.xml", "nodir/out.xml", "ö.xml"]
HGET = ["LogicalName", "PhysicalName", "Kind", "TestStatus", "SimTime", "TimeUnit", "RunCwd", "CpuTime", "Seed", "Cmd",
        "Args", "Compulsory", "Date", "UserName", "Cost", "ToolCategory", "UCISVersion", "VendorId", "VendorTool",
        "VendorToolVersion", "SameTests", "Comment"]
SGET = ["ScopeName", "ScopeType", "Weight", "Goal", "Flags", "AtLeast", "AutoBinMax", "DetectOverlap", "Strobe",
        "Comment", "PerInstance", "MergeInstances", "GetInstCoverage", "NumCrossedCoverpoints", "CanonicalName"]
DUS = ["DU_MODULE", "DU_MODULE", "DU_MODULE", "DU_ARCH", "DU_PACKAGE", "DU_PROGRAM", "DU_INTERFACE"]
LIBFN = {"scope": "ucis_CreateScope", "inst": "ucis_CreateInstance", "toggle": "ucis_CreateToggle",
         "cover": "ucis_CreateNextCover", "hist": "ucis_CreateHistoryNode", "td": "ucis_SetTestData",
         "write": "ucis_Write", "close": "ucis_Close", "setprop": "ucis_SetIntProperty",
         "cg": "ucis_CreateScope", "cp": "ucis_CreateScope", "bin": "ucis_CreateNextCover"}
# the methods of a database class of somebody else's that may refuse
USERFN = {"scope": "createScope", "inst": "createInstance", "toggle": "createToggle", "hist": "createHistoryNode",
          "write": "write", "close": "close", "fh": "createFileHandle", "setprop": "set%(ty)sProperty",
          "getprop": "get%(ty)sProperty"}
# properties the scopes carry, drawn more often than the rest
INTS = ["SCOPE_WEIGHT", "SCOPE_GOAL", "SCOPE_SOURCE_TYPE", "COVER_GOAL", "CVG_ATLEAST", "CVG_AUTOBINMAX",
        "CVG_DETECTOVERLAP", "CVG_STROBE", "CVG_PERINSTANCE", "CVG_MERGEINSTANCES", "CVG_GETINSTCOV", "TEST_STATUS",
        "STMT_INDEX"]


def gen_op(r, spice, backend):
    x = r.random()
    o = {"at": r.randrange(10000), "n": gen.name(r, spice), "f": r.random() < 0.7, "db": r.randrange(4),
         "root": r.choice(["none", "none", "db"]), "w": r.choice([0, 1, 1, 2, 100, -1]), "s": r.choice(SRC)}
    if x < 0.07:
        o.update(op="fh", n=r.choice(["a.sv", "A.sv", "dir/a.sv", o["n"], ""]), wd=r.choice([None, ".", "/w ö"]))
    elif x < 0.17:
        o.update(op="scope", t=r.choice(DUS + ["COVERGROUP", "COVERGROUP", "COVERPOINT", "COVERINSTANCE", "FUNCTION"]),
                 sub=r.random() < 0.6, fl=gen_flags(r), src=gen_src(r))
    elif x < 0.26:
        o.update(op="inst", sub=r.random() < 0.4, fl=gen_flags(r), src=gen_src(r), d=r.randrange(100),
                 t=r.choice(["INSTANCE", "INSTANCE", "INSTANCE", "PROGRAM"]))
    elif x < 0.33:
        o.update(op="toggle", canon=r.choice([None, o["n"], "c", ""]), fl=r.choice([0, 1, 2**31]),
                 tm=r.randrange(1, 7), tt=r.randrange(1, 3), td=r.randrange(1, 5), sub=r.random() < 0.9)
    elif x < 0.43:
        o.update(op="cover", c=gen_count(r), t=r.choice(sorted(CT)), src=gen_src(r), g=r.randrange(0, 200),
                 lim=r.randrange(0, 9), bl=r.randrange(0, 9), wt=r.randrange(0, 5), reuse=r.random() < 0.3)
    elif x < 0.47:
        o.update(op="cg", src=gen_src(r))
    elif x < 0.51:
        o.update(op="cp", src=gen_src(r))
    elif x < 0.54:
        o.update(op="bin", c=r.randrange(1000), src=gen_src(r))
    elif x < 0.59:
        o.update(op="hist", ph=r.choice([None, "", gen.name(r, spice)]), k=r.choice(["TEST", "TEST", "MERGE", "NONE"]),
                 par=r.choice([None, None, r.randrange(50)]))
    elif x < 0.64:
        o.update(op="td", td=gen_td(r, spice), reuse=r.random() < 0.3)
    elif x < 0.75:
        o.update(op="setprop", **prop(r, spice))
    elif x < 0.85:
        o.update(op="getprop", **prop(r, spice))
    elif x < 0.89:
        o.update(op="write", file=r.choice(OUT), sc=r.choice([None, None, 1]), rec=r.choice([0, 1, 1]),
                 ct=r.choice([-1, -1, 0, 1, 32]))
    elif x < 0.91:
        o.update(op="close")
    elif x < 0.94:
        o.update(op="time", dt=r.choice([0, 1, 59, 3600, 86400, -5000, 31536000]))
    elif x < 0.97:
        o.update(op="poke", v=r.randrange(1, 100))
    elif x < 0.98:
        o.update(op="remove")
    else:
        o.update(op="new")
    if backend == "lib" and o["op"] in LIBFN and r.random() < 0.15:
        fn = LIBFN[o["op"]]
        if o["op"] == "setprop" and o["ty"] == "String":
            fn = "ucis_SetStringProperty"
        o["fail"] = [fn, 1, r.random() < 0.3]
    if backend == "user" and o["op"] in USERFN and r.random() < 0.2:
        o["boom"] = [USERFN[o["op"]] % o if "%" in USERFN[o["op"]] else USERFN[o["op"]],
                     r.choice(["OSError", "ValueError", "MemoryError", "RuntimeError", "KeyError", "NotImplementedError",
                               "KeyboardInterrupt", "AssertionError", "AttributeError", "TypeError"])]
    if backend != "lib" and o["op"] == "write" and r.random() < 0.4:
        o["faults"] = [{"op": r.choice(["openw", "write", "write", "close"]), "role": "*", "nth": r.choice([1, 1, 2]),
                        "act": r.choice(["ENOSPC", "EIO", "EINTR", "short"]), "times": r.choice([1, 1, 50]), "len": 5}]
        if o["faults"][0]["op"] != "write":
            o["faults"][0]["act"] = r.choice(["EIO", "ENOSPC"])
    return o


def prop(r, spice):
    ty = r.choice(["Int", "Int", "Int", "String", "String", "Real", "Handle"])
    p = r.choice(INTS) if ty == "Int" and r.random() < 0.8 else r.randrange(32)
    if ty == "String" and r.random() < 0.4:
        p = 14
    if ty in ("Real", "Handle"):
        p = 0
    v = {"Int": r.choice([0, 0, 1, 2, 64, 2**31 - 1, -1]), "String": r.choice(["", gen.text(r, spice)]),
         "Real": r.choice([0.0, 1.5]), "Handle": r.randrange(100)}[ty]
    return {"ty": ty, "p": p, "v": v, "on": r.choice(["db", "none", "s", "s", "s", "s", "h"]),
            "ci": r.choice([-1, -1, -1, 0, 1, 7])}


class C18:
    runs = {"quick": 7000, "thorough": 250000}
    rule = ("one evaluation performs a history of 20-70 calls (create, test data, history, file handles, property access, "
            "write, close, time) on up to three databases of the in-memory, XML or simulated library backend or of "
            "a class of the user's own, once "
            "through the object API and again through the ucis_* functions (half of the time a drawn mixture of both), "
            "with the same library and database refusals, file faults and clock; every call "
            "must have the same outcome and every "
            "readable value, saved file and library state must agree. non-trivial = a function-style call failed in "
            "both, a write took place, or at least ten function-style calls succeeded")
    measure = "distinct event-log digests (calls, outcomes, states) of non-trivial runs"
    real = "the ucis_* functions, ucis.mem, ucis.xml writer, ucis.lib through ctypes"
    stub = STUB_HOST + "; the UCIS C library: sim/ucisstub.c"
    assumptions = ["errors are equal when their types are", "functions without a method to call (ucis_RemoveScope) only "
                   "have to fail as the method does"]

    def prepare(self):
        Stub.get()

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.3])
        b = r.choice(["mem", "xml", "xml", "lib", "lib", "user", "user"])
        ops = []
        for want in ("fh", "scope", "inst", "cg", "cp"):
            while True:
                o = gen_op(r, spice, b)
                if o["op"] == want and "fail" not in o and o.get("t", "DU_MODULE") in ("DU_MODULE", "INSTANCE"):
                    break
            ops.append(dict(o, db=0, sub=False))
        ops += [gen_op(r, spice, b) for _ in range(r.randrange(15, 66))]
        return {"env": gen.env(r), "backend": b, "ops": ops, "mix": r.random() < 0.5}

    def shrinks(self, plan):
        ops = plan["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(plan, ops=ops[:i] + ops[i + size:])
            size //= 2
        for i, o in enumerate(ops):
            for k in ("src", "fail", "faults"):
                if o.get(k) is not None:
                    yield dict(plan, ops=ops[:i] + [{a: v for a, v in o.items() if a != k} | (
                        {"src": None} if k == "src" else {})] + ops[i + 1:])

    def run(self, plan, ctx):
        w = ctx.w
        now = w.now
        a = Side(plan, ctx, "object").go()
        w.advance(now - w.now)
        for n in w.listing():
            os.remove(w.path(n))
        b = Side(plan, ctx, "mix" if plan["mix"] else "function").go()
        if len(a) != len(b):
            raise Violation("different-histories", "%d and %d entries" % (len(a), len(b)))
        for x, y in zip(a, b):
            if x[:4] != y[:4]:
                k, o = x[0], x[1]
                raise Violation("different-" + x[2], "step %d %r: object API %s, function API %s" % (
                    (k, plan["ops"][k] if k >= 0 else "at the end") + differ(x[3], y[3])))
        ctx.ev(b)
        n = sum(1 for x in b if x[2] == "outcome" and x[4])
        ctx.nontrivial = n >= 10 or any(x[2] == "outcome" and (x[3][0] == "raised" or x[1] == "write") for x in b)


def differ(x, y, path=""):
    """The place at which two nested observations part, with a little of each."""
    if type(x) is type(y) and isinstance(x, (list, tuple)):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return differ(p, q, path + "/%d" % i)
    return "%s %s" % (path, repr(x)[:600]), "%s %s" % (path, repr(y)[:600])


class Side:
    """One performance of the history through one of the APIs."""

    def __init__(self, plan, ctx, style):
        self.plan, self.ctx, self.m, self.style = plan, ctx, ctx.m, style
        self.libm = plan["backend"] == "lib"
        self.dbs, self.log = [], []
        self.cd = self.td = self.boom = None
        self.calls = []

    def go(self):
        m = self.m
        lib = Stub.get() if self.libm else None
        self.lib = lib
        if self.libm:
            lib.sim_reset()
            F = m.imp("ucis.lib.LibFactory").LibFactory
            F.load_ucis_library(Stub.path)
            self.create = F.create
        elif self.plan["backend"] == "xml":
            self.create = m.imp("ucis.xml.xml_ucis").XmlUCIS
        elif self.plan["backend"] == "user":
            self.create = user_class(self)
        else:
            self.create = m.mem_factory.MemFactory.create
        self.IP, self.SP = m.ucis.IntProperty, m.ucis.StrProperty
        self.RP, self.HP = m.ucis.RealProperty, m.ucis.HandleProperty
        m.ucis, m.src, m.td, m.cover_t, m.scope_t, m.hnk
        hook = sys.unraisablehook
        sys.unraisablehook = lambda a: None
        try:
            self.new()
            for k, o in enumerate(self.plan["ops"]):
                self.k = k
                with contextlib.redirect_stdout(io.StringIO()):
                    self.step(o)
                if k % 10 == 9:
                    self.state()
            self.k = -1
            self.state()
        finally:
            sys.unraisablehook = hook
            if lib:
                lib.sim_reset()
        return self.log

    def new(self):
        self.dbs.append({"db": self.create(), "objs": [], "fh": [], "hist": [], "open": True, "items": []})

    def fun(self, o):
        return self.style == "function" or self.style == "mix" and o["f"]

    # -------------------------------------------------------------- one step
    def step(self, o):
        D = self.dbs[o["db"] % len(self.dbs)]
        k = o["op"]
        if not D["open"] and k not in ("new", "time", "poke"):
            return
        if k == "new":
            if len(self.dbs) < 3:
                self.new()
            return
        if k == "poke":                      # the caller goes on using what it passed in
            if self.cd is not None:
                self.cd.data += o["v"]
            if self.td is not None:
                self.td.cost = o["v"]
            return
        c = getattr(self, "do_" + k)(D, o)
        if c is None:
            return
        f, call, keep = c
        w = self.ctx.w
        if "fail" in o:
            self.lib.sim_fail(o["fail"][0].encode(), o["fail"][1], int(o["fail"][2]))
        self.boom = o.get("boom")
        if "faults" in o:
            w.arm(o["faults"])
        v, e = attempt(call)
        fired = w.disarm() if "faults" in o else ()
        if "fail" in o and self.lib.sim_disarm():
            w.count_fault("library-refuses:" + o["fail"][0])
            fired = (o["fail"][0],)
        if e is not None:
            out = ("raised", exc_name(e))
        else:
            out = ("returned", keep(v))
        self.log.append((self.k, k, "outcome", out, f or not (self.style == "object")))
        if self.style != "object" and f:
            self.ctx.hit("%s-%s-%s" % (self.plan["backend"], k, "fails" if e is not None else "works"))
        if k == "write" and not self.libm:
            n = o["file"]
            self.log.append((self.k, k, "file", w.get(n) if w.exists(n) else None, False))
        if "boom" in o and self.boom is None:
            w.count_fault("database-refuses:" + o["boom"][0])
            fired = tuple(o["boom"])
        self.boom = None
        if fired:
            self.state()

    def pick(self, D, o, types=None, key="at"):
        c = [x for x in D["objs"] if types is None or x[0] in types]
        return c[o[key] % len(c)] if c else None

    def src(self, D, s):
        if s is None:
            return None
        fh = D["fh"][s[0] % len(D["fh"])] if s[0] is not None and D["fh"] else None
        return self.m.src.SourceInfo(fh, s[1], s[2])

    def parent(self, D, o, types):
        """(what to call the method on, what to hand to the function)"""
        p = self.pick(D, o, types) if o["sub"] else None
        if p is not None:
            return p[1], p[1]
        return D["db"], (None if o["root"] == "none" else D["db"])

    def obj(self, D, t):
        def keep(v):
            D["objs"].append((t, v))
            return type(v).__name__
        return keep

    # -------------------------------------------------------------- the calls: (function style?, call, look at result)
    def do_fh(self, D, o):
        def keep(v):
            D["fh"].append(v)
            return type(v).__name__, v.getFileName()
        if self.fun(o):
            return True, lambda: self.m.ucis.ucis_CreateFileHandle(D["db"], o["n"], o["wd"]), keep
        return False, lambda: D["db"].createFileHandle(o["n"], o["wd"]), keep

    def do_scope(self, D, o):
        u = self.m.ucis
        p, q = self.parent(D, o, ("INSTANCE", "COVERGROUP", "COVERINSTANCE"))
        t = u.ScopeTypeT(ST[o["t"]])
        a = (o["n"], self.src(D, o["src"]), o["w"], u.SourceT[o["s"]], t, o["fl"])
        if self.fun(o):
            return True, lambda: u.ucis_CreateScope(D["db"], q, *a), self.obj(D, o["t"])
        return False, lambda: p.createScope(*a), self.obj(D, o["t"])

    def do_inst(self, D, o):
        u = self.m.ucis
        d = self.pick(D, o, [t for t in ST if t.startswith("DU_")], "d")
        if d is None:
            return None
        p, q = self.parent(D, o, ("INSTANCE",))
        a = (o["n"], self.src(D, o["src"]), o["w"], u.SourceT[o["s"]], u.ScopeTypeT(ST[o["t"]]), d[1], o["fl"])
        if self.fun(o):
            return True, lambda: u.ucis_CreateInstance(D["db"], q, *a), self.obj(D, "INSTANCE")
        return False, lambda: p.createInstance(*a), self.obj(D, "INSTANCE")

    def do_toggle(self, D, o):
        u = self.m.ucis
        p, q = self.parent(D, o, ("INSTANCE",))
        a = (o["n"], o["canon"], o["fl"], u.ToggleMetricT(o["tm"]), u.ToggleTypeT(o["tt"]), u.ToggleDirT(o["td"]))
        if self.fun(o):
            return True, lambda: u.ucis_CreateToggle(D["db"], q, *a), self.obj(D, "TOGGLE")
        return False, lambda: p.createToggle(*a), self.obj(D, "TOGGLE")

    def do_cover(self, D, o):
        u = self.m.ucis
        p = self.pick(D, o)
        if p is None:
            return None
        if o["reuse"] and self.cd is not None:
            cd = self.cd
        else:
            cd = u.CoverData(self.m.cover_t.CoverTypeT(CT[o["t"]]), (2 if o["c"] >= 2**32 else 1) | 0x18)
            cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen = o["c"], o["g"], o["wt"], o["lim"], o["bl"]
            cd.at_least = 1
            self.cd = cd
        si = self.src(D, o["src"])

        def keep(v):
            if not self.libm:
                D["items"].append(v)
            return type(v).__name__
        if self.fun(o):
            return True, lambda: u.ucis_CreateNextCover(D["db"], p[1], o["n"], cd, si), keep
        return False, lambda: p[1].createNextCover(o["n"], cd, si), keep

    def do_cg(self, D, o):
        p = self.pick(D, o, ("INSTANCE",))
        if p is None:
            return None
        a = (o["n"], self.src(D, o["src"]), o["w"], self.m.ucis.SourceT[o["s"]])
        return False, lambda: p[1].createCovergroup(*a), self.obj(D, "COVERGROUP")

    def do_cp(self, D, o):
        p = self.pick(D, o, ("COVERGROUP",))
        if p is None:
            return None
        a = (o["n"], self.src(D, o["src"]), o["w"], self.m.ucis.SourceT[o["s"]])
        return False, lambda: p[1].createCoverpoint(*a), self.obj(D, "COVERPOINT")

    def do_bin(self, D, o):
        p = self.pick(D, o, ("COVERPOINT",))
        if p is None or not hasattr(p[1], "createBin"):
            return None
        si = self.src(D, o["src"])
        return False, lambda: p[1].createBin(o["n"], si, 1, o["c"], o["n"]), lambda v: type(v).__name__

    def do_hist(self, D, o):
        u = self.m.ucis
        par = D["hist"][o["par"] % len(D["hist"])] if D["hist"] and o["par"] is not None else None
        K = self.m.hnk.HistoryNodeKind(HK[o["k"]])

        def keep(v):
            D["hist"].append(v)
            return type(v).__name__
        if self.fun(o):
            return True, lambda: u.ucis_CreateHistoryNode(D["db"], par, o["n"], o["ph"], K), keep
        return False, lambda: D["db"].createHistoryNode(par, o["n"], o["ph"], K), keep

    def do_td(self, D, o):
        if not D["hist"]:
            return None
        h = D["hist"][o["at"] % len(D["hist"])]
        t = o["td"]
        if not (o["reuse"] and self.td is not None):
            self.td = self.m.td.TestData(
                teststatus=t["status"], toolcategory=t["toolcat"], date=t["date"], simtime=t["simtime"],
                timeunit=t["timeunit"], runcwd=t["runcwd"], cputime=t["cputime"], seed=t["seed"], cmd=t["cmd"],
                args=t["args"], compulsory=t["compulsory"], user=t["user"], cost=t["cost"])
        td = self.td
        if self.fun(o):
            return True, lambda: self.m.ucis.ucis_SetTestData(D["db"], h, td), repr
        return False, lambda: h.setTestData(td), repr

    def target(self, D, o):
        """(object, what to hand to the function)"""
        if o["on"] == "h" and D["hist"]:
            h = D["hist"][o["at"] % len(D["hist"])]
            return h, h
        p = self.pick(D, o) if o["on"] == "s" else None
        if p is not None:
            return p[1], p[1]
        return D["db"], (D["db"] if o["on"] == "db" else None)

    def property(self, o):
        p = o["p"]
        E = {"Int": self.IP, "String": self.SP, "Real": self.RP, "Handle": self.HP}[o["ty"]]
        if isinstance(p, str):
            return E[p]
        x = list(E)
        return x[p % len(x)]

    def do_setprop(self, D, o):
        t, q = self.target(D, o)
        P, v = self.property(o), o["v"]
        if o["ty"] == "Handle":
            x = self.pick(D, o, None, "v")
            v = x[1] if x else None
        if self.fun(o):
            f = getattr(self.m.ucis, "ucis_Set%sProperty" % o["ty"])
            # the function's own result is not part of the interface
            return True, lambda: f(D["db"], q, o["ci"], P, v), lambda v: None
        f = getattr(t, "set%sProperty" % o["ty"])
        return False, lambda: f(o["ci"], P, v), lambda v: None

    def do_getprop(self, D, o):
        t, q = self.target(D, o)
        P = self.property(o)
        if self.fun(o):
            f = getattr(self.m.ucis, "ucis_Get%sProperty" % o["ty"])
            return True, lambda: f(D["db"], q, o["ci"], P), val
        f = getattr(t, "get%sProperty" % o["ty"])
        return False, lambda: f(o["ci"], P), val

    def do_write(self, D, o):
        p = self.pick(D, o) if o["sc"] else None
        sc = p and p[1]
        path = "/sim/" + o["file"] if self.libm else self.ctx.w.path(o["file"])
        if self.fun(o):
            return True, lambda: self.m.ucis.ucis_Write(D["db"], path, sc, o["rec"], o["ct"]), self.status
        return False, lambda: D["db"].write(path, sc, o["rec"] == 1, o["ct"]), lambda v: None

    def do_close(self, D, o):
        def keep(v):
            D["open"] = False
        if self.fun(o):
            return True, lambda: self.m.ucis.ucis_Close(D["db"]), lambda v: (self.status(v), keep(v))[0]
        return False, D["db"].close, keep

    def do_remove(self, D, o):
        p = self.pick(D, o)
        if p is None:
            return None
        if self.fun(o):
            return True, lambda: self.m.ucis.ucis_RemoveScope(D["db"], p[1]), val
        return False, lambda: D["db"].removeScope(p[1]), val

    def do_time(self, D, o):
        w = self.ctx.w
        w.advance(o["dt"])
        want = datetime.datetime.now().strftime("%Y%m%d%H%M%S")
        if self.fun(o):
            return True, self.m.ucis.ucis_Time, str
        return False, lambda: want, str

    @staticmethod
    def status(v):
        if v is None or isinstance(v, int) and v == 0:
            return None
        return "status %r" % (v,)

    # -------------------------------------------------------------- all that can be read back
    def state(self):
        if self.libm:
            self.log.append((self.k, "-", "library-contents", [
                self.lib.sim_dump().decode("ascii").splitlines(), self.lib.sim_misuse(),
                self.lib.sim_live_iterators()], False))
            return
        if self.calls:
            self.log.append((self.k, "-", "calls", list(self.calls), False))
        for i, D in enumerate(self.dbs):
            self.log.append((self.k, "-", "database", [i, self.scope(D["db"], 0), [self.hist(D, h) for h in
                             D["db"].historyNodes(self.m.hnk.HistoryNodeKind.ALL)]], False))

    def scope(self, s, depth):
        r = [type(s).__name__]
        for g in SGET:
            if hasattr(s, "get" + g):
                r.append((g, get(lambda: getattr(s, "get" + g)())))
        r.append([(int(p), get(lambda: s.getIntProperty(-1, p))) for p in self.IP])
        r.append([(int(p), get(lambda: s.getStringProperty(-1, p))) for p in self.SP])
        r.append(self.si(s.getSourceInfo()))
        du = get(lambda: s.getInstanceDu().getScopeName()) if hasattr(s, "getInstanceDu") else None
        r.append(du)
        r.append([self.item(c) for c in s.coverItems(-1)])
        r.append([self.scope(c, depth + 1) for c in s.scopes(-1)])
        return r

    def si(self, s):
        return s and (s.file and s.file.getFileName(), s.line, s.token)

    def item(self, c):
        d = c.getCoverData()
        return (c.getName(), [(k, val(getattr(d, k, None))) for k in (
            "type", "flags", "data", "goal", "weight", "limit", "bitlen", "at_least")], self.si(c.getSourceInfo()))

    def hist(self, D, h):
        r = [(g, get(lambda: getattr(h, "get" + g)())) for g in HGET if hasattr(h, "get" + g)]
        p = h.getParent()
        return r, None if p is None else [i for i, x in enumerate(D["hist"]) if x is p]


def user_class(side):
    """A database class as a user may write one: it honours every argument, keeps properties of its own and refuses."""
    m, w = side.m, side.ctx.w

    def note(what, *a):
        side.calls.append((what,) + tuple(x.getScopeName() if hasattr(x, "getScopeName") else val(x) for x in a))
        if side.boom and side.boom[0] == what:
            x, side.boom = side.boom[1], None
            raise getattr(builtins, x)("refused")

    class UserUCIS(m.mem.MemUCIS):
        def __init__(self):
            super().__init__()
            self.kept = {}

        def write(self, file, scope=None, recurse=True, covertype=-1):
            note("write", file, scope, bool(recurse), int(covertype))
            f = w.sim_open(file, "w", encoding="utf-8")
            try:
                f.write("%s %s %d" % (scope.getScopeName() if scope is not None else None, bool(recurse), covertype))
            finally:
                f.close()

        def close(self):
            note("close")
            super().close()

        def createFileHandle(self, filename, workdir):
            note("createFileHandle", filename, workdir)
            return super().createFileHandle(filename, workdir)

        def createHistoryNode(self, parent, logicalname, physicalname=None, kind=None):
            note("createHistoryNode", parent and parent.getLogicalName(), logicalname, physicalname, kind)
            return super().createHistoryNode(parent, logicalname, physicalname, kind)

        def createScope(self, name, srcinfo, weight, source, type, flags):
            note("createScope", name, weight, source, type, flags)
            return super().createScope(name, srcinfo, weight, source, type, flags)

        def createInstance(self, name, fileinfo, weight, source, type, du_scope, flags):
            note("createInstance", name, weight, source, type, du_scope, flags)
            return super().createInstance(name, fileinfo, weight, source, type, du_scope, flags)

        def createToggle(self, name, canonical_name, flags, toggle_metric, toggle_type, toggle_dir):
            note("createToggle", name, canonical_name, flags, toggle_metric, toggle_type, toggle_dir)
            return super().createToggle(name, canonical_name, flags, toggle_metric, toggle_type, toggle_dir)

    def access(ty):
        def getp(self, coverindex, property):
            if side.boom and side.boom[0] == "get%sProperty" % ty:
                note("get%sProperty" % ty)
            k = (ty, coverindex, int(property))
            return self.kept[k] if k in self.kept else getattr(m.mem.MemUCIS, "get%sProperty" % ty)(
                self, coverindex, property)

        def setp(self, coverindex, property, value):
            note("set%sProperty" % ty, coverindex, property, value)
            self.kept[ty, coverindex, int(property)] = value
        setattr(UserUCIS, "get%sProperty" % ty, getp)
        setattr(UserUCIS, "set%sProperty" % ty, setp)
    for ty in ("Int", "String", "Real", "Handle"):
        access(ty)
    return UserUCIS


def get(fn):
    v, e = attempt(fn)
    return exc_name(e) if e is not None else val(v)


def val(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, float)):
        return v
    if isinstance(v, int):
        return int(v)
    return type(v).__name__


PROP = C18()

"""C11: the native UCIS library backend delivers data intact and surfaces failures."""
import atexit
import contextlib
import ctypes
import io
import os
import shutil
import subprocess
import sys
import tempfile

from sim import build, gen, model
from sim.world import Violation
from .common import attempt, exc_name

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what a C library is told: the values of the C interface, not the names of the Python enumerations
ST = {"TOGGLE": 0x1, "BRANCH": 0x2, "INSTANCE": 0x10, "PROCESS": 0x20, "BLOCK": 0x40, "FUNCTION": 0x80, "CLASS": 0x800,
      "COVERGROUP": 0x1000, "COVERINSTANCE": 0x2000, "COVERPOINT": 0x4000, "CROSS": 0x8000, "COVER": 0x10000,
      "PROGRAM": 0x40000, "INTERFACE": 0x200000, "DU_MODULE": 0x1000000, "DU_ARCH": 0x2000000,
      "DU_PACKAGE": 0x4000000, "DU_PROGRAM": 0x8000000, "DU_INTERFACE": 0x10000000, "CVGBINSCOPE": 0x100000000,
      "ILLEGALBINSCOPE": 0x200000000}
CT = {"CVGBIN": 0x1, "COVERBIN": 0x2, "STMTBIN": 0x20, "BRANCHBIN": 0x40, "TOGGLEBIN": 0x200, "USERBIN": 0x1000,
      "IGNOREBIN": 0x80000, "ILLEGALBIN": 0x100000, "DEFAULTBIN": 0x200000, "BLOCKBIN": 0x1000000}
SRC = ["VHDL", "VLOG", "SV", "SYSTEMC", "PSL_VHDL", "PSL_VLOG", "PSL_SV", "PSL_SYSTEMC", "E", "VERA", "NONE", "OTHER"]
HK = {"TEST": 1, "MERGE": 2, "NONE": -1}
PNUM = {"Goal": 4, "AtLeast": 24, "AutoBinMax": 25, "DetectOverlap": 26, "Strobe": 28, "PerInstance": 29,
        "GetInstCoverage": 30, "MergeInstances": 31, "Comment": 14, "TestStatus": 19}
BOOLS = ("DetectOverlap", "Strobe", "PerInstance", "GetInstCoverage", "MergeInstances")
CGP = ("PerInstance", "GetInstCoverage", "MergeInstances")
CVG = ("AtLeast", "AutoBinMax", "DetectOverlap", "Strobe", "Comment")
FN = {"new": "ucis_Open", "reopen": "ucis_Open", "fh": "ucis_CreateFileHandle", "inst": "ucis_CreateInstance",
      "cross": "ucis_CreateCross", "toggle": "ucis_CreateToggle", "bin": "ucis_CreateNextCover",
      "cover": "ucis_CreateNextCover", "hist": "ucis_CreateHistoryNode", "td": "ucis_SetTestData",
      "gettd": "ucis_GetTestData", "write": "ucis_Write", "close": "ucis_Close", "srcinfo": "ucis_GetScopeSourceInfo"}
MERGEFN = ["ucis_CreateScope", "ucis_CreateScope", "ucis_CreateInstance", "ucis_CreateNextCover",
           "ucis_CreateNextCover", "ucis_CreateCross"]
TDF = ["status", "simtime", "cputime", "compulsory", "cost", "timeunit", "runcwd", "seed", "cmd", "args", "date",
       "user", "toolcat"]


# ------------------------------------------------------------------ the library
class Stub:
    path = None
    handle = None

    @classmethod
    def get(cls):
        if cls.handle is None:
            if cls.path is None:
                d = tempfile.mkdtemp(prefix="ucisstub.")
                pid = os.getpid()
                atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
                so = os.path.join(d, "libucis.so")
                subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "sim", "ucisstub.c")],
                               check=True, stdout=subprocess.DEVNULL)
                cls.path = so
            h = ctypes.CDLL(cls.path)
            h.sim_dump.restype = h.sim_misuse_msg.restype = ctypes.c_char_p
            cls.handle = h
        return cls.handle


def unhex(s):
    return None if s == "-" else bytes.fromhex(s[1:]).decode("utf-8", "replace")


class O:
    """One object as the library has it / as it should have it."""

    def __init__(self, kind, id, db, parent, **k):
        self.kind, self.id, self.db, self.parent = kind, id, db, parent
        self.name = self.name2 = None
        self.weight = self.source = self.type = self.flags = self.du = self.hkind = self.open = 0
        self.tm = self.tt = self.td_ = 0
        self.src = None                      # (file handle id, line, token) or None
        self.pts = ()
        self.td = None
        self.props = {}
        self.covers = []
        self.obj = None
        self.__dict__.update(k)

    FIELDS = {"D": ("open", "name2", "weight", "source", "type"), "S": ("weight", "source", "type", "flags", "src"),
              "I": ("weight", "source", "type", "flags", "src", "du"), "X": ("weight", "source", "src", "pts"),
              "T": ("name2", "flags", "tm", "tt", "td_"), "H": ("name2", "hkind", "td"), "F": ("name2",)}

    def key(self):
        return [(f, getattr(self, f)) for f in ("kind", "db", "parent", "name") + self.FIELDS[self.kind]]


def dump(lib):
    raw = lib.sim_dump()
    out = []
    for ln in raw.decode("ascii").splitlines():
        f = ln.split(" ")
        k = f[0]
        if k == "t":
            o = out[int(f[1]) - 1]
            o.td = (int(f[2]), float(f[3]), float(f[4]), int(f[5]), float(f[6])) + tuple(unhex(x) for x in f[7:15])
        elif k == "p":
            o = out[int(f[1]) - 1]
            o.props[(int(f[2]), int(f[3]), int(f[4]))] = unhex(f[6]) if f[4] == "1" else int(f[5])
        elif k == "c":
            n = [int(x) for x in f[4:]]
            out[int(f[1]) - 1].covers.append({
                "name": unhex(f[3]), "type": n[0], "flags": n[1], "count": n[2], "goal": n[3], "weight": n[4],
                "limit": n[5], "bitlen": n[6], "src": tuple(n[8:11]) if n[7] else None})
        else:
            n = [int(x) for x in f[6:]]
            o = O(k, int(f[1]), int(f[2]), int(f[3]), name=unhex(f[4]), name2=unhex(f[5]), weight=n[0], source=n[1],
                  type=n[2], flags=n[3], src=tuple(n[5:8]) if n[4] else None, du=n[8], hkind=n[9], open=n[10],
                  tm=n[11], tt=n[12], td_=n[13], pts=tuple(n[15:15 + n[14]]))
            out.append(o)
    return raw, out


def tree(objs, d):
    """The coverage held by database `d`, as a model."""
    def item(o):
        p = {"w": o.weight, "bins": {}}
        for c in o.covers:
            k = {1: "bin", 0x80000: "ign", 0x100000: "ill"}.get(c["type"], c["type"])
            p["bins"].setdefault((c["name"], k), [0, 1])[0] += c["count"]
        if o.kind == "X":
            p["on"] = [objs[i - 1].name for i in o.pts]
        return p

    def group(o):
        g = {"w": o.weight, "cps": {}, "crs": {}, "insts": {}}
        for c in objs:
            if c.parent != o.id or c.db != d or c.kind not in "SX":
                continue
            if c.kind == "X":
                put(g["crs"], c, item(c))
            elif c.type == ST["COVERPOINT"]:
                put(g["cps"], c, item(c))
            elif c.type == ST["COVERINSTANCE"]:
                put(g["insts"], c, group(c))
            else:
                raise Violation("merge", "scope %r of type %#x in a covergroup" % (c.name, c.type))
        return g

    def put(m, o, v):
        if o.name in m:
            raise Violation("merge", "%r created twice" % o.name)
        m[o.name] = v
    M = {"insts": {}}
    for i in objs:
        if i.db == d and i.kind == "I" and i.type == ST["INSTANCE"]:
            I = {"du": objs[i.du - 1].name, "cgs": {}}
            put(M["insts"], i, I)
            for c in objs:
                if c.parent == i.id and c.kind == "S" and c.db == d:
                    if c.type != ST["COVERGROUP"]:
                        raise Violation("merge", "scope %r of type %#x in an instance" % (c.name, c.type))
                    put(I["cgs"], c, group(c))
    return M


def one_at_least(M):
    """at_least is not part of what is claimed to reach the library."""
    M = model.clone(M)

    def group(g):
        for p in list(g["cps"].values()) + list(g["crs"].values()):
            for b in p["bins"].values():
                b[1] = 1
        for x in g["insts"].values():
            group(x)
    for i in M["insts"].values():
        for g in i["cgs"].values():
            group(g)
    return M


# ------------------------------------------------------------------ generation
def gen_src(r):
    if r.random() < 0.5:
        return None
    return [r.choice([None, 0, 1, 2, 3]), r.choice([0, 1, 7, 65536, 2**31 - 1]), r.randrange(0, 100)]


def gen_td(r, spice):
    def s():
        x = r.random()
        return None if x < 0.15 else "" if x < 0.25 else gen.text(r, spice) if x < 0.7 else gen.name(r, spice)
    td = {"status": r.randrange(0, 7), "simtime": r.choice([0.0, 1.5, 12345.678, 2.0**60, 1e-9]),
          "cputime": r.choice([0.0, 0.25, 3600.5, 1e300]), "compulsory": r.choice([0, 1, 5]),
          "cost": r.choice([0.0, -1.0, 17.25])}
    for k in TDF[5:]:
        td[k] = s()
    if r.random() < 0.2:
        td["seed"] = r.randrange(0, 2**40)
    return td


def gen_op(r, spice):
    x = r.random()
    o = {"at": r.randrange(1000), "n": gen.name(r, spice), "capi": r.random() < 0.4}
    o["w"] = r.choice([0, 1, 1, 2, 100, 2**31 - 1, -1])
    o["s"] = r.choice(SRC)
    if x < 0.03:
        o["op"] = "new"
    elif x < 0.08:
        o.update(op="fh", wd=r.choice([None, ".", "/w ö", "dir"]))
    elif x < 0.16:
        o.update(op="scope", t=r.choice(["DU_MODULE"] * 6 + ["DU_ARCH", "DU_PACKAGE", "DU_PROGRAM", "DU_INTERFACE",
                                                           "FUNCTION", "BLOCK", "CLASS", "CVGBINSCOPE",
                                                           "ILLEGALBINSCOPE", "PACKAGE_ANY"]),
                 sub=r.random() < 0.4, f=gen_flags(r), src=gen_src(r), anon=r.random() < 0.05)
    elif x < 0.24:
        o.update(op="inst", t=r.choice(["INSTANCE"] * 5 + ["PROGRAM", "INTERFACE"]), sub=r.random() < 0.3,
                 f=gen_flags(r), src=gen_src(r), d=r.randrange(100))
    elif x < 0.33:
        o.update(op="cg", src=gen_src(r))
    elif x < 0.38:
        o.update(op="ci", src=gen_src(r))
    elif x < 0.48:
        o.update(op="cp", src=gen_src(r))
    elif x < 0.54:
        o.update(op="cross", src=gen_src(r), pts=[r.randrange(100) for _ in range(r.randrange(1, 6))])
    elif x < 0.57:
        o.update(op="toggle", canon=r.choice([None, gen.name(r, spice)]), f=r.choice([0, 1, 2**31]),
                 tm=r.randrange(1, 7), tt=r.randrange(1, 3), td=r.randrange(1, 5))
    elif x < 0.71:
        o.update(op="bin", c=gen_count(r), t=r.choice(["CVGBIN", "CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN"]),
                 src=gen_src(r), al=r.choice([1, 2, 100]), kd=r.random() < 0.2)
    elif x < 0.75:
        o.update(op="cover", c=gen_count(r), t=r.choice(sorted(CT)), src=gen_src(r), g=r.randrange(0, 200),
                 lim=r.randrange(0, 9), bl=r.randrange(0, 9), wide=r.random() < 0.5, reuse=r.random() < 0.3)
    elif x < 0.81:
        k = r.choice(sorted(PNUM))
        v = (r.random() < 0.5 if k in BOOLS else gen.text(r, spice) if k == "Comment"
             else r.choice([0, 1, 64, 2**31 - 1, -1]))
        o.update(op="prop", p=k, v=v, prop=r.random() < 0.3)
    elif x < 0.85:
        o.update(op="hist", ph=r.choice([None, gen.name(r, spice)]), k=r.choice(["TEST", "TEST", "MERGE", "NONE"]),
                 par=r.choice([None, None, r.randrange(50)]))
    elif x < 0.88:
        o.update(op="td", td=gen_td(r, spice))
    elif x < 0.895:
        o["op"] = "gettd"
    elif x < 0.92:
        o.update(op="ihist", k=r.choice(["ALL", "ALL", "TEST", "MERGE"]), two=r.random() < 0.3, grow=r.random() < 0.2,
                 over=r.randrange(0, 3), lst=r.random() < 0.3)
    elif x < 0.94:
        o.update(op="iscopes", mask=r.choice([None, None, "COVERGROUP", "COVERPOINT", "INSTANCE", "CROSS"]),
                 two=r.random() < 0.3, over=r.randrange(0, 3), root=r.random() < 0.4)
    elif x < 0.95:
        o.update(op="srcinfo")
    elif x < 0.96:
        o.update(op="fname")
    elif x < 0.975:
        o.update(op="write", f=r.choice(["a.ucis", "b.ucis", "ö.ucis"]), sc=r.choice([None, None, 1]),
                 rec=r.random() < 0.7, ct=r.choice([None, "CVGBIN", "STMTBIN"]))
    elif x < 0.98:
        o.update(op="close")
    elif x < 0.99:
        o.update(op="reopen", f=r.choice(["a.ucis", "b.ucis", "ö.ucis", "none.ucis"]))
    else:
        o.update(op="merge", src=[r.randrange(3) for _ in range(r.randrange(1, 4))])
    if o["op"] == "merge":
        if r.random() < 0.6:
            o["fail"] = [r.choice(MERGEFN), r.choice([1, 1, 2, 3, 5, 9, 20]), r.random() < 0.3]
    elif r.random() < 0.13:
        fn = FN.get(o["op"], "ucis_CreateScope")
        if o["op"] == "ihist":
            fn = "ucis_HistoryIterate"
        if o["op"] == "iscopes":
            fn = "ucis_ScopeIterate"
        o["fail"] = [fn, 1, r.random() < 0.3]
    return o


def many(r, spice):
    """Hundreds of equal calls on one place, then a look at the result."""
    kind = r.choice(["hist", "hist", "inst", "scope", "cg", "cp", "bin"])
    at, out = r.randrange(1000), []
    while True:
        o = gen_op(r, spice)
        if o["op"] == kind and "fail" not in o:
            break
    o["at"] = at
    for k in range(r.randrange(40, 300)):
        out.append(dict(o, n="%s%d" % (o["n"], k), q=True))
    for op in ("ihist", "ihist", "iscopes", "iscopes"):
        while True:
            o = gen_op(r, spice)
            if o["op"] == op and "fail" not in o:
                break
        out.append(dict(o, at=at))
    return out


def cap(x):
    """Sums of three stay below 2^64."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "bins":
                for b in v:
                    if isinstance(b[2], int):
                        b[2] = min(b[2], 2**60)
            else:
                cap(v)
    elif isinstance(x, list):
        for v in x:
            cap(v)


def gen_count(r):
    return r.choice([0, 1, 2, 255, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 + 1, 2**63 - 1, 2**63,
                     2**64 - 1, r.randrange(2**64), r.randrange(1000), r.randrange(1000)])


def gen_flags(r):
    return r.choice([0, 1, 0x100, 0x7f, 0x10000, 0x1800000, r.randrange(2**24)])


class C11:
    runs = {"quick": 7000, "thorough": 250000}
    rule = ("one evaluation performs 20-90 recording calls, test-data transfers, iterations, writes, closes and merges "
            "on several databases of a simulated UCIS C library that refuses seeded calls; the library's whole state "
            "is compared with the reference model as the run proceeds. non-trivial = the library refused a call, or a "
            "merge or a reopening took place")
    measure = "distinct event-log digests (calls, refusals, library states) of non-trivial runs"
    real = "ucis.lib (ctypes bindings, real calls into C through ctypes), ucis.merge, ucis.mem, the ucis_* functions"
    stub = "the UCIS C library: sim/ucisstub.c, an in-memory implementation of the 22 functions bound by ucis.lib"
    assumptions = ["the numeric values of the C interface are those of the tree this was written against",
                   "at_least and read access other than test data, history, scopes, source information and file names "
                   "are not claimed of this backend",
                   "file handles in source information belong to the same library database"]

    def prepare(self):
        Stub.get()

    def gen(self, r, tier, idx):
        spice = r.choice([0.0, 0.3])
        ops = [{"op": "new", "at": 0, "n": "", "capi": False, "w": 1, "s": "NONE"}]
        # a little to start from, so that most later calls have something to apply to
        for op, n in (("fh", 1), ("scope", 1), ("inst", 1), ("cg", 1), ("cp", 2)):
            for _ in range(n):
                while True:
                    o = gen_op(r, spice)
                    if o["op"] == op and "fail" not in o and o.get("t", "DU_MODULE") in ("DU_MODULE", "INSTANCE"):
                        break
                ops.append(o)
        ops += [gen_op(r, spice) for _ in range(r.randrange(15, 80))]
        if r.random() < 0.06:
            ops += many(r, spice)
        plan = {"env": gen.env_plain(r), "ops": ops, "badlib": r.random() < 0.2}
        if any(o["op"] == "merge" for o in ops):
            uni = gen.universe(r, 1, spice)
            plan["dbs"] = [gen.draw(r, uni, spice=spice, big=True) for _ in range(3)]
            cap(plan["dbs"])
        return plan

    def shrinks(self, plan):
        ops = plan["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(plan, ops=ops[:i] + ops[i + size:])
            size //= 2
        for i, o in enumerate(ops):
            if o.get("src") is not None and o["op"] != "merge":
                yield dict(plan, ops=ops[:i] + [dict(o, src=None)] + ops[i + 1:])
            if "fail" in o:
                yield dict(plan, ops=ops[:i] + [{k: v for k, v in o.items() if k != "fail"}] + ops[i + 1:])

    def run(self, plan, ctx):
        Run(plan, ctx).go()


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.m = plan, ctx, ctx.m
        self.lib = Stub.get()
        self.e = []              # expected objects, index = id - 1
        self.dbs = []            # open: (LibUCIS, D object)
        self.files = {}
        self.cd = None
        self.alive = 0           # iterators the library may still hold

    # -------------------------------------------------------------- plumbing
    def go(self):
        ctx, m, lib = self.ctx, self.m, self.lib
        lib.sim_reset()
        F = m.imp("ucis.lib.LibFactory").LibFactory
        self.F = F
        self.must_raise("no library", F.create)
        if self.plan["badlib"]:
            ctx.w.put("notalib.so", b"not a library")
            for p in ("notalib.so", "missing.so"):
                self.must_raise("loading " + p, lambda: F.load_ucis_library(ctx.w.path(p)))
                self.must_raise("no library", F.create)
        F.load_ucis_library(Stub.path)
        self.enc = self.m.imp("ucis.mem.mem_factory").MemFactory
        hook = sys.unraisablehook
        sys.unraisablehook = lambda a: None
        try:
            for k, o in enumerate(self.plan["ops"]):
                with contextlib.redirect_stdout(io.StringIO()):
                    did = getattr(self, "do_" + o["op"])(o)
                self.lib.sim_disarm()
                ctx.ev(k, o["op"], did)
                if o.get("q"):
                    continue
                if k % 4 == 3 or "fail" in o or o["op"] in ("merge", "ihist", "iscopes", "td", "gettd", "srcinfo"):
                    self.check("after step %d (%s)" % (k, o["op"]))
            raw = self.check("at the end")
            ctx.ev(raw)
        finally:
            sys.unraisablehook = hook
            lib.sim_reset()

    def must_raise(self, what, fn):
        v, e = attempt(fn)
        if e is None:
            raise Violation("success-without-library", "%s: returned %r" % (what, type(v).__name__))

    def call(self, o, fn, what):
        """(value, refused); raises Violation if refusal and outcome disagree."""
        f = o.get("fail")
        if f:
            self.lib.sim_fail(f[0].encode(), f[1], int(f[2]))
        v, e = attempt(fn)
        fired = self.lib.sim_disarm()
        if fired:
            self.ctx.nontrivial = True
            self.ctx.w.count_fault("library-refuses:" + f[0])
            if f[2]:
                self.ctx.w.count_fault("library-error-callback")
        if fired and e is None:
            raise Violation("refused-but-successful", "%s: %s was refused, the caller got %r" % (
                what, f[0], type(v).__name__))
        if not fired and e is not None:
            raise Violation("failed", "%s: %s: %s" % (what, exc_name(e), e))
        return v, bool(fired)

    def add(self, kind, d, parent, obj, **k):
        n = O(kind, len(self.e) + 1, d.id if d else len(self.e) + 1, parent.id if parent else 0, **k)
        n.obj = obj
        self.e.append(n)
        return n

    def check(self, what):
        lib = self.lib
        raw, got = dump(lib)
        if lib.sim_misuse():
            raise Violation("library-misused", "%s: %s" % (what, lib.sim_misuse_msg().decode()))
        for a, b in zip(self.e, got):
            ka, kb = a.key(), b.key()
            if ka != kb:
                for (f, x), (_, y) in zip(ka, kb):
                    if x != y:
                        raise Violation("wrong-%s" % f, "%s: object %d (%s %r) %s: asked for %r, library has %r" % (
                            what, a.id, a.kind, a.name, f, x, y))
                raise Violation("wrong-object", "%s: %r vs %r" % (what, ka, kb))
            for p, v in a.props.items():
                if b.props.get(p) != v:
                    raise Violation("wrong-property", "%s: object %d (%s %r) property %r: set to %r, library has %r" % (
                        what, a.id, a.kind, a.name, p, v, b.props.get(p)))
            if len(a.covers) != len(b.covers):
                raise Violation("wrong-bins", "%s: %r: %d items asked for, library has %d" % (
                    what, a.name, len(a.covers), len(b.covers)))
            for x, y in zip(a.covers, b.covers):
                for f, v in x.items():
                    if f == "wide":
                        continue
                    if y[f] != v:
                        raise Violation("wrong-bin-%s" % f, "%s: item %r of %r: %s %r asked for, library has %r" % (
                            what, x["name"], a.name, f, v, y[f]))
                if y["flags"] & 7 not in (1, 2):
                    raise Violation("wrong-bin-flags", "%s: item %r: flags %#x do not tell the width" % (
                        what, x["name"], y["flags"]))
        if len(self.e) != len(got):
            raise Violation("wrong-objects", "%s: %d objects asked for, library has %d (%s)" % (
                what, len(self.e), len(got),
                [(x.kind, x.name) for x in got[len(self.e):]] or [(x.kind, x.name) for x in self.e[len(got):]]))
        if lib.sim_live_iterators() > self.alive:
            raise Violation("iterator-leak", "%s: %d iterators not released" % (
                what, lib.sim_live_iterators() - self.alive))
        return raw

    def db(self, o):
        return self.dbs[o["at"] % len(self.dbs)] if self.dbs else None

    def pick(self, d, o, kinds, types=None, k="at"):
        c = [x for x in self.e if x.db == d.id and x.kind in kinds and x.obj is not None
             and (types is None or x.type in types)]
        return c[o[k] // max(1, len(self.dbs)) % len(c)] if c else None

    def src(self, d, s):
        """(SourceInfo or None, expected tuple)"""
        if s is None:
            return None, None
        fh = None
        if s[0] is not None:
            c = [x for x in self.e if x.kind == "F" and x.db == d.id and x.obj is not None]
            fh = c[s[0] % len(c)] if c else None
        si = self.m.src.SourceInfo(None if fh is None else fh.obj, s[1], s[2])
        return si, (fh.id if fh else 0, s[1], s[2])

    def parent(self, d, o, types):
        return self.pick(d, o, "SI", types) if types else None

    # -------------------------------------------------------------- databases
    def do_new(self, o):
        if len(self.dbs) >= 3:
            return "-"
        v, refused = self.call(o, self.F.create, "create")
        if refused:
            return "refused"
        n = self.add("D", None, None, v, open=1)
        n.db = n.id
        self.dbs.append((v, n))
        return n.id

    def do_write(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        sc = self.pick(d, o, "SIXT") if o["sc"] else None
        so = None if sc is None else sc.obj
        ct = -1 if o["ct"] is None else CT[o["ct"]]
        path = "/sim/" + o["f"]
        if o["capi"]:
            fn = lambda: self.m.ucis.ucis_Write(db, path, so, 1 if o["rec"] else 0, ct)
        elif o["ct"] is None and o["rec"] and sc is None:
            fn = lambda: db.write(path)
        else:
            fn = lambda: db.write(path, so, o["rec"], ct)
        v, refused = self.call(o, fn, "write")
        if refused:
            return "refused"
        d.name2, d.weight, d.source, d.type = path, sc.id if sc else 0, int(o["rec"]), ct & 0xffffffff
        self.files[path] = d
        return d.id

    def do_close(self, o):
        if len(self.dbs) < 2:
            return "-"
        db, d = self.db(o)
        fn = (lambda: self.m.ucis.ucis_Close(db)) if o["capi"] else db.close
        v, refused = self.call(o, fn, "close")
        if refused:
            return "refused"
        d.open -= 1
        self.dbs.remove((db, d))
        if d.open == 0:
            for x in self.e:
                if x.db == d.id:
                    x.obj = None
        return d.id

    def do_reopen(self, o):
        path = "/sim/" + o["f"]
        if len(self.dbs) >= 3:
            return "-"
        if path not in self.files:
            if "fail" in o:
                return "-"
            v, e = attempt(lambda: self.F.create(path))
            if e is None:
                raise Violation("refused-but-successful", "opening %r, which does not exist, returned %r" % (
                    path, type(v).__name__))
            return "missing"
        v, refused = self.call(o, lambda: self.F.create(path), "open")
        if refused:
            return "refused"
        d = self.files[path]
        d.open += 1
        d.obj = v
        self.dbs.append((v, d))
        self.ctx.nontrivial = True
        return d.id

    # -------------------------------------------------------------- recording
    def do_fh(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        fn = ((lambda: self.m.ucis.ucis_CreateFileHandle(db, o["n"], o["wd"])) if o["capi"]
              else lambda: db.createFileHandle(o["n"], o["wd"]))
        v, refused = self.call(o, fn, "createFileHandle")
        if refused:
            return "refused"
        return self.add("F", d, None, v, name=o["n"], name2=o["wd"]).id

    def do_fname(self, o):
        x = self.db(o)
        f = x and self.pick(x[1], o, "F")
        if not f:
            return "-"
        v = f.obj.getFileName()
        if v != f.name:
            raise Violation("file-name", "file handle of %r returned %r" % (f.name, v))
        return v

    def do_scope(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        u = self.m.ucis
        p = self.pick(d, o, "SI") if o["sub"] else None
        si, want = self.src(d, o["src"])
        t = ST["PROCESS"] if o["t"] == "PACKAGE_ANY" else ST[o["t"]]
        T = self.m.scope_t.ScopeTypeT
        tt = T(t)
        name = None if o["anon"] else o["n"]
        s = u.SourceT[o["s"]]
        if o["capi"]:
            fn = lambda: u.ucis_CreateScope(db, p and p.obj, name, si, o["w"], s, tt, o["f"])
        else:
            fn = lambda: (p.obj if p else db).createScope(name, si, o["w"], s, tt, o["f"])
        v, refused = self.call(o, fn, "createScope")
        if refused:
            return "refused"
        return self.add("S", d, p, v, name=name, weight=o["w"], source=SRC.index(o["s"]), type=t, flags=o["f"],
                        src=want).id

    def do_inst(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        u = self.m.ucis
        dus = [x for x in self.e if x.db == d.id and x.kind == "S" and x.obj is not None
               and x.type & 0x1f000000]
        if not dus:
            return "-"
        du = dus[o["d"] % len(dus)]
        p = self.pick(d, o, "I") if o["sub"] else None
        si, want = self.src(d, o["src"])
        t = ST[o["t"]]
        tt = self.m.scope_t.ScopeTypeT(t)
        s = u.SourceT[o["s"]]
        if o["capi"]:
            fn = lambda: u.ucis_CreateInstance(db, p and p.obj, o["n"], si, o["w"], s, tt, du.obj, o["f"])
        else:
            fn = lambda: (p.obj if p else db).createInstance(o["n"], si, o["w"], s, tt, du.obj, o["f"])
        v, refused = self.call(o, fn, "createInstance")
        if refused:
            return "refused"
        return self.add("I", d, p, v, name=o["n"], weight=o["w"], source=SRC.index(o["s"]), type=t, flags=o["f"],
                        src=want, du=du.id).id

    def simple(self, o, ptypes, pkinds, t, method):
        x = self.db(o)
        p = x and self.pick(x[1], o, pkinds, ptypes)
        if not p or not hasattr(p.obj, method):
            return "-"
        db, d = x
        si, want = self.src(d, o["src"])
        s = self.m.ucis.SourceT[o["s"]]
        v, refused = self.call(o, lambda: getattr(p.obj, method)(o["n"], si, o["w"], s), method)
        if refused:
            return "refused"
        return self.add("S", d, p, v, name=o["n"], weight=o["w"], source=SRC.index(o["s"]), type=t, src=want).id

    def do_cg(self, o):
        return self.simple(o, None, "I", ST["COVERGROUP"], "createCovergroup")

    def do_ci(self, o):
        return self.simple(o, (ST["COVERGROUP"],), "S", ST["COVERINSTANCE"], "createCoverInstance")

    def do_cp(self, o):
        return self.simple(o, (ST["COVERGROUP"], ST["COVERINSTANCE"]), "S", ST["COVERPOINT"], "createCoverpoint")

    def do_cross(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        cgs = [c for c in self.e if c.db == d.id and c.type in (0x1000, 0x2000) and hasattr(c.obj, "createCross")
               and any(k.parent == c.id and k.type == 0x4000 and k.obj is not None for k in self.e)]
        if not cgs:
            return "-"
        p = cgs[o["at"] % len(cgs)]
        cps = [k for k in self.e if k.parent == p.id and k.type == 0x4000 and k.obj is not None]
        on = [cps[i % len(cps)] for i in o["pts"]]
        si, want = self.src(d, o["src"])
        s = self.m.ucis.SourceT[o["s"]]
        v, refused = self.call(o, lambda: p.obj.createCross(o["n"], si, o["w"], s, [c.obj for c in on]), "createCross")
        if refused:
            return "refused"
        return self.add("X", d, p, v, name=o["n"], weight=o["w"], source=SRC.index(o["s"]), src=want, type=0x8000,
                        pts=tuple(c.id for c in on)).id

    def do_toggle(self, o):
        x = self.db(o)
        p = x and self.pick(x[1], o, "I")
        if not p:
            return "-"
        db, d = x
        u = self.m.ucis
        tm, tt, td = u.ToggleMetricT(o["tm"]), u.ToggleTypeT(o["tt"]), u.ToggleDirT(o["td"])
        if o["capi"]:
            fn = lambda: u.ucis_CreateToggle(db, p.obj, o["n"], o["canon"], o["f"], tm, tt, td)
        else:
            fn = lambda: p.obj.createToggle(o["n"], o["canon"], o["f"], tm, tt, td)
        v, refused = self.call(o, fn, "createToggle")
        if refused:
            return "refused"
        return self.add("T", d, p, v, name=o["n"], name2=o["canon"], flags=o["f"] - (2**32 if o["f"] >= 2**31 else 0),
                        tm=o["tm"], tt=o["tt"], td_=o["td"], type=1).id

    def do_bin(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        c = [k for k in self.e if k.db == d.id and (k.type == 0x4000 or k.kind == "X") and hasattr(k.obj, "createBin")]
        if not c:
            return "-"
        p = c[o["at"] // max(1, len(self.dbs)) % len(c)]
        si, want = self.src(d, o["src"])
        if o["kd"]:
            t = CT["CVGBIN"]
            fn = lambda: p.obj.createBin(o["n"], si, o["al"], o["c"], o["n"])
        else:
            t = CT[o["t"]]
            fn = lambda: p.obj.createBin(o["n"], si, o["al"], o["c"], o["n"], self.m.cover_t.CoverTypeT(t))
        v, refused = self.call(o, fn, "createBin")
        if refused:
            return "refused"
        p.covers.append({"name": o["n"], "type": t, "count": o["c"], "src": want})
        return p.id

    def do_cover(self, o):
        x = self.db(o)
        p = x and self.pick(x[1], o, "SIXT")
        if not p:
            return "-"
        db, d = x
        u = self.m.ucis
        si, want = self.src(d, o["src"])
        if o["reuse"] and self.cd is not None:
            cd = self.cd
        else:
            wide = o["wide"] or o["c"] >= 2**32
            cd = u.CoverData(self.m.cover_t.CoverTypeT(CT[o["t"]]), (2 if wide else 1) | 0x18)
            cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen = o["c"], o["g"], o["w"], o["lim"], o["bl"]
            cd.at_least = 1
            self.cd = cd
        rec = {"name": o["n"], "type": int(cd.type), "flags": int(cd.flags), "count": cd.data, "goal": cd.goal,
               "weight": cd.weight, "limit": cd.limit, "bitlen": cd.bitlen, "src": want}
        if o["capi"]:
            fn = lambda: u.ucis_CreateNextCover(db, p.obj, o["n"], cd, si)
        else:
            fn = lambda: p.obj.createNextCover(o["n"], cd, si)
        v, refused = self.call(o, fn, "createNextCover")
        if refused:
            return "refused"
        if getattr(v, "index", len(p.covers)) != len(p.covers) and type(v) is not int:
            raise Violation("wrong-index", "item %d of %r got index %r" % (len(p.covers), p.name, v.index))
        p.covers.append(rec)
        return p.id

    def do_prop(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        k = o["p"]
        if k == "TestStatus":
            p = self.pick(d, o, "H")
        elif k == "Goal":
            p = self.pick(d, o, "DSIXT")
        else:
            c = [q for q in self.e if q.db == d.id and hasattr(q.obj, "set" + k) and q.kind in "SX"
                 and (k not in CGP or q.type in (0x1000, 0x2000))]
            p = c[o["at"] % len(c)] if c else None
        if not p:
            return "-"
        u = self.m.ucis
        v = o["v"]
        if k in BOOLS:
            want = int(v)
        else:
            want = v
        isstr = k == "Comment"
        if o["prop"]:
            ip = (u.StrProperty if isstr else u.IntProperty)(PNUM[k])
            f = u.ucis_SetStringProperty if isstr else u.ucis_SetIntProperty
            if o["capi"]:
                fn = lambda: f(db, None if p.kind == "D" else p.obj, -1, ip, want)
            else:
                fn = lambda: (p.obj.setStringProperty if isstr else p.obj.setIntProperty)(-1, ip, want)
        else:
            fn = lambda: getattr(p.obj, "set" + k)(v)
        self.call({}, fn, "set" + k)
        p.props[(-1, PNUM[k], int(isstr))] = want
        return p.id

    # -------------------------------------------------------------- history
    def do_hist(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        hs = [h for h in self.e if h.kind == "H" and h.db == d.id and h.obj is not None]
        p = hs[o["par"] % len(hs)] if hs and o["par"] is not None else None
        K = self.m.hnk.HistoryNodeKind(HK[o["k"]])
        if o["capi"]:
            fn = lambda: self.m.ucis.ucis_CreateHistoryNode(db, p and p.obj, o["n"], o["ph"], K)
        else:
            fn = lambda: db.createHistoryNode(p and p.obj, o["n"], o["ph"], K)
        v, refused = self.call(o, fn, "createHistoryNode")
        if refused:
            return "refused"
        return self.add("H", d, p, v, name=o["n"], name2=o["ph"], hkind=HK[o["k"]]).id

    def do_td(self, o):
        x = self.db(o)
        h = x and self.pick(x[1], o, "H")
        if not h:
            return "-"
        t = o["td"]
        td = self.m.td.TestData(teststatus=t["status"], toolcategory=t["toolcat"], date=t["date"],
                                simtime=t["simtime"], timeunit=t["timeunit"], runcwd=t["runcwd"],
                                cputime=t["cputime"], seed=t["seed"], cmd=t["cmd"], args=t["args"],
                                compulsory=t["compulsory"], user=t["user"], cost=t["cost"])
        if o["capi"]:
            fn = lambda: self.m.ucis.ucis_SetTestData(x[0], h.obj, td)
        else:
            fn = lambda: h.obj.setTestData(td)
        v, refused = self.call(o, fn, "setTestData")
        if refused:
            return "refused"
        h.td = tuple(t[k] if k != "seed" or t[k] is None else str(t[k]) for k in TDF)
        return h.id

    def td_of(self, h, what):
        """Reads test data back; the library has none -> an error."""
        if h.td is None:
            v, e = attempt(h.obj.getTestData)
            if e is None:
                raise Violation("refused-but-successful", "%s: test data of %r was never set, got %r" % (
                    what, h.name, type(v).__name__))
            return None
        t = h.obj.getTestData()
        got = (t.teststatus, t.simtime, t.cputime, t.compulsory, t.cost, t.timeunit, t.runcwd, t.seed, t.cmd, t.args,
               t.date, t.user, t.toolcategory)
        for k, a, b in zip(TDF, h.td, got):
            if a != b:
                raise Violation("test-data", "%s: %s of %r: set %r, read %r" % (what, k, h.name, a, b))
        return got

    def do_gettd(self, o):
        x = self.db(o)
        h = x and self.pick(x[1], o, "H")
        if not h:
            return "-"
        if h.td is None:
            return self.td_of(h, "getTestData")
        if "fail" in o:
            v, refused = self.call(o, h.obj.getTestData, "getTestData")
            if refused:
                return "refused"
        return self.td_of(h, "getTestData")

    def drain(self, its, over, grow=None):
        """Advance iterators in turn until all have ended; then ask again."""
        out = [[] for _ in its]
        live = list(range(len(its)))
        steps = 0
        while live:
            for i in list(live):
                steps += 1
                if steps > 3000:
                    raise Violation("iteration-endless", "more than 3000 steps")
                try:
                    out[i].append(next(its[i]))
                except StopIteration:
                    live.remove(i)
            if grow:
                grow()
                grow = None
        for it in its:
            for _ in range(over):
                try:
                    v = next(it)
                except StopIteration:
                    continue
                raise Violation("iteration-after-end", "an ended iterator returned %r" % type(v).__name__)
        return out

    def do_ihist(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        kind = self.m.hnk.HistoryNodeKind({"ALL": 0, "TEST": 1, "MERGE": 2}[o["k"]])
        want = [h for h in self.e if h.kind == "H" and h.db == d.id and (kind == 0 or h.hkind == kind)]
        if "fail" in o:
            f = o["fail"]
            self.lib.sim_fail(f[0].encode(), 1, int(f[2]))
            v, e = attempt(lambda: list(db.historyNodes(kind)))
            if self.lib.sim_disarm():
                self.ctx.nontrivial = True
                self.ctx.w.count_fault("library-refuses:" + f[0])
                if v:
                    raise Violation("refused-but-successful", "a refused iteration returned %d nodes" % len(v))
                return "refused"
        if o["lst"]:
            out = [list(db.getHistoryNodes(kind))]
        else:
            its = [iter(db.historyNodes(kind)) for _ in range(2 if o["two"] else 1)]
            out = self.drain(its, o["over"])
        for ns in out:
            if len(ns) != len(want):
                raise Violation("history-iteration", "%d nodes, %d iterated" % (len(want), len(ns)))
            for h, n in zip(want, ns):
                h2 = O("H", h.id, h.db, h.parent, name=h.name, td=h.td)
                h2.obj = n
                self.td_of(h2, "iterated history")
                if h.obj is not None or d.open:
                    h.obj = n
        return len(want)

    def do_iscopes(self, o):
        x = self.db(o)
        if x is None:
            return "-"
        db, d = x
        p = None if o["root"] else self.pick(d, o, "SI")
        mask = 0xffffffff if o["mask"] is None else ST[o["mask"]]
        pid = p.id if p else 0
        want = [c for c in self.e if c.db == d.id and c.kind in "SIXT" and c.parent == pid and c.type & mask & 0xffffffff]
        src = p.obj if p else db
        T = self.m.scope_t.ScopeTypeT
        arg = T.ALL if o["mask"] is None else T(mask)
        if "fail" in o:
            f = o["fail"]
            self.lib.sim_fail(f[0].encode(), 1, int(f[2]))
            v, e = attempt(lambda: list(src.scopes(arg)))
            if self.lib.sim_disarm():
                self.ctx.nontrivial = True
                self.ctx.w.count_fault("library-refuses:" + f[0])
                if v:
                    raise Violation("refused-but-successful", "a refused iteration returned %d scopes" % len(v))
                return "refused"
        its = [iter(src.scopes(arg)) for _ in range(2 if o["two"] else 1)]
        for ns in self.drain(its, o["over"]):
            if len(ns) != len(want):
                raise Violation("scope-iteration", "%d scopes, %d iterated" % (len(want), len(ns)))
            for c, n in zip(want, ns):
                self.srcinfo(c, n)
                if c.obj is None and d.open:
                    c.obj = n
        return len(want)

    def srcinfo(self, c, obj):
        if c.kind not in "SIX":
            return None
        s = obj.getSourceInfo()
        want = (None, 0, 0) if c.src is None else (
            self.e[c.src[0] - 1].name if c.src[0] else None, c.src[1], c.src[2])
        got = (None, 0, 0) if s is None else (None if s.file is None else s.file.getFileName(), s.line, s.token)
        if got != want:
            raise Violation("source-info", "%r: recorded %r, read %r" % (c.name, want, got))
        return got

    def do_srcinfo(self, o):
        x = self.db(o)
        p = x and self.pick(x[1], o, "SIX")
        if not p:
            return "-"
        if "fail" in o:
            v, refused = self.call(o, p.obj.getSourceInfo, "getSourceInfo")
            if refused:
                return "refused"
        return self.srcinfo(p, p.obj)

    # -------------------------------------------------------------- merge
    def do_merge(self, o):
        m = self.m
        if not hasattr(self, "mem"):
            self.mem = [build.build(m, s) for s in self.plan["dbs"]]
            self.mm = [model.model_of(s) for s in self.plan["dbs"]]
        self.ctx.nontrivial = True
        res = []
        for turn in range(2):
            dst = self.F.create()
            d = self.add("D", None, None, dst, open=1)
            d.db = d.id
            f = o.get("fail") if turn == 0 else None
            v, refused = self.call({"fail": f} if f else {},
                                   lambda: self.ctx.tool(m.merge.DbMerger).merge(dst, [self.mem[i] for i in o["src"]]), "merge")
            raw, got = dump(self.lib)
            new = got[len(self.e):]
            for x in new:
                if x.db != d.id:
                    raise Violation("merge", "object %r went to database %d, not %d" % (x.name, x.db, d.id))
                x.props = {}
                self.e.append(x)
            res.append((refused, len(new)))
            if not refused:
                for x in new:
                    if x.kind in "SIX" and x.src is not None and x.src[0]:
                        raise Violation("merge", "%r got source information %r" % (x.name, x.src))
                    if x.kind not in "SIX" or x.kind == "S" and x.type == ST["DU_MODULE"] and x.parent:
                        raise Violation("merge", "%r unexpected (%s)" % (x.name, x.kind))
                want = one_at_least(model.merge([self.mm[i] for i in o["src"]]))
                have = tree(got, d.id)
                if model.canon_sorted(want) != model.canon_sorted(have):
                    raise Violation("merge", model.diff(model.canon_sorted(want), model.canon_sorted(have)))
            for x in new:
                x.obj = None
            self.call({}, dst.close, "close")
            d.open -= 1
            d.obj = None
            if not refused:
                break
        return res


PROP = C11()

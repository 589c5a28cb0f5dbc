"""C14: files are closed on every outcome; caller streams are left to the caller."""
import gzip
import io
import os

from sim import gen, model
from sim.world import Interrupt, Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name
from . import kit

XIN = ["a.xml", "b.xml", "c.xml.gz", "a.xml", "torn.xml", "torn.xml.gz", "invalid.xml", "ref.xml", "empty.xml",
       "junk.bin", "missing.xml", "adir"]
YIN = ["y.yml", "y.yml", "bad.yml", "badschema.yml", "badref.yml", "empty.xml", "missing.yml", "adir"]
SRC = ["probe", "stringio", "rb", "rb", "text", "gz", "unseek", "raw"]
SINK = ["stringio", "sink", "text", "gz", "seek"]


class Probe(io.BytesIO):
    """A caller's binary stream that notes attempts to close it."""
    closes = 0

    def close(self):
        self.closes += 1
        super().close()


class Unseekable(Probe):
    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")


class Sink(io.TextIOBase):
    """A caller's text stream: a pipe that may break at the n-th write."""

    def __init__(self, brk=None):
        super().__init__()
        self.parts, self.n, self.brk, self.closes = [], 0, brk, 0
        self.broke = False

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.brk is not None and self.n >= self.brk:
            self.broke = True
            raise OSError(32, "Broken pipe (simulated)")
        self.parts.append(s)
        return len(s)

    def close(self):
        self.closes += 1
        super().close()


def fault(r):
    x = r.random()
    act = lambda l: r.choice(l)
    if x < 0.45:
        f = {"op": "read", "role": r.choice(["*", "data", "data", "schema"]), "nth": r.randrange(1, 10),
             "act": act(["EIO", "ESTALE", "KeyboardInterrupt", "MemoryError"])}
    elif x < 0.55:
        f = {"op": "seek", "role": r.choice(["*", "data"]), "nth": r.randrange(1, 4),
             "act": act(["EIO", "KeyboardInterrupt"])}
    elif x < 0.68:
        f = {"op": "openr", "role": r.choice(["*", "data", "schema"]), "nth": r.randrange(1, 5),
             "act": act(["EMFILE", "EACCES", "EIO", "MemoryError"])}
    elif x < 0.88:
        f = {"op": "write", "role": r.choice(["*", "data", "<stdout>"]), "nth": r.randrange(1, 4),
             "act": act(["EIO", "ENOSPC", "KeyboardInterrupt", "MemoryError"]), "part": r.choice([0, 5, 100])}
    else:
        f = {"op": r.choice(["close", "openw"]), "role": r.choice(["*", "data"]), "nth": r.randrange(1, 3),
             "act": act(["EIO", "ENOSPC"])}
    return f


def gen_op(r):
    x = r.random()
    if x < 0.2:
        o = {"op": "readx", "file": r.choice(XIN), "via": r.choice(["path", "path", "rgy", "validate"])}
    elif x < 0.36:
        o = {"op": "streamx", "file": r.choice(XIN), "src": r.choice(SRC),
             "via": r.choice(["factory", "factory", "rgy", "reader", "validate"]), "again": r.random() < 0.3}
    elif x < 0.44:
        o = {"op": "ready", "file": r.choice(YIN)}
    elif x < 0.52:
        o = {"op": "streamy", "file": r.choice(YIN), "src": r.choice(["probe", "stringio", "rb", "text"])}
    elif x < 0.66:
        o = {"op": "streamw", "db": r.randrange(2), "sink": r.choice(SINK), "via": r.choice(["factory", "writer"]),
             "brk": r.choice([None, None, 1, 2, 3]), "prefix": r.random() < 0.5}
    elif x < 0.72:
        o = {"op": "streamr", "db": r.randrange(2), "sink": r.choice(SINK), "brk": r.choice([None, None, 1, 2, 5]),
             "via": r.choice(["txt", "json", "form"]), "prefix": r.random() < 0.5}
    elif x < 0.82:
        c = r.choice(["merge", "convert", "report"])
        o = {"op": "cli", "cmd": c, "ins": [r.choice(XIN) for _ in range(r.randrange(1, 4) if c == "merge" else 1)],
             "out": r.choice(["o.xml", "o.xml", None, "adir", "nodir/o.xml"]) if c == "report" else
             r.choice(["o.xml", "o.xml", "adir"]),
             "of": r.choice([None, "json", "txt"]) if c == "report" else None}
        if r.random() < 0.2:
            o["if"], o["ins"] = "yaml", [r.choice(YIN) for _ in o["ins"]]
    else:
        o = {"op": "kit", "o": kit.op(r)}
    y = r.random()
    if y < 0.45:
        o["faults"] = [fault(r)]
    elif y < 0.6:
        o["int"] = {"n": int(10 ** r.uniform(0, 3)), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}
    return o


class C14:
    runs = {"quick": 4000, "thorough": 150000}
    rule = ("one evaluation performs 5-12 reads, saves, reports and commands on good, torn, invalid, missing and "
            "unreadable files and on caller-owned streams of many kinds, most with an I/O error, an interrupt or "
            "memory exhaustion injected at a file operation or while database objects are being built; when each "
            "returns or raises (the exception still being held) every file it opened must be closed (simulated "
            "handles and the process's descriptor table), every caller stream must still be open, and an acknowledged "
            "save stream must hold what was there plus the whole document. non-trivial = an operation failed while "
            "it had a file or stream in use")
    measure = "distinct event-log digests (operation, outcome, faults) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["interrupts arrive at a file operation or while database objects are built, i.e. while "
                            "the file is in use, not in the instant between opening a file and guarding it"]

    def gen(self, r, tier, idx):
        st = kit.gen_stock(r, r.choice([0.0, 0.2]), 1)
        st.update(env=gen.env_plain(r), ops=[gen_op(r) for _ in range(r.randrange(5, 13))],
                  cut=round(r.random() * 0.98, 3), cold=r.random() < 0.3)
        return st

    def setup(self, plan, ctx, K):
        w = ctx.w
        K.files()
        a, z = w.get("a.xml"), w.get("c.xml.gz")
        w.put("torn.xml", a[:int(len(a) * plan["cut"])])
        w.put("torn.xml.gz", z[:max(3, int(len(z) * plan["cut"]))])
        w.put("invalid.xml", a.replace(b"coverageCount", b"coverageCnt"))
        w.put("ref.xml", a.replace(b'fileName="__null__file__" id="1"', b'fileName="__null__file__" id="7"'))
        w.put("empty.xml", b"")
        w.put("junk.bin", bytes(range(256)))
        y = w.get("y.yml").decode()
        w.put("bad.yml", y + "\n: : [\n")
        w.put("badschema.yml", "coverage:\n  covergroups:\n  - nam: x\n")
        w.put("badref.yml", "coverage:\n  covergroups:\n  - name: g\n    instances:\n    - name: i\n"
              "      coverpoints:\n      - {name: c, bins: [{name: b, count: 1}]}\n"
              "      crosses:\n      - {name: x, coverpoints: [c, nope], bins: []}\n")
        os.mkdir(w.path("adir"))

    # ------------------------------------------------------------ caller streams
    def source(self, w, o):
        """A caller-owned input stream over a file, or None if the caller cannot make one."""
        f, k = o["file"], o["src"]
        p = w.path(f)
        if not os.path.isfile(p):
            return None
        try:
            if k == "probe":
                return Probe(w.get(f))
            if k == "unseek":
                return Unseekable(w.get(f))
            if k == "stringio":
                return io.StringIO(w.get(f).decode("utf-8"))
            if k == "rb":
                return w.sim_open(p, "rb")
            if k == "raw":
                return w.sim_open(p, "rb", buffering=0)
            if k == "text":
                return w.sim_open(p, "r", encoding="utf-8")
            if k == "gz":
                return gzip.GzipFile(fileobj=w.sim_open(p, "rb"))
        except (UnicodeDecodeError, OSError):
            return None

    def sink(self, w, o, tag):
        k = o["sink"]
        if k == "stringio":
            s = io.StringIO()
        elif k == "sink":
            s = Sink(o["brk"] + bool(o.get("prefix")) if o["brk"] else None)
        elif k == "gz":
            s = io.TextIOWrapper(gzip.GzipFile(fileobj=w.sim_open(w.path(tag), "wb"), mode="wb", mtime=0), "utf-8",
                                 newline="\n")
        elif k == "seek":
            s = w.sim_open(w.path(tag), "w+", encoding="utf-8", newline="\n")
        else:
            s = w.sim_open(w.path(tag), "w", encoding="utf-8", newline="\n")
        if o.get("prefix"):
            s.write("PREFIX\n")
        return s

    def taken(self, w, s, o, tag):
        """What arrived in a caller's output stream (closes it the way its owner would)."""
        k = o["sink"]
        if k == "stringio":
            return s.getvalue()
        if k == "sink":
            return "".join(s.parts)
        if k == "gz":
            gz = s.buffer
            raw = gz.fileobj
            s.close()
            raw.close()
            return gzip.decompress(w.get(tag)).decode("utf-8")
        s.close()
        return w.get(tag).decode("utf-8")

    # ------------------------------------------------------------ run
    def run(self, plan, ctx):
        w, m = ctx.w, ctx.m
        w.bufsize = max(w.bufsize, 16)
        K = kit.Kit(ctx, plan)
        self.setup(plan, ctx, K)
        if plan["cold"]:
            w.restart()
        K.bind()
        m = ctx.m
        troubled = 0
        for n, o in enumerate(plan["ops"]):
            troubled += self.one(plan, ctx, K, n, o)
        ctx.nontrivial = troubled > 0

    def one(self, plan, ctx, K, n, o):
        w, m = ctx.w, ctx.m
        k = o["op"]
        tag = "w%d" % n
        mine, post = [], None
        xf = m.xml_factory.XmlFactory
        if k == "readx":
            p = w.path(o["file"])
            if o["via"] == "path":
                go = lambda: xf.read(p)
            elif o["via"] == "rgy":
                go = lambda: ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if).read(p)
            else:
                go = lambda: m.xml.validate_ucis_xml(p)
        elif k == "ready":
            go = lambda: ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("yaml").fmt_if).read(w.path(o["file"]))
        elif k in ("streamx", "streamy"):
            s = self.source(w, o)
            if s is None:
                return 0
            mine.append(s)
            if k == "streamy":
                go = lambda: ctx.tool(m.yaml_reader.YamlReader).load(s)
            elif o["via"] == "factory":
                go = lambda: xf.read(s)
            elif o["via"] == "rgy":
                go = lambda: ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if).read(s)
            elif o["via"] == "reader":
                go = lambda: ctx.tool(m.xml_reader.XmlReader).read(s)
            else:
                go = lambda: m.xml.validate_ucis_xml(s)

            def post(v, e):
                # the stream is still the caller's: it can be rewound and loaded again
                if e is None and o.get("again") and o["src"] != "unseek":
                    s.seek(0)
                    v2 = go()
                    if o["via"] != "validate":
                        M, H = K.fmodel.get(o["file"], (None, None))
                        if M is not None:
                            model.check_db(m, v2, M, "second-load-differs")
                    ctx.hit("stream-reused")
        elif k in ("streamw", "streamr"):
            s = self.sink(w, o, tag)
            mine.append(s)
            L = K.L[o["db"]]
            if o["via"] == "factory":
                go = lambda: xf.write(L.db, s)
            elif o["via"] == "writer":
                go = lambda: ctx.tool(m.xml_writer.XmlWriter).write(s, L.db)
            elif o["via"] == "form":
                go = lambda: m.rpt_form.TextCoverageReportFormatter(
                    m.builder.CoverageReportBuilder.build(L.db), s).report()
            else:
                go = lambda: ctx.tool(m.rgy.FormatRgy.inst().getReportDesc(o["via"]).fmt_if).report(L.db, s, [])
            pre = "PREFIX\n" if o.get("prefix") else ""

            def post(v, e):
                txt = self.taken(w, s, o, tag)
                if e is not None:
                    return
                if not txt.startswith(pre):
                    raise Violation("stream-overwritten", "what the caller had written before is gone: %r" % txt[:60])
                txt = txt[len(pre):]
                if k == "streamw":
                    try:
                        db = xf.read(io.BytesIO(txt.encode("utf-8")))
                    except Exception as x:
                        raise Violation("stream-document-incomplete", "acknowledged save to %s does not load: %s" % (
                            o["sink"], x))
                    model.check_db(m, db, model.saved(L.model), "stream-document-differs")
                    model.check_hist(m, db, tuple(L.hist), "stream-document-differs")
                else:
                    want = model.report_of(L.model)
                    if o["via"] == "json":
                        K.judge_json(want, txt, "stream-report-differs")
                    else:
                        model.check_text(want, txt, "stream-report-differs", 0.51 if o["via"] == "txt" else 0.0051,
                                         0.0051)
                ctx.hit("stream-complete")
        elif k == "cli":
            argv = [o["cmd"]]
            if o.get("if"):
                argv += ["-if", o["if"]]
            if o.get("of"):
                argv += ["-of", o["of"]]
            if o["out"]:
                argv += ["-o", o["out"]]
            argv += o["ins"]

            def go():
                rc, so, se = w.cli(argv)
                if rc != 0:
                    raise RuntimeError("exit %d: %s" % (rc, se[-200:]))
        else:
            go = lambda: K.do(o["o"], tag)
        before = list(w.open_handles())
        fds = len(os.listdir("/proc/self/fd"))
        w.stdout_closed = False
        it = None
        w.arm(o.get("faults"))
        try:
            if o.get("int"):
                it = Interrupt(w, o["int"]["n"], o["int"]["exc"], only=["mem/"])
                with it:
                    v, e = attempt(go)
            else:
                v, e = attempt(go)
        finally:
            fired = w.disarm()
        what = "%s %s" % (k, {x: o[x] for x in ("file", "via", "src", "sink", "cmd", "ins", "o") if x in o})
        left = list(w.open_handles())
        for h in before:
            if h in left:
                left.remove(h)
        if left:
            raise Violation("file-left-open", "%s %s: %s still open" % (
                what, "raised %s" % exc_name(e) if e is not None else "returned",
                sorted(os.path.basename(p) for p, _ in left)))
        now = len(os.listdir("/proc/self/fd"))
        if now > fds:
            raise Violation("descriptor-left-open", "%s: %d descriptors before, %d after" % (what, fds, now))
        for s in mine:
            if s.closed or getattr(s, "closes", 0):
                raise Violation("caller-stream-closed", "%s %s" % (
                    what, "raised %s" % exc_name(e) if e is not None else "returned"))
            for attr in ("buffer", "fileobj", "raw"):
                try:
                    b = getattr(s, attr, None)
                except ValueError as x:
                    raise Violation("caller-stream-detached", "%s: %s" % (what, x))
                if b is not None and getattr(b, "closed", False):
                    raise Violation("caller-stream-closed", "%s: its underlying %s" % (what, attr))
        if w.stdout_closed:
            raise Violation("caller-stream-closed", "%s closed standard output" % what)
        ctx.ev(k, o.get("via"), exc_name(e) if e is not None else "ok", fired, it.fired if it else None)
        if post is not None:
            post(v, e)
        for s in mine:
            for x in (s, getattr(s, "fileobj", None)):
                try:
                    if x is not None:
                        x.close()
                except (OSError, ValueError):
                    pass
        if e is not None:
            ctx.hit("failed-" + k)
            return 1
        ctx.hit("ok-" + k)
        return 0


PROP = C14()

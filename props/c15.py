"""C15: loading depends on the document, not on how its bytes arrive."""
import contextlib
import copy
import gzip
import io
import json

from sim import gen, model, xmldoc, yamldoc
from sim.world import Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, hard, read_faults

XVIA = ["path", "path", "rgy", "rel", "gz", "gz2", "gzrgy", "bytesio", "rb", "rb", "raw", "chunks", "chunks", "gzobj",
        "stringio", "text", "text", "loads", "loads", "tchunks", "reader", "reader", "same-reader", "same-reader"]
YVIA = ["rgy", "rgy", "loads", "loads", "text", "rb", "bytesio", "stringio", "chunks", "tchunks", "same-reader"]


class Chunks(io.RawIOBase):
    """A binary stream (socket-like buffer) that delivers whatever sizes it likes, and may break."""

    def __init__(self, data, sizes, brk=None):
        super().__init__()
        self.d, self.p, self.sizes, self.k, self.brk = data, 0, sizes, 0, brk
        self.broke = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, p, whence=0):
        self.p = p if whence == 0 else self.p + p if whence == 1 else len(self.d) + p
        return self.p

    def tell(self):
        return self.p

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                b = self.read(65536)
                if not b:
                    return b"".join(out)
                out.append(b)
        z = self.sizes[self.k % len(self.sizes)]
        self.k += 1
        if self.brk is not None and self.p >= self.brk and self.p < len(self.d):
            self.broke = True
            raise OSError(5, "Input/output error (simulated)")
        n = min(n, z)
        if self.brk is not None and self.p < self.brk:
            n = min(n, max(1, self.brk - self.p))
        b = self.d[self.p:self.p + n]
        self.p += len(b)
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)


class TChunks(io.TextIOBase):
    """The same for text."""

    def __init__(self, text, sizes, brk=None):
        super().__init__()
        self.b = Chunks(text, sizes, brk)

    @property
    def broke(self):
        return self.b.broke

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, p, whence=0):
        return self.b.seek(p, whence)

    def tell(self):
        return self.b.p

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                s = self.b.read(65536)
                if not s:
                    return "".join(out)
                out.append(s)
        return self.b.read(n)

    def readline(self, n=-1):
        s = ""
        while True:
            c = self.b.read(1)
            s += c
            if not c or c == "\n":
                return s


def sizes(r):
    x = r.random()
    if x < 0.3:
        return [r.choice([1, 2, 3, 7])]
    if x < 0.6:
        return [r.randrange(1, 60) for _ in range(r.randrange(1, 6))]
    return [r.choice([1, 13, 64, 511, 4096, 100000]) for _ in range(r.randrange(1, 4))]


def gen_xml(r):
    spice = r.choice([0.0, 0.25, 0.4])
    uni = gen.universe(r, r.choice([1, 1, 2]), spice)
    return {"t": "xml", "spec": gen.draw(r, uni, spice=spice), "st": xmldoc.style(r),
            "ext": r.choice([".xml", ".xml", "", ".XML", ".ucis", ".gz", ".yml", ".lz4", ".bak"]),
            "gzext": r.choice([".gz", ".gz", ".GZ", "", ".xml", ".ucis", ".z"])}


# documents at the edges of what the YAML schema allows, and the covergroups they state
def edge(r):
    return r.choice([
        ["coverage: {}\n", []], ["{}", []], ["coverage:\n  covergroups: []\n", []],
        ["# only a group\ncoverage:\n  covergroups:\n  - name: g\n    weight: 3\n", [["g", 3, []]]],
        ["coverage: {covergroups: [{name: g, instances: []}, {name: h, instances: []}]}",
         [["g", 1, []], ["h", 1, []]]],
        ["coverage: {covergroups: [{name: g, instances: [{name: i}, {name: j, coverpoints: []}]}]}",
         [["g", 1, ["i", "j"]]]],
    ])


def gen_yaml(r):
    if r.random() < 0.1:
        return {"t": "edge", "doc": edge(r)}
    return {"t": "yaml", "y": yamldoc.generate(r, r.choice([1, 1, 2]), r.choice([0.0, 0.25])),
            "ext": r.choice([".yml", ".yml", ".yaml", "", ".json", ".gz", ".xml"]),
            "style": r.choice(yamldoc.STYLES + ["alias", "hex", "marks"]), "bom": r.random() < 0.1,
            "enc": r.choice(["utf-8", "utf-8", "utf-8", "utf-16-le", "utf-16-be"])}


def groups_of(d):
    """The cover instances of each covergroup a document describes."""
    cgs = d["y"]["cgs"] if d["t"] == "yaml" else [g for i in d["spec"]["insts"] for g in i["cgs"]] if d["t"] == "xml" \
        else []
    return [g["insts"] for g in cgs if g.get("insts")]


def insts_of(d):
    return [ci for g in groups_of(d) for ci in g]


def dangling(r, docs):
    """A copy of one of the documents, one cross of which names a coverpoint its cover instance does not have; the name
    preferably exists somewhere else."""
    d = r.choice([x for x in docs if x["t"] == "yaml"] or docs) if r.random() < 0.5 else r.choice(docs)
    names = sorted({c["n"] for x in docs for ci in insts_of(x) for c in ci["cps"]}) + ["nowhere"]
    d = copy.deepcopy(d)
    crs = [(ci, c) for ci in insts_of(d) for c in ci["crs"]]
    if not crs:
        return None
    first = {id(x[0]) for x in groups_of(d)}
    late = [(ci, c) for ci, c in crs if id(ci) not in first]
    ci, c = r.choice(late if late and r.random() < 0.7 else crs)
    if r.random() < 0.2:
        ci["cps"] = []
        d["dangling"] = True
        return d
    if len(ci["cps"]) > 1 and r.random() < 0.7:
        # the coverpoint itself is what is missing; other instances of the covergroup have it
        gone = r.choice(c["on"])
        rest = [x for x in ci["cps"] if x["n"] != gone]
        if gone.strip() not in [x["n"].strip() for x in rest]:
            ci["cps"] = rest
            d["dangling"] = True
            return d
    own = {x["n"].strip() for x in ci["cps"]}
    names = [n for n in names if n.strip() not in own]
    c["on"] = list(c["on"])
    c["on"][r.randrange(len(c["on"]))] = r.choice(names)
    d["dangling"] = True
    return d


def load_op(r, docs):
    d = r.randrange(len(docs))
    x = docs[d]["t"] == "xml"
    o = {"doc": d, "via": r.choice(XVIA if x else YVIA), "sizes": sizes(r)}
    y = r.random()
    if y < 0.15:
        o["faults"] = read_faults(r, r.choice(["*", "data"]))
    elif y < 0.25:
        o["brk"] = round(r.random() * 0.98, 3)
    elif y < 0.3:
        o["bad"] = round(r.random() * 0.9, 3)       # a different, truncated document is tried first
    return o


class C15:
    runs = {"quick": 2500, "thorough": 150000}
    rule = ("one evaluation renders 2-3 XML and YAML documents from independent descriptions in varied surface forms "
            "(encodings, declarations, prefixes, attribute order, comments, optional parts, aliases, number "
            "spellings), and loads each several times in one process through paths, compressed files, binary and text "
            "streams and strings, in drawn chunk sizes, with injected short reads, read errors and streams that break "
            "part-way; every load that succeeds must give exactly the described data, every broken delivery must fail, "
            "an intact one must succeed (unless a cross in it names a coverpoint its cover "
            "instance does not have: then it must be refused), and earlier results must stay as they were. non-trivial = one document was "
            "delivered in at least two ways")
    measure = "distinct event-log digests (document, delivery, outcome) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST + "; caller streams are simulated sockets with drawn chunk sizes"
    assumptions = ASSUME + ["one range or sequence per bin; instances named uniquely"]

    def gen(self, r, tier, idx):
        docs = [gen_xml(r), gen_yaml(r)]
        if r.random() < 0.6:
            docs.append(gen_xml(r) if r.random() < 0.6 else gen_yaml(r))
        if r.random() < 0.3:
            x = dangling(r, docs)
            if x is not None:
                docs.append(x)
        return {"env": dict(gen.env_plain(r), tz=r.choice(gen.TZS)), "docs": docs,
                "ops": [load_op(r, docs) for _ in range(r.randrange(4, 12))]}

    def prepare_docs(self, plan, w):
        out = []
        for i, d in enumerate(plan["docs"]):
            if d["t"] == "xml":
                txt, data = xmldoc.render(d["spec"], d["st"])
                want = None if d.get("dangling") else (
                    model.saved(model.model_of(d["spec"])), tuple(model.hist_of(d["spec"])))
                n = "d%d%s" % (i, d["ext"])
                w.put("z%d%s" % (i, d["gzext"]), gzip.compress(data, 6, mtime=0))
                h = len(data) // 2
                w.put("y%d%s" % (i, d["gzext"]), gzip.compress(data[:h], 1, mtime=0) + gzip.compress(data[h:], 9, mtime=0))
            else:
                n = "d%d%s" % (i, d.get("ext", ".yml"))
                if d["t"] == "edge":
                    txt = d["doc"][0]
                    want = ({"insts": {"cg_inst": {"du": "du", "cgs": {
                        g: {"w": gw, "cps": {}, "crs": {}, "insts": {
                            x: {"w": gw, "cps": {}, "crs": {}, "insts": {}} for x in ci}}
                        for g, gw, ci in d["doc"][1]}}}}, None)
                    data = txt.encode()
                else:
                    txt = render_yaml(d["y"], d["style"])
                    want = None if d.get("dangling") else (yamldoc.as_model(d["y"]), None)
                    if d["bom"]:
                        txt = "\ufeff" + txt
                    data = txt.encode("utf-8")
            w.put(n, data)
            out.append((n, txt, data, want))
        return out

    def run(self, plan, ctx):
        with contextlib.redirect_stderr(io.StringIO()):
            self.run1(plan, ctx)

    def run1(self, plan, ctx):
        w, m = ctx.w, ctx.m
        docs = self.prepare_docs(plan, w)
        self.xr = m.xml_reader.XmlReader()
        self.yr = m.yaml_reader.YamlReader()
        kept, ways = [], {}
        for o in plan["ops"]:
            n, txt, data, want = docs[o["doc"]]
            d = plan["docs"][o["doc"]]
            xml = d["t"] == "xml"
            if o.get("bad") is not None:
                k = int(len(txt) * o["bad"])
                bad = txt[:k] if xml else txt[:k] + "\n]: ["
                rd = (m.xml_factory.XmlFactory.read if xml else self.yr.load)
                v, e = attempt(lambda: rd(io.StringIO(bad)))
                if e is None:
                    raise Violation("damaged-document-loaded", "%s cut to %d characters loads" % (n, k))
            brk = None if o.get("brk") is None else int(len(data if "chunks" == o["via"] else txt) * o["brk"])
            w.arm(o.get("faults"))
            try:
                v, e, src = self.load(ctx, o, n, txt, data, xml, d, brk)
            finally:
                fired = w.disarm()
            ctx.ev(o["doc"], o["via"], exc_name(e) if e is not None else "ok", fired)
            broken = bool(hard(fired)) or bool(src is not None and getattr(src, "broke", False))
            what = "%s via %s" % (n, o["via"])
            if want is None:
                if e is None:
                    raise Violation("dangling-cross-loaded", "%s: a cross of it names a coverpoint that its cover "
                                    "instance does not have" % what)
                ctx.hit("dangling-refused")
            elif e is None:
                if broken:
                    raise Violation("broken-delivery-loaded", "%s: load succeeded although its stream failed (%s)" % (
                        what, fired))
                self.judge(m, v, want, what)
                kept.append((v, want, what))
                ways.setdefault(o["doc"], set()).add(o["via"])
                ctx.hit("loaded-" + ("xml-" if xml else "yaml-") + o["via"])
            elif not broken:
                raise Violation("intact-document-refused", "%s: %s: %s" % (what, exc_name(e), str(e)[:300]))
            else:
                ctx.hit("failed-delivery")
        for v, want, what in kept:
            self.judge(m, v, want, "later look at " + what)
        ctx.ev([model.dump_db(m, v) for v, _, _ in kept[:2]])
        ctx.nontrivial = any(len(s) > 1 for s in ways.values())

    def judge(self, m, v, want, what):
        try:
            model.check_db(m, v, want[0], "loaded-data-differs")
            if want[1] is not None:
                model.check_hist(m, v, want[1], "loaded-history-differs")
        except Violation as x:
            raise Violation(x.kind, "%s: %s" % (what, x.detail))

    def load(self, ctx, o, n, txt, data, xml, d, brk):
        w, m = ctx.w, ctx.m
        via = o["via"]
        src, close = None, []
        gz1, gz2 = ("%s%d%s" % (k, o["doc"], d.get("gzext", "")) for k in "zy")
        xf = m.xml_factory.XmlFactory

        def stream(mode, name=n, **kw):
            f = w.sim_open(w.path(name), mode, **kw)
            close.append(f)
            return f

        def go():
            nonlocal src
            fmt = ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("xml" if xml else "yaml").fmt_if)
            if via == "rgy":
                return fmt.read(w.path(n))
            if via == "path":
                return xf.read(w.path(n))
            if via == "rel":
                return xf.read(w.rel(n))
            if via == "gz":
                return xf.read(w.path(gz1))
            if via == "gz2":
                return xf.read(w.path(gz2))
            if via == "gzrgy":
                return fmt.read(w.path(gz1))
            if via == "loads":
                return ctx.tool(m.xml_reader.XmlReader).loads(txt) if xml else ctx.tool(m.yaml_reader.YamlReader).loads(txt)
            if via == "same-reader":
                if xml:
                    return self.xr.read(io.BytesIO(data)) if len(o["sizes"]) % 2 else self.xr.loads(txt)
                return self.yr.loads(txt)
            if via == "bytesio":
                src = io.BytesIO(data if xml else self.ybytes(txt, d))
            elif via == "stringio":
                src = io.StringIO(txt)
            elif via == "rb" or via == "reader":
                src = stream("rb")
            elif via == "raw":
                src = stream("rb", buffering=0)
            elif via == "text":
                src = stream("r", encoding=d["st"]["enc"] if xml else "utf-8")
            elif via == "gzobj":
                src = gzip.GzipFile(fileobj=stream("rb", gz1))
            elif via == "chunks":
                src = Chunks(data if xml else self.ybytes(txt, d), o["sizes"], brk)
            elif via == "tchunks":
                src = TChunks(txt, o["sizes"], brk)
            if not xml:
                return ctx.tool(m.yaml_reader.YamlReader).load(src)
            if via == "reader":
                return ctx.tool(m.xml_reader.XmlReader).read(src)
            return xf.read(src)
        try:
            v, e = attempt(go)
        finally:
            for f in close:
                try:
                    f.close()
                except OSError:
                    pass
        return v, e, src

    def ybytes(self, txt, d):
        enc = d.get("enc", "utf-8")
        if enc != "utf-8" and not txt.startswith("\ufeff"):
            txt = "\ufeff" + txt
        return txt.encode(enc)


def render_yaml(y, style):
    import yaml
    if style == "alias":
        t = yamldoc.tree(y)
        seen = {}

        def share(x):
            if isinstance(x, dict):
                x = {k: share(v) for k, v in x.items()}
            elif isinstance(x, list):
                x = [share(v) for v in x]
            else:
                return x
            return seen.setdefault(json.dumps(x), x)
        return yaml.safe_dump(share(t), default_flow_style=None, allow_unicode=True, sort_keys=False)
    if style == "hex":
        class D(yaml.SafeDumper):
            pass
        D.add_representer(int, lambda s, v: s.represent_scalar("tag:yaml.org,2002:int", hex(v)))
        return yaml.dump(yamldoc.tree(y), Dumper=D, default_flow_style=False, allow_unicode=True)
    if style == "marks":
        return "%YAML 1.1\n---\n# coverage\n" + yamldoc.render(y, "block") + "...\n"
    return yamldoc.render(y, style)


PROP = C15()

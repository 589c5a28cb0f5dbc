"""C16: documents outside the schema are rejected, whatever happened before or happens meanwhile."""
import contextlib
import gzip
import io
import json

from sim import gen, model, spoil, xmldoc, yamldoc
from sim.world import Violation
from .common import ASSUME, REAL_ALL, STUB_HOST, attempt, exc_name, hard
from .c15 import Chunks, sizes

XVIA = ["path", "path", "path", "rgy", "gz", "gz", "bytesio", "rb", "text", "stringio", "chunks", "merge", "convert",
        "report", "db_merge"]
YVIA = ["rgy", "rgy", "loads", "rb", "stringio", "same-reader", "same-reader", "merge", "convert", "report"]


def load_op(r, docs):
    d = r.randrange(len(docs))
    x = docs[d]["t"] == "xml"
    o = {"doc": d, "via": r.choice(XVIA if x else YVIA), "sizes": sizes(r), "bad": r.random() < 0.65,
         "edits": r.choice([1, 1, 1, 2, 3]), "slot": r.randrange(4),
         "seed": r.getrandbits(32), "style": r.choice(["json", "json", "block", "flow"])}
    y = r.random()
    if y < 0.2:
        o["faults"] = [{"op": r.choice(["read", "read", "read", "openr", "close"]), "role": "schema",
                        "nth": r.choice([1, 1, 2, 3]), "act": r.choice(["EIO", "ENOENT", "ENOMEM", "EMFILE", "eof", "eof",
                                                                        "short", "KeyboardInterrupt"]),
                        "times": r.choice([1, 1, 3, 50]), "len": 7, "at": r.choice([0, 10, 2000])}]
        f = o["faults"][0]
        if f["op"] != "read" and f["act"] in ("eof", "short"):
            f["act"] = "EIO"
    elif y < 0.3:
        o["faults"] = [{"op": "read", "role": "data", "nth": r.randrange(1, 5), "times": r.choice([1, 20]),
                        "act": r.choice(["EIO", "short", "short", "EINTR"]), "len": r.choice([1, 17])}]
    return o


class C16:
    runs = {"quick": 2500, "thorough": 120000}
    rule = ("one evaluation takes 2-3 conforming XML and YAML documents and performs 5-14 loads in one process (library, "
            "format registry, plain and compressed files, streams, merge/convert/report commands), about two thirds of "
            "them of a version of the document edited at a drawn place so that a separate validator, working from its own "
            "copy of the published schema, finds it does not conform; schema and document files meet injected open, read, "
            "short-read, early-end-of-file and interrupt faults. A non-conforming document must never load nor let a "
            "command succeed or write output, whatever failed or succeeded before; a conforming one must still load "
            "exactly. non-trivial = a non-conforming document was rejected after a conforming one had loaded or after a "
            "fault")
    measure = "distinct event-log digests (documents, edits, deliveries, faults, outcomes) of non-trivial runs"
    real = REAL_ALL
    stub = STUB_HOST
    assumptions = ASSUME + ["the low-level XmlReader does not validate; the factory, the format interface and the commands "
                            "do", "namespaces of elements do not matter"]

    def gen(self, r, tier, idx):
        docs = []
        for _ in range(r.choice([2, 2, 3])):
            spice = r.choice([0.0, 0.25])
            if r.random() < 0.6 or not docs:
                docs.append({"t": "xml", "spec": gen.draw(r, gen.universe(r, r.choice([1, 1, 2]), spice), spice=spice),
                             "st": xmldoc.style(r)})
            else:
                docs.append({"t": "yaml", "y": yamldoc.generate(r, 1, spice)})
        return {"env": gen.env_plain(r), "docs": docs, "ops": [load_op(r, docs) for _ in range(r.randrange(5, 15))]}

    def run(self, plan, ctx):
        with contextlib.redirect_stderr(io.StringIO()):
            self.run1(plan, ctx)

    def run1(self, plan, ctx):
        w, m = ctx.w, ctx.m
        w.put("good.xml", xmldoc.render({"insts": [{"n": "top", "du": "d", "cgs": [
            {"n": "g", "w": 1, "mode": "type", "cps": [{"n": "c", "w": 1, "al": 1, "bins": [["b", "bin", 1]]}],
             "crs": []}]}], "hist": [{"logical": "h", "date": "20200101000000"}]}, dict(PLAIN))[1])
        self.yr = m.yaml_reader.YamlReader()
        seen = keen = False
        for k, o in enumerate(plan["ops"]):
            d = plan["docs"][o["doc"]]
            xml = d["t"] == "xml"
            what = ""
            if xml:
                txt, data = xmldoc.render(d["spec"], d["st"])
                if o["bad"]:
                    s = self.spoil(spoil.xml, data, o)
                    if s is None:
                        continue
                    data, what = s
            else:
                t = yamldoc.tree(d["y"])
                if o["bad"]:
                    s = self.spoil(spoil.tree, t, o)
                    if s is None:
                        continue
                    t, what = s
                data = render(t, o["style"]).encode("utf-8")
            n = "d%d.%s" % (o["slot"], "xml" if xml else "yml")
            w.put(n, gzip.compress(data, 6, mtime=0) if o["via"] == "gz" else data)
            w.arm(o.get("faults"))
            try:
                v, e = self.load(ctx, o, n, data, xml, d)
            finally:
                fired = w.disarm()
            what = "%s via %s%s" % (n, o["via"], " (%s)" % what if what else "")
            ctx.ev(o["doc"], o["via"], o["bad"], exc_name(e) if e is not None else "ok", fired)
            if o["bad"]:
                if e is None:
                    raise Violation("nonconforming-document-accepted", "%s, faults %r: %s" % (
                        what, fired, repr(data[:1500])))
                ctx.hit("rejected-%s-%s" % (d["t"], o["via"]))
                keen |= seen
            elif e is None:
                if v is not None:
                    model.check_db(m, v, model.saved(model.model_of(d["spec"])) if xml else yamldoc.as_model(d["y"]),
                                   "conforming-document-differs")
                seen = True
                ctx.hit("loaded-%s-%s" % (d["t"], o["via"]))
            elif not xml and o["via"] in ("merge", "convert"):
                pass                     # not everything YAML can say can be said in XML
            elif not hard(fired):
                raise Violation("conforming-document-refused", "%s: %s: %s" % (what, exc_name(e), str(e)[:300]))
            seen |= bool(fired)
        ctx.nontrivial = keen

    def spoil(self, edit, d, o):
        """One or several edits; every intermediate result is outside the schema as well."""
        whats = []
        for k in range(o["edits"]):
            s = edit(d, o["seed"] + k)
            if s is None:
                break
            d = s[0]
            whats.append(s[1])
        return (d, ", ".join(whats)) if whats else None

    def load(self, ctx, o, n, data, xml, d):
        w, m = ctx.w, ctx.m
        via = o["via"]
        xf = m.xml_factory.XmlFactory
        p = w.path(n)
        if via in ("merge", "convert", "report"):
            out = w.path("out.%d" % len(w.listing()))
            fmt = ["-if", "xml" if xml else "yaml"]
            if via == "merge":
                first = [w.path("good.xml")] if xml and o["seed"] % 2 else []
                last = [w.path("good.xml")] if xml and o["seed"] % 3 == 0 else []
                argv = ["merge", "-o", out] + fmt + first + [p] + last
            elif via == "convert":
                argv = ["convert", "-o", out] + fmt + [p]
            else:
                argv = ["report", "-o", out] + fmt + [p]
            was = set(w.listing())
            rc, so, se = w.cli(argv)
            if rc == 0:
                return None, None
            if set(w.listing()) - was:
                raise Violation("output-of-rejected-document", "%s wrote %s" % (argv, sorted(set(w.listing()) - was)))
            return None, OSError("exit status %r: %s" % (rc, se[-200:]))
        if via == "db_merge":
            def go():
                db = m.mem_factory.MemFactory.create()
                ctx.tool(m.merge.DbMerger).merge(db, [xf.read(w.path("good.xml")), xf.read(p)])
            return attempt(go)
        close = []

        def go():
            if via == "rgy":
                return ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("xml" if xml else "yaml").fmt_if).read(p)
            if via in ("path", "gz"):
                return xf.read(p)
            if via == "loads":
                return ctx.tool(m.yaml_reader.YamlReader).loads(data.decode("utf-8"))
            if via == "same-reader":
                return self.yr.loads(data.decode("utf-8"))
            if via == "rb":
                src = w.sim_open(p, "rb")
                close.append(src)
            elif via == "text":
                src = w.sim_open(p, "r", encoding=enc_of(data))
                close.append(src)
            elif via == "stringio":
                src = io.StringIO(data.decode(enc_of(data)))
            elif via == "chunks":
                src = Chunks(data, o["sizes"])
            else:
                src = io.BytesIO(data)
            return xf.read(src) if xml else ctx.tool(m.yaml_reader.YamlReader).load(src)
        try:
            return attempt(go)
        finally:
            for f in close:
                try:
                    f.close()
                except OSError:
                    pass


PLAIN = {"s": 1, "enc": "utf-8", "decl": False, "prefix": "", "default_ns": False, "indent": "", "comments": False,
         "extras": False, "shuffle": False, "quote": "\"", "join": False, "nums": False, "files": 1, "x": 0.7}


def enc_of(data):
    """The encoding a text stream over this document would be opened with."""
    if data[:2] in (b"\xff\xfe", b"\xfe\xff"):
        return "utf-16"
    if data[:3] == b"\xef\xbb\xbf":
        return "utf-8-sig"
    h = data[:120].lower()
    return "iso-8859-1" if b"8859-1" in h else "utf-8"


def render(t, style):
    import yaml
    if style == "json":
        return json.dumps(t, indent=1)
    return yaml.safe_dump(t, default_flow_style=style == "flow", allow_unicode=True, sort_keys=False)


PROP = C16()

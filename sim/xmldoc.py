"""UCIS XML documents as other tools write them: an independent renderer with many surface styles."""
from decimal import Decimal
from xml.sax.saxutils import escape

NS = "http://www.w3.org/2001/XMLSchema-instance"


def style(r):
    """Surface decisions of one document; a further stream of draws comes from style["s"]."""
    x = r.random()
    enc = r.choice(["utf-8", "utf-8", "utf-8", "utf-16", "iso-8859-1", "us-ascii", "utf-8-sig"])
    return {"s": r.randrange(2**32), "enc": enc, "decl": enc not in ("utf-8", "utf-8-sig") or r.random() < 0.6,
            "prefix": r.choice(["", "", "ucis:", "u:"]), "default_ns": r.random() < 0.15,
            "indent": r.choice(["", "\n", "\n  ", "\r\n\t"]), "comments": r.random() < 0.3,
            "extras": r.random() < 0.4, "shuffle": r.random() < 0.5, "quote": r.choice(["\"", "'"]),
            "join": r.random() < 0.3, "nums": r.random() < 0.3, "files": r.choice([1, 1, 3]), "x": x}


def dbl(v):
    """xsd:double"""
    return "INF" if v == float("inf") else v


def dec(v):
    """xsd:decimal"""
    return v if v is None else format(Decimal(str(v)), "f")


class Raw:
    """Markup, inserted as it is."""

    def __init__(self, s):
        self.s = s


class Doc:
    def __init__(self, spec, st):
        import random
        self.r = random.Random(st["s"])
        self.st = st
        self.out = []
        self.spec = spec
        # white space around a reference is formatting only as long as no name has any
        self.plain = not any(c["n"] != c["n"].strip() or not c["n"] for i in spec["insts"] for g in i["cgs"]
                             for h in [g] + g.get("insts", []) for c in h.get("cps", []))

    # ------------------------------------------------------------ surface
    def nl(self):
        if self.st["indent"]:
            self.out.append(self.st["indent"])
        if self.st["comments"] and self.r.random() < 0.1:
            self.out.append(self.r.choice(["<!-- <coverpoint name='fake'/> -->", "<?pi x?>", "<!---->"]))

    def attr(self, v):
        q = self.st["quote"]
        v = escape(str(v), {"\t": "&#9;", "\n": "&#10;", "\r": "&#xD;", q: "&#%d;" % ord(q)})
        if self.r.random() < 0.05:
            v = "".join("&#x%x;" % ord(c) if c.isalnum() and self.r.random() < 0.5 else c for c in v) \
                if "&" not in v else v
        return q + v + q

    def num(self, n):
        if self.st["nums"] and self.r.random() < 0.4:
            return self.r.choice(["+%d", "0%d", "00%d", " %d ", "%d "]) % n
        return str(n)

    def pad(self, v):
        """White space around a boolean is not part of it."""
        return v if not self.st["nums"] or self.r.random() < 0.7 else self.r.choice([" %s", "%s ", " %s\n"]) % v

    def date(self, d):
        if self.st["nums"] and self.r.random() < 0.3:
            d += self.r.choice(["", ".0", ".25", ".999999999"]) + self.r.choice(["", "Z", "+05:30", "-14:00", "+00:00"])
        return d

    def tag(self, name, attrs, body=None):
        at = [(k, v) for k, v in attrs if v is not None]
        if self.st["shuffle"]:
            self.r.shuffle(at)
        self.nl()
        p = self.st["prefix"]
        self.out.append("<%s%s%s" % (p, name, "".join(" %s=%s" % (k, self.attr(v)) for k, v in at)))
        if body is None:
            self.out.append(self.r.choice(["/>", " />", "></%s%s>" % (p, name)]))
            return
        self.out.append(">")
        if isinstance(body, Raw):
            self.out.append(body.s)
        elif isinstance(body, str):
            self.out.append(escape(body))
        else:
            body()
            self.nl()
        self.out.append("</%s%s>" % (p, name))

    # ------------------------------------------------------------ structure
    def render(self):
        st = self.st
        head = [("ucisVersion", self.r.choice(["1.0", "1.0", "1.1", "2.0", "", "UCIS 1.0 (beta)"])),
                ("writtenBy", self.r.choice(["some tool", "", "\u00e9<&>", "sim", "root", "PyUCIS", "unknown"])),
                ("writtenTime", self.r.choice(["2020-02-03T04:05:06", "1999-12-31T23:59:59", "2020-02-29T00:00:00Z",
                                               "2038-01-19T03:14:08.250+05:30"]))]
        if st["prefix"]:
            head.append(("xmlns:" + st["prefix"][:-1], NS))
        elif st["default_ns"]:
            head.append(("xmlns", "UCIS"))
        self.tag("UCIS", head, self.top)
        txt = "".join(self.out).lstrip()
        if st["decl"]:
            e = "utf-8" if st["enc"] == "utf-8-sig" else st["enc"]
            txt = "<?xml version=%s1.0%s encoding=%s%s%s?>\n" % (
                st["quote"], st["quote"], st["quote"], e.upper() if st["x"] < 0.5 else e, st["quote"]) + txt
        if st["comments"]:
            txt += "\n<!-- end -->\n"
        enc = st["enc"]
        return txt, txt.encode(enc, "xmlcharrefreplace")

    def top(self):
        self.ids = self.r.sample(range(1, 100), self.st["files"])
        for i in self.ids:
            self.tag("sourceFiles", [("fileName", "f%d.sv" % i), ("id", i)])
        for i, h in enumerate(self.spec["hist"]):
            self.hist(i, h)
        for i in self.spec["insts"]:
            self.inst(i)

    def hist(self, i, h):
        d = h["date"]
        ok = h.get("status", "OK") == "OK"
        k = h.get("kind")
        self.tag("historyNodes", [
            ("historyNodeId", i), ("logicalName", h["logical"]), ("physicalName", h.get("physical")),
            ("kind", {"TEST": "1", "MERGE": "2", "NONE": "-1"}.get(k, k)),
            ("testStatus", self.pad(self.r.choice(["true", "1"] if ok else ["false", "0"]))),
            ("simtime", dbl(h.get("simtime"))), ("timeunit", h.get("timeunit")), ("runCwd", h.get("runcwd")),
            ("cpuTime", dbl(h.get("cputime"))), ("seed", h.get("seed")), ("cmd", h.get("cmd")), ("args", h.get("args")),
            ("compulsory", h.get("compulsory")),
            ("date", self.date("%s-%s-%sT%s:%s:%s" % (d[:4], d[4:6], d[6:8], d[8:10], d[10:12], d[12:14]))),
            ("userName", h.get("user")), ("cost", dec(h.get("cost"))), ("toolCategory", h.get("toolcat", "unknown")),
            ("ucisVersion", "1.0"), ("vendorId", h.get("vendor", "unknown")), ("vendorTool", h.get("tool", "unknown")),
            ("vendorToolVersion", h.get("toolver", "unknown")), ("sameTests", h.get("same")),
            ("comment", h.get("comment"))], self.user if self.extra() else None)

    def extra(self):
        return self.st["extras"] and self.r.random() < 0.3

    def user(self):
        self.tag("userAttr", [("key", "k"), ("type", "str")], "coverageCount=7 & more")

    def ident(self, name="id"):
        self.tag(name, [("file", self.r.choice(self.ids)), ("line", self.r.randrange(1, 999)), ("inlineCount", 1)])

    def inst(self, i):
        def body():
            if self.extra():
                self.tag("designParameter", [], lambda: (self.tag("name", [], "P"), self.tag("value", [], "3")))
            self.ident()
            if self.extra():
                self.tag("toggleCoverage", [], lambda: self.tag("toggleObject", [("name", "t"), ("key", "0")], toggle))
            groups = list(i["cgs"])
            while groups:
                g = groups.pop(0)
                part = [g]
                # several covergroup types of one weight may share an element
                while self.st["join"] and groups and groups[0]["w"] == g["w"]:
                    part.append(groups.pop(0))
                self.tag("covergroupCoverage", [("weight", self.num(g["w"]) if g["w"] != 1 or self.r.random() < .3
                                                 else None)], lambda: [self.group(x) for x in part])
            if self.extra():
                self.user()

        def toggle():
            self.ident()
            self.tag("toggleBit", [("name", "t"), ("key", "0")],
                     lambda: self.tag("toggle", [("from", "0"), ("to", "1")],
                                      lambda: self.tag("bin", [], lambda: self.contents(77))))
        self.tag("instanceCoverages", [("name", i["n"]), ("key", "k%d" % self.r.randrange(9)),
                                       ("moduleName", i["du"])], body)

    def group(self, g):
        if g["mode"] == "type":
            self.cginst(g["n"], g["n"], g)
        else:
            for ci in g["insts"]:
                self.cginst(g["n"], ci["n"], ci)

    def options(self, w, al=1, lead=()):
        a = list(lead)
        if w != 1 or self.r.random() < 0.3:
            a.append(("weight", self.num(w)))
        if al != 1 or self.r.random() < 0.3:
            a.append(("at_least", self.num(al)))
        if self.extra():
            a += [("goal", "90"), ("comment", "a < b")]
        self.tag("options", a)

    def cginst(self, type_name, name, g):
        def body():
            self.options(g["w"])
            self.tag("cgId", [("cgName", type_name), ("moduleName", "m")],
                     lambda: (self.ident("cginstSourceId"), self.ident("cgSourceId")))
            if self.extra():
                self.tag("cgParms", [], lambda: (self.tag("name", [], "W"), self.tag("value", [], "8")))
            for x in g["cps"]:
                self.cp(x)
            for x in g["crs"]:
                self.cross(x)
            if self.extra():
                self.user()
        self.tag("cgInstance", [("name", name), ("key", "0")], body)

    def contents(self, c):
        self.tag("contents", [("coverageCount", self.num(c)),
                              ("nameComponent", "nc" if self.extra() else None)],
                 (lambda: self.tag("historyNodeId", [], "0")) if self.extra() else None)

    def cp(self, x):
        def body():
            self.options(x["w"], x["al"])
            for n, k, c in x["bins"]:
                t = {"bin": self.r.choice(["bins", "default"]), "ign": "ignore", "ill": "illegal"}[k]

                def bin_body(c=c):
                    if self.r.random() < 0.7:
                        self.tag("range", [("from", "-3"), ("to", "12")], lambda: self.contents(c))
                    else:
                        self.tag("sequence", [], lambda: (self.contents(c), self.tag("seqValue", [], "-4")))
                    if self.extra():
                        self.user()
                self.tag("coverpointBin", [("name", n), ("key", "0"), ("type", t),
                                           ("alias", "al" if self.extra() else None)], bin_body)
            if self.extra():
                self.user()
        self.tag("coverpoint", [("name", x["n"]), ("key", "0"), ("exprString", "a+b" if self.extra() else None)], body)

    def broken(self, v):
        """Text in any of the ways XML can spell it."""
        if not self.st["comments"] or not v or self.r.random() < 0.6:
            return escape(v)
        c = self.r.randrange(len(v) + 1)
        k = self.r.randrange(3)
        if k == 0:
            return escape(v[:c]) + self.r.choice(["<!-- x -->", "<?pi y?>", "<!---->"]) + escape(v[c:])
        if k == 1 and "]]>" not in v and v.isascii():
            return escape(v[:c]) + "<![CDATA[" + v[c:] + "]]>"
        return escape(v[:c]) + "".join("&#%d;" % ord(h) for h in v[c:c + 2]) + escape(v[c + 2:])

    def cross(self, x):
        def body():
            self.options(x["w"], x["al"])
            for n in x["on"]:
                pad = self.r.choice(["", "", " ", "\n  "]) if self.plain else ""
                self.tag("crossExpr", [], Raw(self.broken(pad + n + pad)))
            for n, k, c in x["bins"]:
                t = {"bin": self.r.choice(["default", None]), "ign": "ignore", "ill": "illegal"}[k]
                self.tag("crossBin", [("name", n), ("key", "0"), ("type", t)], lambda c=c: (
                    [self.tag("index", [], str(v)) for v in range(self.r.choice([1, 2]))], self.contents(c)))
        self.tag("cross", [("name", x["n"]), ("key", "0")], body)


def render(spec, st):
    """-> (text, bytes)"""
    return Doc(spec, st).render()

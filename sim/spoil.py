"""Documents that do not conform to the published schemas: random edits of conforming ones, judged by
validators of this harness working from its own copies of the schemas."""
import copy
import json
import os
import random

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema")
_xsd = _js = None

VALUES = ["", " ", "x", "-1", "1.5", "1e3", "0x10", "true", "NaN", "2020-13-45T00:00:00", "2020-01-01", "bins ", "Bins",
          "normal", "99999999999999999999999", "- 1", "1 2", "\u0661", "-0.0"]
NAMES = ["bogus", "Name", "coverpoints", "bin", "contents", "options", "name", "coverpointBin", "crossBin", "userAttr",
         "historyNodes", "id", "seqValue", "covergroupCoverage"]


def xsd():
    global _xsd
    if _xsd is None:
        from lxml import etree
        _xsd = etree.XMLSchema(etree.parse(os.path.join(HERE, "ucis.xsd")))
    return _xsd


def js():
    global _js
    if _js is None:
        import jsonschema
        with open(os.path.join(HERE, "coverage.json")) as f:
            _js = jsonschema.Draft4Validator(json.load(f))
    return _js


def local(tag):
    return tag.split("}")[-1]


def xml_invalid(data):
    """Is this well-formed document outside the schema (namespaces of elements do not matter)?"""
    from lxml import etree
    t = etree.fromstring(data).getroottree()
    for e in t.getroot().iter():
        if isinstance(e.tag, str):
            e.tag = local(e.tag)
    return not xsd().validate(t)


def xml(data, seed):
    """-> (bytes, what was done) of a well-formed document the schema does not allow, or None."""
    from lxml import etree
    r = random.Random(seed)
    for _ in range(20):
        root = etree.fromstring(data)
        els = [e for e in root.iter() if isinstance(e.tag, str)]
        # late and deep places as often as the beginning
        e = r.choice(els[-max(1, len(els) // 4):]) if r.random() < 0.4 else r.choice(els)
        k = r.choice(["del", "del", "delattr", "delattr", "attr", "value", "value", "value", "rename", "renattr", "dup",
                      "swap", "text", "child", "ns-attr", "root"])
        ns = e.tag[:e.tag.index("}") + 1] if e.tag.startswith("{") else ""
        par = e.getparent()
        at = sorted(e.attrib)
        if k == "del" and par is not None:
            par.remove(e)
        elif k == "delattr" and at:
            del e.attrib[r.choice(at)]
        elif k == "attr":
            e.set(r.choice(NAMES), r.choice(VALUES))
        elif k == "value" and at:
            a = r.choice(at)
            e.set(a, r.choice(VALUES))
            k += " " + a
        elif k == "rename":
            e.tag = ns + r.choice(NAMES + [local(e.tag).lower(), local(e.tag) + "s"])
        elif k == "renattr" and at:
            a = r.choice(at)
            v = e.attrib.pop(a)
            e.set(r.choice([a.lower(), a.upper(), a + "_", "x"]), v)
        elif k == "dup" and par is not None:
            par.insert(par.index(e), copy.deepcopy(e))
        elif k == "swap" and len(e) > 1:
            a = r.randrange(len(e) - 1)
            e.insert(a, e[a + 1])
        elif k == "text":
            e.text = r.choice(["stray", "0", "x"])
        elif k == "child":
            c = etree.SubElement(e, ns + r.choice(NAMES))
            if r.random() < 0.5:
                c.set("name", "x")
        elif k == "ns-attr" and at:
            a = r.choice(at)
            v = e.attrib.pop(a)
            e.set("{urn:other}" + local(a), v)
        elif k == "root":
            root.tag = ns + r.choice(["ucis", "UCISDB", "Ucis", "instanceCoverages"])
        else:
            continue
        out = etree.tostring(root, encoding=r.choice(["utf-8", "us-ascii", "utf-16"]))
        if xml_invalid(out):
            return out, "%s at %s" % (k, local(e.tag))
    return None


WRONG = ["x", "5", "", None, True, 1.5, [], {}, [1], {"name": "n"}, -1.25, "0x1f", 7]


def places(t, path=()):
    yield path
    if isinstance(t, dict):
        for k in list(t):
            yield from places(t[k], path + (k,))
    elif isinstance(t, list):
        for k in range(len(t)):
            yield from places(t[k], path + (k,))


def at(t, path):
    for k in path:
        t = t[k]
    return t


def tree(t, seed):
    """-> (tree, what was done) outside the YAML schema, or None."""
    r = random.Random(seed)
    for _ in range(20):
        x = copy.deepcopy(t)
        ps = [p for p in places(x) if p]
        if not ps:
            return None
        p = r.choice(ps[-max(1, len(ps) // 4):]) if r.random() < 0.4 else r.choice(ps)
        par, k = at(x, p[:-1]), p[-1]
        how = r.choice(["del", "del", "set", "set", "rename", "wrap", "top"])
        if how == "del" and isinstance(par, dict):
            del par[k]
        elif how == "set":
            par[k] = copy.deepcopy(r.choice(WRONG))
        elif how == "rename" and isinstance(par, dict):
            par[r.choice([str(k).upper(), str(k) + "s", "x"])] = par.pop(k)
        elif how == "wrap":
            par[k] = r.choice([[par[k]], {"name": par[k]}])
        elif how == "top":
            x = r.choice([None, [], "coverage", 5, [x], {"coverage": []}, {"coverage": None}, {"coverage": "x"},
                          {"coverage": {"covergroups": {}}}, {"coverage": {"covergroups": None}}])
        else:
            continue
        if not js().is_valid(x):
            return x, "%s at %s" % (how, "/".join(map(str, p)))
    return None

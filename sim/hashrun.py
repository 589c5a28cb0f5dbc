"""Runs one fixed pipeline in a fresh interpreter (whose hash seed the caller chose) and writes down its results in order.

    hashrun.py <repo> <input.json> <output.json>
"""
import io
import json
import os
import re
import sys


def walk(s, out, depth=0):
    out.append([depth, s.getScopeName() if depth else "", int(s.getScopeType()) if depth else 0])
    for b in s.coverItems(-1) if depth else ():
        d = b.getCoverData()
        out.append([depth, b.getName(), int(d.type), d.data, d.at_least])
    for c in s.scopes(-1):
        walk(c, out, depth + 1)
    return out


def masked(data):
    """Without the stamps, which may differ from one second to the next."""
    return re.sub(r'(writtenTime|writtenBy|date|userName)="[^"]*"', r'\1=""', data.decode("utf-8"))


def main(repo, src, dst):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    from sim import build
    from sim.world import Mods
    m = Mods()
    with open(src, encoding="utf-8") as f:
        plan = json.load(f)
    os.chdir(os.path.dirname(src))
    res = {}

    def report(db, tag):
        buf = io.StringIO()
        m.rgy.FormatRgy.inst().getReportDesc("json").fmt_if().report(db, buf, [])
        res[tag + "-json"] = buf.getvalue()
        buf = io.StringIO()
        m.rgy.FormatRgy.inst().getReportDesc("txt").fmt_if().report(db, buf, [])
        res[tag + "-txt"] = buf.getvalue()

    def saved(db, tag):
        m.xml_factory.XmlFactory.write(db, tag + ".xml")
        with open(tag + ".xml", "rb") as f:
            res[tag + "-xml"] = masked(f.read())
        res[tag + "-read"] = walk(m.xml_factory.XmlFactory.read(tag + ".xml"), [])
    dbs = [build.build(m, s, None, False) for s in plan["dbs"]]
    for i, d in enumerate(dbs):
        saved(d, "h%d" % i)
        report(d, "h%d" % i)
    out = m.mem_factory.MemFactory.create()
    m.merge.DbMerger().merge(out, dbs)
    res["merged"] = walk(out, [])
    saved(out, "hm")
    report(out, "hm")
    y = m.yaml_reader.YamlReader().loads(plan["yaml"])
    res["yaml"] = walk(y, [])
    rgy = m.rgy.FormatRgy.inst()
    res["formats"] = [list(rgy.getDatabaseFormats()), list(rgy.getReportFormats())]
    with open(dst, "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main(*sys.argv[1:])

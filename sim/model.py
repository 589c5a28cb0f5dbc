"""Executable reference model: coverage data as plain Python values.

spec  - JSON description of one database (what a recorder would record), see gen.py
model - {"insts": {inst: {"du":, "cgs": {cg: G}}}}, G = {"w":, "cps": {n: P}, "crs": {n: P}, "insts": {n: G'}}
        P = {"w":, "bins": {(bin, kind): [count, at_least]}, "on": [cp names] (crosses only)}
dump  - the same shape obtained from a real database through its public iteration API
"""
from .world import Violation

KINDS = ("bin", "ign", "ill")


# ------------------------------------------------------------------ spec -> model
def _item(d, cross=False):
    p = {"w": d.get("w", 1), "bins": {}}
    for n, k, c in d["bins"]:
        p["bins"][(n, k)] = [c, d.get("al", 1)]
    if cross:
        p["on"] = list(d["on"])
    return p


def _group(d, w):
    return {"w": w, "cps": {x["n"]: _item(x) for x in d.get("cps", [])},
            "crs": {x["n"]: _item(x, True) for x in d.get("crs", [])}, "insts": {}}


def sum_items(items):
    out = None
    for it in items:
        if out is None:
            out = {"w": it["w"], "bins": {}}
            if "on" in it:
                out["on"] = list(it["on"])
        for k, (c, al) in it["bins"].items():
            if k in out["bins"]:
                out["bins"][k][0] += c
            else:
                out["bins"][k] = [c, al]
    return out


def sum_named(dicts):
    names = []
    for d in dicts:
        for n in d:
            if n not in names:
                names.append(n)
    return {n: sum_items([d[n] for d in dicts if n in d]) for n in names}


def model_of(spec):
    """What a database recorded from `spec` holds in memory."""
    M = {"insts": {}}
    for i in spec["insts"]:
        I = {"du": i["du"], "cgs": {}}
        M["insts"][i["n"]] = I
        for g in i["cgs"]:
            if g["mode"] == "type":
                G = _group(g, g["w"])
            else:
                G = {"w": g["w"], "cps": {}, "crs": {}, "insts": {}}
                for ci in g["insts"]:
                    G["insts"][ci["n"]] = _group(ci, ci["w"])
                G["cps"] = sum_named([x["cps"] for x in G["insts"].values()])
                G["crs"] = sum_named([x["crs"] for x in G["insts"].values()])
            I["cgs"][g["n"]] = G
    return M


def clone_item(p):
    q = {"w": p["w"], "bins": {k: list(v) for k, v in p["bins"].items()}}
    if "on" in p:
        q["on"] = list(p["on"])
    return q


def clone_group(g):
    return {"w": g["w"], "cps": {n: clone_item(p) for n, p in g["cps"].items()},
            "crs": {n: clone_item(p) for n, p in g["crs"].items()},
            "insts": {n: clone_group(x) for n, x in g["insts"].items()}}


def clone(M):
    return {"insts": {n: {"du": i["du"], "cgs": {k: clone_group(g) for k, g in i["cgs"].items()}}
                      for n, i in M["insts"].items()}}


def saved(M):
    """The model after a save/read cycle through XML: type-only covergroups gain one instance."""
    M = clone(M)
    for i in M["insts"].values():
        for n, g in i["cgs"].items():
            if not g["insts"]:
                x = clone_group(g)
                g["insts"] = {n: x}
            g["cps"] = sum_named([x["cps"] for x in g["insts"].values()])
            g["crs"] = sum_named([x["crs"] for x in g["insts"].values()])
    return M


def merge(models):
    out = {"insts": {}}
    for M in models:
        for n, i in M["insts"].items():
            I = out["insts"].setdefault(n, {"du": i["du"], "cgs": {}})
            for gn, g in i["cgs"].items():
                if gn not in I["cgs"]:
                    I["cgs"][gn] = {"w": g["w"], "cps": {}, "crs": {}, "insts": {}}
                _merge_group(I["cgs"][gn], g)
    return out


def _merge_group(G, g):
    G["cps"] = sum_named([G["cps"], g["cps"]])
    G["crs"] = sum_named([G["crs"], g["crs"]])
    for n, x in g["insts"].items():
        if n not in G["insts"]:
            G["insts"][n] = {"w": x["w"], "cps": {}, "crs": {}, "insts": {}}
        _merge_group(G["insts"][n], x)


# ------------------------------------------------------------------ canonical (comparable) form
def canon_item(n, p):
    return (n, p["w"], tuple(p["on"]) if "on" in p else None,
            tuple(sorted((b, k, c, al) for (b, k), (c, al) in p["bins"].items())))


def canon_group(n, g):
    return (n, g["w"], tuple(sorted(canon_item(k, p) for k, p in g["cps"].items())),
            tuple(sorted((canon_item(k, p) for k, p in g["crs"].items()), key=repr)),
            tuple(sorted((canon_group(k, x) for k, x in g["insts"].items()), key=repr)))


def canon(M):
    return tuple(sorted(((n, i["du"], tuple(sorted((canon_group(k, g) for k, g in i["cgs"].items()), key=repr)))
                         for n, i in M["insts"].items()), key=repr))


# ------------------------------------------------------------------ real database -> canonical form
def _name(x):
    s = x.getScopeName()
    return s if type(s) is str else "<%s>%s" % (type(s).__name__, s)


def dump_bins(m, sc):
    CT = m.cover_t.CoverTypeT
    out = []
    for k, t in (("bin", CT.CVGBIN), ("ign", CT.IGNOREBIN), ("ill", CT.ILLEGALBIN)):
        for b in sc.coverItems(t):
            d = b.getCoverData()
            out.append((b.getName(), k, d.data, d.at_least))
    return out


def dump_item(m, sc, cross):
    on = None
    if cross:
        on = tuple(_name(sc.getIthCrossedCoverpoint(i)) for i in range(sc.getNumCrossedCoverpoints()))
    return (_name(sc), sc.getWeight(), on, tuple(sorted(dump_bins(m, sc), key=repr)))


def dump_group(m, g):
    ST = m.scope_t.ScopeTypeT
    return (_name(g), g.getWeight(),
            tuple(sorted((dump_item(m, c, False) for c in g.scopes(ST.COVERPOINT)), key=repr)),
            tuple(sorted((dump_item(m, c, True) for c in g.scopes(ST.CROSS)), key=repr)),
            tuple(sorted((dump_group(m, c) for c in g.scopes(ST.COVERINSTANCE)), key=repr)))


def dump_db(m, db):
    ST = m.scope_t.ScopeTypeT
    out = []
    for i in db.scopes(ST.INSTANCE):
        du = i.getInstanceDu()
        out.append((_name(i), None if du is None else _name(du),
                    tuple(sorted((dump_group(m, g) for g in i.scopes(ST.COVERGROUP)), key=repr))))
    return tuple(sorted(out, key=repr))


def canon_sorted(M):
    """canon() with exactly the sort keys of dump_db()."""
    def item(n, p):
        return (n, p["w"], tuple(p["on"]) if "on" in p else None,
                tuple(sorted(((b, k, c, al) for (b, k), (c, al) in p["bins"].items()), key=repr)))

    def group(n, g):
        return (n, g["w"], tuple(sorted((item(k, p) for k, p in g["cps"].items()), key=repr)),
                tuple(sorted((item(k, p) for k, p in g["crs"].items()), key=repr)),
                tuple(sorted((group(k, x) for k, x in g["insts"].items()), key=repr)))
    return tuple(sorted(((n, i["du"], tuple(sorted((group(k, g) for k, g in i["cgs"].items()), key=repr)))
                         for n, i in M["insts"].items()), key=repr))


def diff(a, b, path=""):
    """First difference between two canonical values, for messages."""
    if type(a) != type(b) or not isinstance(a, tuple):
        return None if a == b and not _strict_ne(a, b) else "%s: expected %r, got %r" % (path, a, b)
    if len(a) != len(b):
        sa, sb = set(map(repr, a)), set(map(repr, b))
        return "%s: %d vs %d entries; missing %s; extra %s" % (
            path, len(a), len(b), sorted(sa - sb)[:2], sorted(sb - sa)[:2])
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y or _strict_ne(x, y):
            d = diff(x, y, "%s/%s" % (path, i if not (isinstance(x, tuple) and x and isinstance(x[0], str)) else x[0]))
            if d:
                return d
    return None


def _strict_ne(a, b):
    """1 == True == 1.0 in Python; counts must be integers."""
    if isinstance(a, tuple):
        return False
    if isinstance(a, int) and not isinstance(a, bool):
        return not isinstance(b, int) or isinstance(b, bool)
    return False


def check_db(m, db, M, what):
    got = dump_db(m, db)
    want = canon_sorted(M)
    if got != want:
        raise Violation(what, diff(want, got) or "differs")
    return got


# ------------------------------------------------------------------ history
HFIELDS = ("logical", "physical", "kind", "status", "simtime", "timeunit", "runcwd", "cputime", "seed",
           "cmd", "args", "compulsory", "date", "user", "cost", "toolcat", "version", "vendor", "tool",
           "toolver", "same", "comment")


def hist_of(spec, now=None):
    """Expected (in memory) history records of a spec: tuples in HFIELDS order."""
    return tuple(hist_rec(h) for h in spec.get("hist", []))


def hist_rec(h):
    def f(x):
        return None if x is None else float(x)
    return (h["logical"], h.get("physical"), h.get("kind"), h.get("status", "OK") == "OK",
            f(h.get("simtime", -1.0)), h.get("timeunit"), h.get("runcwd"), f(h.get("cputime", -1.0)),
            h.get("seed"), h.get("cmd"), h.get("args"), h.get("compulsory"), h.get("date"),
            h.get("user"), f(h.get("cost", -1)), h.get("toolcat", "unknown"), "1.0",
            h.get("vendor", "unknown"), h.get("tool", "unknown"), h.get("toolver", "unknown"),
            f(h.get("same", -1)), h.get("comment"))


def dump_hist(m, db):
    K = m.hnk.HistoryNodeKind
    OK = m.tst.TestStatusT.OK

    def f(x):
        return None if x is None else float(x)

    def s(x):
        return None if x is None else str(x)
    out = []
    for h in db.historyNodes(K.ALL):
        k = h.getKind()
        if isinstance(k, K):
            k = k.name
        out.append((h.getLogicalName(), h.getPhysicalName(), k, h.getTestStatus() == OK, f(h.getSimTime()),
                    h.getTimeUnit(), h.getRunCwd(), f(h.getCpuTime()), s(h.getSeed()), h.getCmd(), h.getArgs(),
                    s(h.getCompulsory()), h.getDate(), h.getUserName(), f(h.getCost()), h.getToolCategory(),
                    h.getUCISVersion(), h.getVendorId(), h.getVendorTool(), h.getVendorToolVersion(),
                    f(h.getSameTests()), h.getComment()))
    return tuple(out)


def check_hist(m, db, want, what):
    got = dump_hist(m, db)
    if got != want:
        if len(got) != len(want):
            raise Violation(what, "history: %d records expected, %d found" % (len(want), len(got)))
        for i, (a, b) in enumerate(zip(want, got)):
            for n, x, y in zip(HFIELDS, a, b):
                if x != y:
                    raise Violation(what, "history[%d].%s: expected %r, got %r" % (i, n, x, y))
    return got


# ------------------------------------------------------------------ report model
def cov(p):
    bins = [(c, al) for (b, k), (c, al) in p["bins"].items() if k == "bin"]
    if not bins:
        return 0.0
    return 100.0 * sum(1 for c, al in bins if c >= al) / len(bins)


def rep_item(n, p, cross):
    def sel(kind):
        return tuple(sorted(((b, al, c) for (b, k), (c, al) in p["bins"].items() if k == kind), key=repr))
    return {"name": n, "w": p["w"], "cov": cov(p), "bins": sel("bin"),
            "ign": () if cross else sel("ign"), "ill": () if cross else sel("ill")}


def rep_group(n, g):
    cps = [rep_item(k, p, False) for k, p in g["cps"].items()]
    crs = [rep_item(k, p, True) for k, p in g["crs"].items()]
    num = sum(x["cov"] * x["w"] for x in cps + crs if x["w"] > 0)
    den = sum(x["w"] for x in cps + crs)
    return {"name": n, "w": g["w"], "cov": num / den if den > 0 else 0.0, "cps": cps, "crs": crs,
            "insts": [rep_group(k, x) for k, x in g["insts"].items()]}


def report_of(M):
    groups = [rep_group(n, g) for i in M["insts"].values() for n, g in i["cgs"].items()]
    num = sum(g["cov"] * g["w"] for g in groups if g["w"] > 0)
    den = sum(g["w"] for g in groups)
    return {"cov": num / den if den > 0 else 0.0, "groups": groups}


def _key_item(x, bins=True):
    return repr((x["name"], x["bins"], x["ign"], x["ill"])) if bins else repr((x["name"], round(x["cov"], 1)))


def _key_group(g):
    return repr((g["name"], sorted(_key_item(x) for x in g["cps"]), sorted(_key_item(x) for x in g["crs"]),
                 sorted(_key_group(x) for x in g["insts"])))


def close(a, b, tol=1e-6):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol


def cmp_report(want, got, what, weights=True, total=True):
    def bad(path, msg):
        raise Violation(what, "%s: %s" % (path, msg))

    def item(path, a, b):
        path += "/" + a["name"]
        if a["name"] != b["name"]:
            bad(path, "expected item %r, got %r" % (a["name"], b["name"]))
        for f in ("bins", "ign", "ill"):
            if a[f] != b[f]:
                bad(path, "%s expected %r, got %r" % (f, a[f], b[f]))
        if weights and a["w"] != b["w"]:
            bad(path, "weight expected %r, got %r" % (a["w"], b["w"]))
        if not close(a["cov"], b["cov"]):
            bad(path, "coverage expected %r, got %r" % (a["cov"], b["cov"]))

    def lst(path, A, B, key, fn):
        if len(A) != len(B):
            bad(path, "%d expected, %d reported (%s vs %s)" % (
                len(A), len(B), sorted(x["name"] for x in A), sorted(str(x["name"]) for x in B)))
        for a, b in zip(sorted(A, key=key), sorted(B, key=key)):
            fn(path, a, b)

    def group(path, a, b):
        path += "/" + a["name"]
        if a["name"] != b["name"]:
            bad(path, "expected covergroup %r, got %r" % (a["name"], b["name"]))
        lst(path + " coverpoints", a["cps"], b["cps"], _key_item, item)
        lst(path + " crosses", a["crs"], b["crs"], _key_item, item)
        lst(path + " instances", a["insts"], b["insts"], _key_group, group)
        if weights and a["w"] != b["w"]:
            bad(path, "weight expected %r, got %r" % (a["w"], b["w"]))
        if not close(a["cov"], b["cov"]):
            bad(path, "coverage expected %r, got %r" % (a["cov"], b["cov"]))

    lst("covergroups", want["groups"], got["groups"], _key_group, group)
    if total and not close(want["cov"], got["cov"]):
        bad("total", "coverage expected %r, got %r" % (want["cov"], got["cov"]))


def dump_report(r):
    """Report object -> comparable dict."""
    def bins(l):
        return tuple(sorted(((b.name, b.goal, b.count) for b in l), key=repr))

    def item(x, cross):
        return {"name": x.name, "w": x.weight, "cov": x.coverage, "bins": bins(x.bins),
                "ign": () if cross else bins(x.ignore_bins), "ill": () if cross else bins(x.illegal_bins)}

    def group(g):
        return {"name": g.name, "w": g.weight, "cov": g.coverage, "cps": [item(x, False) for x in g.coverpoints],
                "crs": [item(x, True) for x in g.crosses], "insts": [group(x) for x in g.covergroups]}
    return {"cov": r.coverage, "groups": [group(g) for g in r.covergroups]}


def check_report_maps(r, what):
    def group(g):
        for x in g.coverpoints:
            if g.coverpoint_m.get(x.name) is None or g.coverpoint_m[x.name].name != x.name:
                raise Violation(what, "coverpoint %r not in name map" % x.name)
        for x in g.crosses:
            if g.cross_m.get(x.name) is None or g.cross_m[x.name].name != x.name:
                raise Violation(what, "cross %r not in name map" % x.name)
        for x in g.covergroups:
            if g.covergroup_m.get(x.instname) is None:
                raise Violation(what, "instance %r not in name map" % x.instname)
            group(x)
    for g in r.covergroups:
        if r.covergroup_m.get(g.instname) is None:
            raise Violation(what, "covergroup %r not in name map" % g.instname)
        group(g)


def dump_json_report(d, what):
    def bins(l):
        return tuple(sorted(((b["name"], b["goal"], b["count"]) for b in l or []), key=repr))

    def item(x, cross):
        return {"name": x["name"], "w": None, "cov": x["coverage"], "bins": bins(x.get("bins")),
                "ign": () if cross else bins(x.get("ignorebins")),
                "ill": () if cross else bins(x.get("illegalbins"))}

    def group(g):
        return {"name": g["name"], "w": None, "cov": g["coverage"],
                "cps": [item(x, False) for x in g.get("coverpoints") or []],
                "crs": [item(x, True) for x in g.get("crosses") or []],
                "insts": [group(x) for x in g.get("covergroups") or []]}
    try:
        return {"cov": d["coverage"], "groups": [group(g) for g in d.get("covergroups") or []]}
    except (KeyError, TypeError, AttributeError) as e:
        raise Violation(what, "malformed JSON report: %r" % (e,))


def expect_text(want, cptol=0, cgtol=0, details=False):
    """Number of lines of a text report, as a list of their prefixes."""
    out = []

    def group(kw, g):
        out.append("%s %s : " % (kw, g["name"]))
        for kw2, xs in (("CVP", g["cps"]), ("CROSS", g["crs"])):
            for x in xs:
                out.append("%s %s : " % (kw2, x["name"]))
                if details:
                    for f in ("bins", "ign", "ill"):
                        out.extend("%s : " % b[0] for b in x[f])
        for x in g["insts"]:
            group("INST", x)
    for g in want["groups"]:
        group("TYPE", g)
    return out


HEADS = {"Bins:": "bins", "IgnoreBins:": "ign", "IllegalBins:": "ill"}


def parse_text(text, what, details=False):
    """Text report -> nested dict. Items belong to the covergroup line above them, bins to the item above them."""
    if text and not text.endswith("\n"):
        raise Violation(what, "text report does not end with a newline")
    top, grp, inst, item, sect = [], None, None, None, None
    for l in text.split("\n"):
        l = l.strip()
        if not l:
            continue
        if details and l in HEADS:
            sect = HEADS[l]
            continue
        i = l.rfind(" : ")
        if i < 0:
            raise Violation(what, "unexpected line %r" % l)
        head, v = l[:i], l[i + 3:]
        if v.endswith("%"):
            try:
                val = float(v[:-1])
            except ValueError:
                raise Violation(what, "unexpected value in line %r" % l)
            kw, _, name = head.partition(" ")
            if kw == "TYPE" or (kw == "INST" and grp is not None):
                g = {"name": name, "cov": val, "cps": [], "crs": [], "insts": []}
                if kw == "TYPE":
                    top.append(g)
                    grp = inst = g
                else:
                    grp["insts"].append(g)
                    inst = g
                item = None
            elif kw in ("CVP", "CROSS") and inst is not None:
                item = {"name": name, "cov": val, "bins": [], "ign": [], "ill": []}
                inst["cps" if kw == "CVP" else "crs"].append(item)
                sect = "bins"
            else:
                raise Violation(what, "unexpected line %r" % l)
        else:
            if not details or item is None:
                raise Violation(what, "unexpected line %r" % l)
            try:
                item[sect].append((head, int(v)))
            except ValueError:
                raise Violation(what, "unexpected value in line %r" % l)
    return top


def _match(A, B, fn, path):
    """Pair every expected entry with a different reported one (names repeat only across design instances)."""
    if sorted(x["name"] for x in A) != sorted(x["name"] for x in B):
        return "%s: expected %s, reported %s" % (path, sorted(x["name"] for x in A), sorted(x["name"] for x in B))
    by = {}
    for b in B:
        by.setdefault(b["name"], []).append(b)
    need = {}
    for a in A:
        need.setdefault(a["name"], []).append(a)
    for n, al in need.items():
        bl = by[n]

        def rec(i, used):
            if i == len(al):
                return None
            why = None
            for j in range(len(bl)):
                if j not in used:
                    e = fn(al[i], bl[j], "%s/%s" % (path, n)) or rec(i + 1, used | {j})
                    if e is None:
                        return None
                    why = e
            return why
        e = rec(0, frozenset())
        if e:
            return e
    return None


def check_text(want, text, what, cptol, cgtol, details=False):
    """The text report lists exactly the expected tree, with right values."""
    def item(a, b, path):
        if abs(a["cov"] - b["cov"]) > cptol + 1e-9:
            return "%s: coverage expected %r, got %r" % (path, a["cov"], b["cov"])
        if details:
            for f in ("bins", "ign", "ill"):
                x, y = sorted((n, c) for n, al, c in a[f]), sorted(b[f])
                if x != y:
                    return "%s %s: expected %r, got %r" % (path, f, x, y)
        return None

    def group(a, b, path):
        if abs(a["cov"] - b["cov"]) > cgtol + 1e-9:
            return "%s: coverage expected %r, got %r" % (path, a["cov"], b["cov"])
        return (_match(a["cps"], b["cps"], item, path + " coverpoints")
                or _match(a["crs"], b["crs"], item, path + " crosses")
                or _match(a["insts"], b["insts"], group, path + " instances"))
    e = _match(want["groups"], parse_text(text, what, details), group, "covergroups")
    if e:
        raise Violation(what, e)

"""Seeded generation of databases and environments (pure functions of a random.Random)."""
import hashlib
import random
import unicodedata

WORDS = ["a", "b", "cg", "cp", "addr", "data", "op", "mode", "x", "y", "len", "burst", "top", "i_dut", "u0",
         "state", "lo", "hi", "zero", "max", "rw", "irq"]
SPICE = ["é", "ß", "漢字", "Ω", "🚀", "naïve", "%", "%s", "%d%%", "<", ">", "&", "\"", "'", "]]>", "&amp;", "#",
         "[0]", "[1:3]", "(", ")", "$", "@", "::", "->", ",", ";", "=", "{}", "\\", "/", "|", "~", "`", "^",
         " ", "  ", ".", "-", "*", "?", "+", "\u00a0", "\u2028", "\u200b", "\ufffd", "Ж"]


def rng_for(seed, pid, idx, extra=""):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, pid, idx, extra)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def name(r, spice=0.25):
    s = r.choice(WORDS)
    if r.random() < 0.6:
        s += str(r.randrange(0, 40))
    if r.random() < spice:
        for _ in range(r.randrange(1, 3)):
            k = r.randrange(1, len(s) + 1)
            s = s[:k] + r.choice(SPICE) + s[k:]
        s += r.choice(WORDS)
    if r.random() < 0.03:
        s = s * r.randrange(5, 30)
        if r.random() < 0.05:
            s = s * (r.choice([300, 1100, 4200, 9000]) // len(s) + 1)
    return s


def confusable(r, s):
    """A different name that careless comparison would take for the same one."""
    return r.choice([str.swapcase, str.upper, str.capitalize, lambda x: x + "0", lambda x: x + "_",
                     lambda x: "_" + x, lambda x: x[:-1] or x, lambda x: x + x[-1:], lambda x: "0" + x,
                     lambda x: x + "[0]", lambda x: unicodedata.normalize("NFD", x + "é"),
                     lambda x: unicodedata.normalize("NFC", x + "é"), lambda x: x + "\u200b" + x, lambda x: x + " ", lambda x: x + "\u00a0"])(s)


def edge(r, s):
    """A name that does not survive careless trimming."""
    return r.choice(["", " ", " " + s, s + " ", "\t" + s, s + "\t", "\u00a0" + s, " " + s + "  "])


def names(r, n, spice=0.25, pool=None, bins=False):
    out = []
    while len(out) < n:
        s = name(r, spice)
        if pool is not None and r.random() < 0.5 and pool:
            s = r.choice(pool)
        elif out and r.random() < 0.12:
            s = confusable(r, r.choice(out))
        if r.random() < 0.04:
            s = edge(r, s)
        if bins:
            s = s.lstrip() or "b"         # where a bin's name begins cannot be told from a text report
        if s not in out:
            out.append(s)
    return out


COUNTS = [0, 0, 1, 1, 2, 3, 5, 9, 10, 99, 100, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
          2**53 + 1, 2**63 - 1, 2**63]


def count(r, big=True):
    x = r.random()
    if x < 0.35:
        return r.randrange(0, 4)
    if x < 0.6:
        return r.randrange(0, 200)
    return r.choice(COUNTS if big else COUNTS[:13])


def weight(r):
    x = r.random()
    return 1 if x < 0.5 else r.choice([0, 2, 3, 5, 10, 100, 7])


def at_least(r):
    return 1 if r.random() < 0.55 else r.choice([0, 2, 3, 5, 10, 100])


def shape_items(r, size, spice, kinds=True, pool=None):
    """Shape of the coverpoints and crosses of one covergroup (shared by everything equally named)."""
    ncp = 1 + r.randrange(0, 1 + size)
    cps = []
    for n in names(r, ncp, spice, pool):
        nb = 1 + r.randrange(0, 1 + size * 2)
        bins, used = [], set()
        for b in names(r, nb, spice, bins=True):
            k = "bin"
            if kinds and r.random() < 0.25:
                k = r.choice(["ign", "ill"])
            bins.append([b, k])
            used.add((b, k))
            if kinds and r.random() < 0.08:
                k2 = r.choice(["bin", "ign", "ill"])
                if (b, k2) not in used:
                    bins.append([b, k2])
                    used.add((b, k2))
        cps.append({"n": n, "w": weight(r), "al": at_least(r), "bins": bins})
    crs = []
    if r.random() < 0.55:
        for n in names(r, 1 + r.randrange(0, 2), spice):
            if any(n == c["n"] for c in cps):
                continue
            k = 1 + r.randrange(0, min(3, len(cps)))
            on = [r.choice(cps)["n"] for _ in range(k)] if r.random() < 0.1 else \
                [c["n"] for c in r.sample(cps, k)]
            bins = []
            for b in names(r, 1 + r.randrange(0, 1 + size), spice, bins=True):
                kk = "bin"
                if kinds and r.random() < 0.2:
                    kk = r.choice(["ign", "ill"])
                bins.append([b, kk])
            crs.append({"n": n, "w": weight(r), "al": at_least(r), "on": on, "bins": bins})
    return {"cps": cps, "crs": crs}


def widen(insts):
    """Blow one part of a shape up; decided by the shape itself, so that all other draws stay what they were."""
    q = random.Random(repr(insts))
    i = q.choice(insts)
    g = q.choice(i["cgs"])
    x = q.choice(g["shape"]["cps"] + g["shape"]["crs"])
    how = q.choice(["bins", "bins", "ci", "cps", "cgs", "insts"])

    def more(have, n, f):
        used = {f(y) for y in have}
        return [s for s in ("%s%d" % (q.choice(["w", "bin[", "x_"]), k) for k in range(n)) if s not in used]
    if how == "bins":
        kinds = q.choice([["bin"], ["bin", "bin", "ign", "ill"]])
        x["bins"] += [[b, q.choice(kinds)] for b in more(x["bins"], q.choice([12, 33, 64, 101, 260]), lambda y: y[0])]
    elif how == "ci":
        g["mode"] = "inst"
        g["insts"] += [{"n": n, "w": weight(q)} for n in more(g["insts"], q.choice([9, 17, 40]), lambda y: y["n"])]
    elif how == "cps":
        have = g["shape"]["cps"] + g["shape"]["crs"]
        g["shape"]["cps"] += [{"n": n, "w": weight(q), "al": at_least(q), "bins": [["b%d" % k, "bin"] for k in range(q.randrange(1, 4))]}
                              for n in more(have, q.choice([9, 17, 40]), lambda y: y["n"])]
    else:
        small = {"cps": [{"n": "p", "w": weight(q), "al": at_least(q), "bins": [["v", "bin"], ["u", "bin"]]}], "crs": []}
        if how == "cgs":
            i["cgs"] += [{"n": n, "w": weight(q), "mode": q.choice(["type", "inst"]), "shape": small,
                          "insts": [{"n": "i%d" % k, "w": 1} for k in range(q.randrange(1, 3))]}
                         for n in more(i["cgs"], q.choice([9, 17, 40]), lambda y: y["n"])]
        else:
            insts += [{"n": n, "du": q.choice([i["du"], "d_" + n]),
                       "cgs": [{"n": g["n"], "w": weight(q), "mode": "type", "shape": small,
                                "insts": [{"n": "i", "w": 1}]}]}
                      for n in more(insts, q.choice([9, 17, 40]), lambda y: y["n"])]
    return insts


WIDE = 0.02


def universe(r, size=2, spice=0.25, mode=None, wide=WIDE):
    """A shape from which several consistent databases can be drawn."""
    insts = []
    pool = []
    dus = names(r, 2, spice)
    for n in names(r, 1 + r.randrange(0, 1 + size), spice):
        cgs = []
        cgn = names(r, 1 + r.randrange(0, 1 + size), spice, pool)
        pool += cgn
        for g in cgn:
            sh = shape_items(r, size, spice)
            md = mode or ("type" if r.random() < 0.4 else "inst")
            cgs.append({"n": g, "w": weight(r), "mode": md, "shape": sh,
                        "insts": [{"n": x, "w": weight(r)} for x in names(r, 1 + r.randrange(0, 3), spice)]})
        insts.append({"n": n, "du": r.choice(dus), "cgs": cgs})
    if random.Random(repr(insts)).random() < wide:
        widen(insts)
        for i in insts:
            for g in i["cgs"]:
                g["mode"] = mode or g["mode"]
    return {"insts": insts}


def fill_items(r, sh, full, big=True):
    def bins(x):
        bs = [[b, k, count(r, big)] for b, k in x["bins"]]
        if not full and len(bs) > 1 and r.random() < 0.4:
            bs = [b for b in bs if r.random() < 0.7] or bs[:1]
        if r.random() < 0.15:
            r.shuffle(bs)
        return bs
    cps = [{"n": c["n"], "w": c["w"], "al": c["al"], "bins": bins(c)} for c in sh["cps"]]
    crs = [{"n": c["n"], "w": c["w"], "al": c["al"], "on": list(c["on"]), "bins": bins(c)} for c in sh["crs"]]
    if not full:
        if r.random() < 0.3 and len(cps) > 1:
            keep = [c for c in cps if r.random() < 0.7] or cps[:1]
            have = {c["n"] for c in keep}
            crs = [c for c in crs if all(o in have for o in c["on"])]
            cps = keep
        if r.random() < 0.3:
            crs = [c for c in crs if r.random() < 0.6]
    return {"cps": cps, "crs": crs}


def draw(r, uni, full=None, hist=True, big=True, spice=0.25):
    """One database spec over a universe."""
    if full is None:
        full = r.random() < 0.4
    insts = []
    for i in uni["insts"]:
        if not full and len(uni["insts"]) > 1 and r.random() < 0.25:
            continue
        cgs = []
        for g in i["cgs"]:
            if not full and len(i["cgs"]) > 1 and r.random() < 0.25:
                continue
            d = {"n": g["n"], "w": g["w"], "mode": g["mode"]}
            if g["mode"] == "type":
                d.update(fill_items(r, g["shape"], full, big))
            else:
                cis = [dict(x, **fill_items(r, g["shape"], full, big)) for x in g["insts"]
                       if full or r.random() < 0.75]
                if not cis:
                    cis = [dict(g["insts"][0], **fill_items(r, g["shape"], True, big))]
                d["insts"] = cis
            cgs.append(d)
        if not cgs:
            g = i["cgs"][0]
            d = {"n": g["n"], "w": g["w"], "mode": g["mode"]}
            if g["mode"] == "type":
                d.update(fill_items(r, g["shape"], True, big))
            else:
                d["insts"] = [dict(g["insts"][0], **fill_items(r, g["shape"], True, big))]
            cgs.append(d)
        insts.append({"n": i["n"], "du": i["du"], "cgs": cgs})
    if not insts:
        return draw(r, uni, True, hist, big, spice)
    spec = {"insts": insts}
    spec["hist"] = history(r, spice) if hist else []
    return spec


def date(r):
    y = r.choice([1970, 1999, 2000, 2004, 2012, 2016, 2020, 2021, 2022, 2023, 2024, 2037, 2038, 2100])
    mo = r.randrange(1, 13)
    d = r.randrange(1, 29)
    h = r.choice([0, 1, 2, 3, 12, 23, r.randrange(24)])
    if r.random() < 0.35:
        # hours that do not exist or exist twice in common zones
        mo, d, h = r.choice([(3, 10, 2), (3, 13, 2), (3, 14, 2), (3, 27, 2), (3, 31, 2), (11, 3, 1), (11, 6, 1),
                             (10, 30, 2), (10, 27, 2), (4, 7, 2), (10, 6, 2), (3, 28, 1), (3, 26, 1)])
        y = r.choice([2016, 2020, 2021, 2022, 2024])
    return "%04d%02d%02d%02d%02d%02d" % (y, mo, d, h, r.randrange(60), r.randrange(60))


def text(r, spice):
    if r.random() < 0.1:
        return ""
    sep = " " if r.random() < 0.92 else r.choice(["\r\n", "\n", "\r", "\t", "  ", "\n\n", "\u2028"])
    return sep.join(name(r, spice) for _ in range(r.randrange(1, 4)))


def hrec(r, spice=0.25, minimal=False):
    h = {"logical": name(r, spice), "date": date(r)}
    if r.random() < 0.8:
        h["kind"] = r.choice(["TEST", "TEST", "MERGE", "NONE", "vendor-kind"])
    if r.random() < 0.7:
        h["physical"] = name(r, spice)
    if minimal:
        return h
    if r.random() < 0.6:
        h["status"] = r.choice(["OK", "OK", "WARNING", "ERROR", "FATAL", "MISSING", "MERGE_ERROR"])
    for k, p in (("simtime", .5), ("cputime", .5)):
        if r.random() < p:
            h[k] = r.choice([0.0, 0.5, 1.25, 100.0, 12345.678, 2.0**40, 1e22, 1e-7, 5e-324, float("inf")])
    if r.random() < .4:
        h["cost"] = r.choice([0, 1, 5.5, 1000, 1e22, 1e-7, 123456789.125, 2.0**60])
    if r.random() < .3:
        h["same"] = r.choice([0, 1, 7])
    if r.random() < .4:
        h["compulsory"] = r.choice(["0", "1"])
    if r.random() < .5:
        h["seed"] = str(r.randrange(0, 2**32))
    for k in ("timeunit", "runcwd", "cmd", "args", "user", "comment"):
        if r.random() < 0.4:
            h[k] = text(r, spice)
    for k in ("toolcat", "vendor", "tool", "toolver"):
        if r.random() < 0.3:
            h[k] = name(r, spice)
    return h


def history(r, spice=0.25):
    n = r.choice([1, 1, 1, 2, 3]) if r.random() < 0.9 else r.randrange(1, 6)
    if n == 5 and r.random() < 0.5:
        return [hrec(r, spice, minimal=r.random() < 0.9) for _ in range(r.choice([9, 12, 33, 101]))]
    return [hrec(r, spice) for _ in range(n)]


TZS = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia",
       "America/St_Johns", "Asia/Tokyo", "Pacific/Kiritimati", "EST5EDT,M3.2.0,M11.1.0",
       "CET-1CEST,M3.5.0,M10.5.0/3", "XYZ-13:45", "ABC+11:30"]
ENCS = ["utf-8", "utf-8", "latin-1", "ascii", "cp1252", "shift_jis", "euc_jp"]
NOWS = [0, 86399, 951782400, 1_600_000_000, 1_700_000_000, 1710054000, 1710057600, 1730612400, 1730613600,
        1711846800, 1711850400, 1730595600, 1709164800, 1735689599, 2**31 - 1, 2**31, 4102444800]


def env(r):
    return {"tz": r.choice(TZS), "enc": r.choice(ENCS), "now": r.choice(NOWS) + r.randrange(0, 7200),
            "user": r.choice(["sim", "sim", None, "usér", "a&b<c>"]),
            "buf": r.choice([16, 64, 512, 8192, 8192]), "chunk": r.choice([1, 16, 128, 8192, 8192]),
            "reuse": r.random() < 0.4}


def env_plain(r):
    return {"tz": "UTC", "enc": "utf-8", "now": 1_700_000_000, "user": "sim",
            "buf": r.choice([16, 64, 512, 8192, 8192]), "chunk": r.choice([1, 16, 128, 8192, 8192]),
            "reuse": r.random() < 0.4}


# ------------------------------------------------------------------ shrinking of specs
def spec_shrinks(spec):
    """Smaller variants of a spec (each still expressible)."""
    def cp(x):
        import copy
        return copy.deepcopy(x)
    if len(spec.get("hist", [])) > 1:
        for k in range(len(spec["hist"])):
            s = cp(spec)
            del s["hist"][k]
            yield s
    for k, h in enumerate(spec.get("hist", [])):
        if set(h) - {"logical", "date"}:
            s = cp(spec)
            s["hist"][k] = {x: h[x] for x in ("logical", "date") if x in h}
            yield s
    if len(spec["insts"]) > 1:
        for k in range(len(spec["insts"])):
            s = cp(spec)
            del s["insts"][k]
            yield s
    for a, i in enumerate(spec["insts"]):
        if len(i["cgs"]) > 1:
            for k in range(len(i["cgs"])):
                s = cp(spec)
                del s["insts"][a]["cgs"][k]
                yield s
        for b, g in enumerate(i["cgs"]):
            hold = [("cgs", None)] if g["mode"] == "type" else [("insts", k) for k in range(len(g["insts"]))]
            if g["mode"] == "inst" and len(g["insts"]) > 1:
                for k in range(len(g["insts"])):
                    s = cp(spec)
                    del s["insts"][a]["cgs"][b]["insts"][k]
                    yield s
            for h, k in hold:
                base = g if k is None else g["insts"][k]

                def at(s):
                    x = s["insts"][a]["cgs"][b]
                    return x if k is None else x["insts"][k]
                for c in range(len(base.get("crs", []))):
                    s = cp(spec)
                    del at(s)["crs"][c]
                    yield s
                if len(base["cps"]) > 1:
                    for c in range(len(base["cps"])):
                        n = base["cps"][c]["n"]
                        if any(n in x["on"] for x in base.get("crs", [])):
                            continue
                        s = cp(spec)
                        del at(s)["cps"][c]
                        yield s
                for key in ("cps", "crs"):
                    for c, x in enumerate(base.get(key, [])):
                        if len(x["bins"]) > 1:
                            for q in range(len(x["bins"])):
                                s = cp(spec)
                                del at(s)[key][c]["bins"][q]
                                yield s

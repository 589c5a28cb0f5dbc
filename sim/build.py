"""Recording a spec into a real database through the public API (object or C-style)."""


def kind_of(m, k):
    CT = m.cover_t.CoverTypeT
    return {"bin": CT.CVGBIN, "ign": CT.IGNOREBIN, "ill": CT.ILLEGALBIN}[k]


def add_item_bins(m, sc, d, counts=None):
    for n, k, c in d["bins"]:
        if counts is None:
            sc.createBin(n, None, d.get("al", 1), c, n, kind_of(m, k))
        else:
            sc.createBin(n, None, d.get("al", 1), counts.get((n, k), c), n, kind_of(m, k))


def fill_group(m, sc, d):
    u = m.ucis
    cps = {}
    for x in d.get("cps", []):
        cp = sc.createCoverpoint(x["n"], None, x.get("w", 1), u.UCIS_OTHER)
        cps[x["n"]] = cp
        add_item_bins(m, cp, x)
    for x in d.get("crs", []):
        cr = sc.createCross(x["n"], None, x.get("w", 1), u.UCIS_OTHER, [cps[o] for o in x["on"]])
        add_item_bins(m, cr, x)
    return cps


def type_level(g):
    """Aggregate the cover instances of a covergroup spec into type-level items."""
    def agg(key):
        order, by = [], {}
        for ci in g["insts"]:
            for x in ci.get(key, []):
                if x["n"] not in by:
                    y = {k: v for k, v in x.items() if k != "bins"}
                    y["bins"] = []
                    by[x["n"]] = y
                    order.append(y)
                y = by[x["n"]]
                for n, k, c in x["bins"]:
                    for b in y["bins"]:
                        if b[0] == n and b[1] == k:
                            b[2] += c
                            break
                    else:
                        y["bins"].append([n, k, c])
        return order
    return {"cps": agg("cps"), "crs": agg("crs")}


def add_history(m, db, h, capi=False):
    u = m.ucis
    K = m.hnk.HistoryNodeKind
    kind = h.get("kind")
    if kind in ("TEST", "MERGE", "NONE"):
        kind = K[kind]
    if capi:
        n = u.ucis_CreateHistoryNode(db, None, h["logical"], h.get("physical"), kind)
    else:
        n = db.createHistoryNode(None, h["logical"], h.get("physical"), kind)
    set_history(m, n, h)
    return n


def set_history(m, n, h):
    TS = m.tst.TestStatusT
    if "status" in h:
        n.setTestStatus(TS[h["status"]])
    for k, f in (("simtime", "setSimTime"), ("timeunit", "setTimeUnit"), ("runcwd", "setRunCwd"),
                 ("cputime", "setCpuTime"), ("seed", "setSeed"), ("cmd", "setCmd"), ("args", "setArgs"),
                 ("compulsory", "setCompulsory"), ("date", "setDate"), ("user", "setUserName"),
                 ("cost", "setCost"), ("toolcat", "setToolCategory"), ("vendor", "setVendorId"),
                 ("tool", "setVendorTool"), ("toolver", "setVendorToolVersion"), ("same", "setSameTests"),
                 ("comment", "setComment")):
        if k in h:
            getattr(n, f)(h[k])


def build(m, spec, db=None, capi=False):
    """Record `spec`; capi uses the ucis_* functions where they exist."""
    u = m.ucis
    if db is None:
        db = m.mem_factory.MemFactory.create()
    dus = {}
    for h in spec.get("hist", []):
        add_history(m, db, h, capi)
    du_flags = (u.UCIS_ENABLED_STMT | u.UCIS_ENABLED_BRANCH | u.UCIS_ENABLED_COND | u.UCIS_ENABLED_EXPR
                | u.UCIS_ENABLED_FSM | u.UCIS_ENABLED_TOGGLE | u.UCIS_INST_ONCE | u.UCIS_SCOPE_UNDER_DU)
    for i in spec["insts"]:
        if i["du"] not in dus:
            if capi:
                dus[i["du"]] = u.ucis_CreateScope(db, None, i["du"], None, 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, du_flags)
            else:
                dus[i["du"]] = db.createScope(i["du"], None, 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, du_flags)
        du = dus[i["du"]]
        if capi:
            inst = u.ucis_CreateInstance(db, None, i["n"], None, 1, u.UCIS_OTHER, u.UCIS_INSTANCE, du, u.UCIS_INST_ONCE)
        else:
            inst = db.createInstance(i["n"], None, 1, u.UCIS_OTHER, u.UCIS_INSTANCE, du, u.UCIS_INST_ONCE)
        for g in i["cgs"]:
            if capi:
                cg = u.ucis_CreateScope(db, inst, g["n"], None, g["w"], u.UCIS_OTHER, u.UCIS_COVERGROUP, 0)
            else:
                cg = inst.createCovergroup(g["n"], None, g["w"], u.UCIS_OTHER)
            if g["mode"] == "type":
                fill_group(m, cg, g)
            else:
                fill_group(m, cg, type_level(g))
                for ci in g["insts"]:
                    c = cg.createCoverInstance(ci["n"], None, ci["w"], u.UCIS_OTHER)
                    fill_group(m, c, ci)
    return db

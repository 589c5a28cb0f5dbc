"""A real in-memory database together with its reference model, mutated in lock step."""
from . import build, model


class Live:
    def __init__(self, m, spec, kind="mem", capi=False):
        self.m = m
        self.spec = spec
        self.kind = kind
        self.model = model.model_of(spec)
        self.hist = list(model.hist_of(spec))
        db = None
        if kind == "xml":
            db = m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if().create()
        self.db = build.build(m, spec, db, capi)
        self.default_dates()

    def default_dates(self):
        """Records made without a date carry the one they were given by default."""
        at = model.HFIELDS.index("date")
        if any(h[at] is None for h in self.hist):
            for k, n in enumerate(self.db.historyNodes(self.m.hnk.HistoryNodeKind.ALL)):
                if self.hist[k][at] is None:
                    h = list(self.hist[k])
                    h[at] = n.getDate()
                    self.hist[k] = tuple(h)

    @classmethod
    def wrap(cls, m, db, M, hist=()):
        """Carry on with a database that came from a merge or a load."""
        self = cls.__new__(cls)
        self.m, self.db, self.spec, self.kind = m, db, None, "mem"
        self.model, self.hist = model.clone(M), list(hist)
        return self

    def snapshot(self):
        return model.clone(self.model), tuple(self.hist)

    # ------------------------------------------------------------ real objects by name
    def find(self, path):
        """path = [inst, cg, ci|None, "cps"|"crs"|None, item|None] -> scope"""
        ST = self.m.scope_t.ScopeTypeT
        s = by(self.db.scopes(ST.INSTANCE), path[0])
        s = by(s.scopes(ST.COVERGROUP), path[1])
        if path[2] is not None:
            s = by(s.scopes(ST.COVERINSTANCE), path[2])
        if path[3] is not None:
            s = by(s.scopes(ST.COVERPOINT if path[3] == "cps" else ST.CROSS), path[4])
        return s

    def group(self, path):
        g = self.model["insts"][path[0]]["cgs"][path[1]]
        return g if path[2] is None else g["insts"][path[2]]

    def leaves(self):
        """Paths of all items that are recorded into directly."""
        out = []
        for i, I in self.model["insts"].items():
            for g, G in I["cgs"].items():
                for ci, C in ([(None, G)] if not G["insts"] else G["insts"].items()):
                    for kind in ("cps", "crs"):
                        for n in C[kind]:
                            out.append([i, g, ci, kind, n])
        return out

    def bins(self):
        out = []
        for p in self.leaves():
            for k in self.group(p)[p[3]][p[4]]["bins"]:
                out.append((p, k))
        return out

    # ------------------------------------------------------------ mutations
    def incr(self, ordinal, amt):
        bs = self.bins()
        p, key = bs[ordinal % len(bs)]
        tops = [p] if p[2] is None else [p, [p[0], p[1], None, p[3], p[4]]]
        for q in tops:
            binof(self.m, self.find(q), key).incrementCover(amt)
            self.group(q)[q[3]][q[4]]["bins"][key][0] += amt
        return p, key

    def add_bin(self, ordinal, name, kind, count):
        ls = self.leaves()
        p = ls[ordinal % len(ls)]
        key = (name, kind)
        it = self.group(p)[p[3]][p[4]]
        if key in it["bins"]:
            return None
        al = next(iter(it["bins"].values()))[1]
        self.find(p).createBin(name, None, al, count, name, build.kind_of(self.m, kind))
        it["bins"][key] = [count, al]
        if p[2] is not None:
            q = [p[0], p[1], None, p[3], p[4]]
            t = self.group(q)[q[3]][q[4]]
            if key in t["bins"]:
                binof(self.m, self.find(q), key).incrementCover(count)
                t["bins"][key][0] += count
            else:
                self.find(q).createBin(name, None, al, count, name, build.kind_of(self.m, kind))
                t["bins"][key] = [count, al]
        return p, key

    def set_weight(self, ordinal, w):
        """Weight of an item (in every instance and at type level) or of a covergroup."""
        ls = self.leaves()
        p = ls[ordinal % len(ls)]
        G = self.model["insts"][p[0]]["cgs"][p[1]]
        for ci, C in [(None, G)] + list(G["insts"].items()):
            if p[4] in C[p[3]]:
                self.find([p[0], p[1], ci, p[3], p[4]]).setWeight(w)
                C[p[3]][p[4]]["w"] = w

    def set_group_weight(self, ordinal, w):
        gs = [(i, g) for i, I in self.model["insts"].items() for g in I["cgs"]]
        i, g = gs[ordinal % len(gs)]
        self.find([i, g, None, None, None]).setWeight(w)
        self.model["insts"][i]["cgs"][g]["w"] = w

    def add_history(self, h):
        build.add_history(self.m, self.db, h)
        self.hist.append(model.hist_rec(h))
        self.default_dates()

    def mutate(self, ops):
        for o in ops:
            k = o[0]
            if k == "inc":
                self.incr(o[1], o[2])
            elif k == "bin":
                self.add_bin(o[1], o[2], o[3], o[4])
            elif k == "w":
                self.set_weight(o[1], o[2])
            elif k == "gw":
                self.set_group_weight(o[1], o[2])
            elif k == "hist":
                self.add_history(o[1])

    def check(self, what):
        model.check_db(self.m, self.db, self.model, what)
        model.check_hist(self.m, self.db, tuple(self.hist), what)


def by(it, name):
    for s in it:
        if s.getScopeName() == name:
            return s
    raise KeyError(name)


def binof(m, sc, key):
    for b in sc.coverItems(build.kind_of(m, key[1])):
        if b.getName() == key[0]:
            return b
    raise KeyError(key)

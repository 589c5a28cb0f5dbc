"""Operations shared by the properties: saving and reading in every supported way."""
import gzip
import io

from sim import gen, model
from sim.world import SimCrash, Violation

REAL_ALL = ("all of src/ucis (record, XML write/read/validate, merge, report, YAML, command line), lxml, PyYAML, "
            "gzip, Python's buffered/text I/O layers, on a real scratch directory")
STUB_HOST = ("the raw file layer under open() (injects errors, short transfers, torn writes, crashes), "
             "stdout/stderr pipes, wall clock, time zone, user database, locale encoding; process restart is "
             "module purge + re-import, power loss is a cut/zeroed tail of files not known to be durable")
ASSUME = ["simulated disk keeps what was written before a sync point; no silent corruption in the middle of a file",
          "databases are ones the XML schema can express (>=1 instance, covergroup, coverpoint and bin; unique "
          "names per scope; one at_least per coverpoint; counts below 2^64)"]


def save(ctx, db, via, name):
    """Save a database; returns normally only if the save reported success."""
    m, w = ctx.m, ctx.w
    if via == "path":
        m.xml_factory.XmlFactory.write(db, w.path(name))
    elif via == "rel":
        m.xml_factory.XmlFactory.write(db, w.rel(name))
    elif via == "stringio":
        s = io.StringIO()
        m.xml_factory.XmlFactory.write(db, s)
        w.put(name, s.getvalue())
    elif via == "stream":
        f = w.sim_open(w.path(name), "w", encoding="utf-8")
        try:
            m.xml_factory.XmlFactory.write(db, f)
        finally:
            f.close()
    elif via == "writer":
        f = w.sim_open(w.path(name), "w", encoding="utf-8")
        try:
            ctx.tool(m.xml_writer.XmlWriter).write(f, db)
        finally:
            f.close()
    elif via == "dbwrite":
        db.write(w.path(name))
    elif via == "gzstream":
        raw = io.BytesIO()
        t = io.TextIOWrapper(gzip.GzipFile(fileobj=raw, mode="wb", mtime=0), encoding="utf-8")
        m.xml_factory.XmlFactory.write(db, t)
        t.close()
        w.put(name, raw.getvalue())
    else:
        raise ValueError(via)


def read(ctx, via, name):
    m, w = ctx.m, ctx.w
    if via == "path":
        return m.xml_factory.XmlFactory.read(w.path(name))
    if via == "rel":
        return m.xml_factory.XmlFactory.read(w.rel(name))
    if via == "rgy":
        return ctx.tool(m.rgy.FormatRgy.inst().getDatabaseDesc("xml").fmt_if).read(w.path(name))
    if via == "bytesio":
        return m.xml_factory.XmlFactory.read(io.BytesIO(w.get(name)))
    if via == "stringio":
        return m.xml_factory.XmlFactory.read(io.StringIO(w.get(name).decode("utf-8")))
    if via == "rb":
        f = w.sim_open(w.path(name), "rb")
        try:
            return m.xml_factory.XmlFactory.read(f)
        finally:
            f.close()
    if via == "text":
        f = w.sim_open(w.path(name), "r", encoding="utf-8")
        try:
            return m.xml_factory.XmlFactory.read(f)
        finally:
            f.close()
    if via == "reader":
        f = w.sim_open(w.path(name), "rb")
        try:
            return ctx.tool(m.xml_reader.XmlReader).read(f)
        finally:
            f.close()
    raise ValueError(via)


READ_VIAS = ["path", "path", "path", "rel", "rgy", "bytesio", "stringio", "rb", "text", "reader"]
SAVE_VIAS = ["path", "path", "path", "rel", "stringio", "stream", "writer", "dbwrite", "dbwrite", "gzstream"]

WFAULTS = ["EIO", "ENOSPC", "EDQUOT", "EROFS"]
RFAULTS = ["EIO", "ESTALE", "ENOMEM"]


def write_faults(r, role="*"):
    x = r.random()
    if x < 0.15:
        return [{"op": "openw", "role": role, "act": r.choice(["EACCES", "ENOENT", "EMFILE", "EROFS", "ENOSPC"])}]
    if x < 0.55:
        return [{"op": "write", "role": role, "nth": r.randrange(1, 6), "act": r.choice(WFAULTS),
                 "part": r.choice([0, 1, 7, 100])}]
    if x < 0.7:
        return [{"op": "close", "role": role, "act": r.choice(["EIO", "ENOSPC", "EDQUOT"])}]
    if x < 0.9:
        return [{"op": "write", "role": role, "nth": r.randrange(1, 4), "times": r.choice([1, 5, 200]),
                 "act": "short", "len": r.choice([1, 3, 17, 500])}]
    return [{"op": "write", "role": role, "nth": r.randrange(1, 4), "act": "EINTR"}]


def read_faults(r, role="*"):
    x = r.random()
    if x < 0.2:
        return [{"op": "openr", "role": role, "nth": r.randrange(1, 4),
                 "act": r.choice(["EACCES", "ENOENT", "EMFILE", "EIO"])}]
    if x < 0.6:
        return [{"op": "read", "role": role, "nth": r.randrange(1, 8), "act": r.choice(RFAULTS)}]
    if x < 0.7:
        return [{"op": "seek", "role": role, "act": "EIO"}]
    if x < 0.95:
        return [{"op": "read", "role": role, "nth": r.randrange(1, 4), "times": r.choice([1, 5, 200]),
                 "act": "short", "len": r.choice([1, 3, 17, 500])}]
    return [{"op": "read", "role": role, "nth": r.randrange(1, 6), "act": "EINTR"}]


HARMLESS = ("short", "EINTR")


def hard(fired):
    """Did a fault fire that the operation cannot absorb?"""
    return [f for f in fired if f[2] not in HARMLESS]


def attempt(fn):
    """(value, None) or (None, exception); simulated crashes pass through."""
    try:
        return fn(), None
    except (SimCrash, Violation):
        raise
    except (Exception, KeyboardInterrupt) as e:
        return None, e


def exc_name(e):
    return type(e).__name__


def mutation(r, spice=0.25):
    x = r.random()
    if x < 0.5:
        return ["inc", r.randrange(0, 500), r.choice([1, 1, 2, 7, 1000, 2**31])]
    if x < 0.75:
        return ["bin", r.randrange(0, 200), gen.name(r, spice) + "_n%d" % r.randrange(1000),
                r.choice(["bin", "bin", "ign", "ill"]), gen.count(r)]
    if x < 0.85:
        return ["w", r.randrange(0, 100), gen.weight(r)]
    if x < 0.9:
        return ["gw", r.randrange(0, 100), gen.weight(r)]
    return ["hist", gen.hrec(r, spice)]


def chk(ctx, db, want, what):
    """Compare a loaded database with (model, hist); hist None = not compared."""
    M, H = want
    model.check_db(ctx.m, db, M, what)
    if H is not None:
        model.check_hist(ctx.m, db, H, what)

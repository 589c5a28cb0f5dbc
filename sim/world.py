"""The simulated host: disk, clock, zone, user, locale, process life cycle, interrupts.

One World is one simulated machine for one run.  It owns a real scratch directory, but every byte that
the code under test moves through open() passes a simulated raw device which injects the faults that the
run's plan asks for.  Nothing here draws random numbers: the plan decides everything.
"""
import builtins
import errno
import io
import os
import pwd
import shutil
import sys
import tempfile
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "ucis") + os.sep

import datetime as _dtmod
import _datetime as _cdt

REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open
REAL_DT = _dtmod.datetime
REAL_DATE = _dtmod.date
REAL_TIME = time.time
REAL_TIME_NS = time.time_ns
REAL_LOCALTIME = time.localtime
REAL_GMTIME = time.gmtime
REAL_STRFTIME = time.strftime
REAL_GETPWUID = pwd.getpwuid
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT,
         "EMFILE": errno.EMFILE, "EPIPE": errno.EPIPE, "EROFS": errno.EROFS, "EINTR": errno.EINTR,
         "EISDIR": errno.EISDIR, "ESTALE": errno.ESTALE, "ENOMEM": errno.ENOMEM, "EDQUOT": errno.EDQUOT}


class SimCrash(BaseException):
    """The simulated process died here."""


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


def make_exc(name):
    if name in ERRNO:
        return OSError(ERRNO[name], os.strerror(ERRNO[name]) + " (simulated)")
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("simulated")
    if name == "MemoryError":
        return MemoryError("simulated")
    if name == "crash":
        return SimCrash()
    raise ValueError(name)


def retried(call):
    """Like io.FileIO, which calls again when a signal interrupted the system call (PEP 475)."""
    def method(self, b):
        while True:
            try:
                return call(self, b)
            except InterruptedError:
                continue
    return method


class SimRaw(io.RawIOBase):
    """Raw device over a real file in the scratch directory (or a schema file of the package)."""

    def __init__(self, world, path, mode):
        super().__init__()
        self._w = world
        self._path = path
        self.name = path
        self._role = world.role(path)
        self._f = None
        self._f = io.FileIO(path, mode)
        self.mode = self._f.mode
        self._dead_at = world.epoch
        self._writable = self._f.writable()
        if self._writable:
            world.written.add(path)

    # -- helpers
    def _gone(self):
        return self._w.epoch != self._dead_at or self._w.dead

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    @retried
    def readinto(self, b):
        w = self._w
        if self._gone():
            return 0
        w.io_point()
        pos = self._f.tell()
        n = len(b)
        for flt in w.match("read", self._role, pos, n):
            act = flt["act"]
            if act == "eof":
                if "at" in flt:
                    n = max(0, min(n, flt["at"] - pos))
                    if n == 0:
                        return 0
                    continue
                return 0
            if act == "short":
                n = max(1, min(n, flt.get("len", 1)))
                continue
            if "at" in flt and flt["at"] > pos:
                # deliver the bytes before the bad sector first
                n = max(1, min(n, flt["at"] - pos))
                flt["_left"] += 1
                flt["_fired"] -= 1
                w.unfire(flt)
                continue
            raise w.fire_exc(flt)
        mv = memoryview(b)[:n]
        return self._f.readinto(mv)

    @retried
    def write(self, b):
        w = self._w
        n = len(b)
        if self._gone():
            return n          # the machine is down: nothing reaches the disk
        w.io_point()
        pos = self._f.tell()
        for flt in w.match("write", self._role, pos, n):
            act = flt["act"]
            if act == "short":
                n = max(1, min(n, flt.get("len", 1)))
                continue
            k = 0
            if "at" in flt:
                k = max(0, min(n, flt["at"] - pos))
            elif flt.get("part"):
                k = min(n, flt["part"])
            k = min(k, n - 1)
            if k > 0:
                self._f.write(memoryview(b)[:k])
                w.bytes_written += k
                if act != "crash":
                    # as in write(2): the bytes before the fault are reported as written, the next call fails
                    flt["part"] = 0
                    flt["_left"] += 1
                    flt["_fired"] -= 1
                    w.unfire(flt)
                    return k
            raise w.fire_exc(flt)
        k = self._f.write(memoryview(b)[:n])
        w.bytes_written += k
        return k

    def seek(self, pos, whence=0):
        if self._gone():
            return 0
        for flt in self._w.match("seek", self._role, 0, 0):
            raise self._w.fire_exc(flt)
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self._gone():
            return 0
        return self._f.truncate(size)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._f is not None:
                self._f.close()
        if not self._gone():
            for flt in self._w.match("close", self._role, 0, 0):
                raise self._w.fire_exc(flt)


class PipeRaw(io.RawIOBase):
    """Simulated stdout/stderr."""

    def __init__(self, world, role):
        super().__init__()
        self._w = world
        self._role = role
        self.data = bytearray()
        self.name = role

    def writable(self):
        return True

    @retried
    def write(self, b):
        w = self._w
        n = len(b)
        w.io_point()
        for flt in w.match("write", self._role, len(self.data), n):
            if flt["act"] == "short":
                n = max(1, min(n, flt.get("len", 1)))
                continue
            k = 0
            if "at" in flt:
                k = max(0, min(n - 1, flt["at"] - len(self.data)))
                self.data += bytes(memoryview(b)[:k])
                if k and flt["act"] != "crash":
                    flt["_left"] += 1
                    flt["_fired"] -= 1
                    w.unfire(flt)
                    return k
            raise w.fire_exc(flt)
        self.data += bytes(memoryview(b)[:n])
        return n


class World:
    def __init__(self, plan=None, root=None):
        plan = plan or {}
        env = plan.get("env", {})
        base = root or os.environ.get("VERIF_SCRATCH") or None
        self.dir = tempfile.mkdtemp(prefix="pyucis-sim-", dir=base)
        self.encoding = env.get("enc", "utf-8")
        self.tz = env.get("tz", "UTC")
        self.now = float(env.get("now", 1_700_000_000))
        self.user = env.get("user", "sim")
        self.bufsize = env.get("buf", 8192)
        self.chunk = env.get("chunk", 8192)
        self.umask = env.get("umask", None)
        self.epoch = 0
        self.dead = False
        self.faults = []
        self.fired = []              # (op, role, act) of faults that fired since arm()
        self.fault_counts = {}       # whole run
        self.handles = []            # (object, path, mode, where)
        self.written = set()
        self.bytes_written = 0
        self.sched = None
        self.mods = None
        self.sim_elapsed = 0.0
        self.restarts = 0
        self.log = []
        self._installed = False
        self._cwd = None
        self.stdout_closed = False
        self.stdout_enc = "utf-8"
        self.stdio_left = "in place"

    # ---------------------------------------------------------------- logging (never perturbs)
    def ev(self, *a):
        self.log.append(a)

    # ---------------------------------------------------------------- paths and roles
    def path(self, *p):
        return os.path.join(self.dir, *p)

    def role(self, path):
        if path.startswith(self.dir):
            return os.path.basename(path)
        return "schema:" + os.path.basename(path)

    def _ours(self, path):
        return path.startswith(self.dir + os.sep) or path.startswith(PKG)

    # ---------------------------------------------------------------- faults
    def arm(self, faults):
        self.faults = []
        for f in faults or []:
            f = dict(f)
            f.setdefault("nth", 1)
            f.setdefault("times", 1)
            f["_seen"] = 0
            f["_left"] = f["times"]
            f["_fired"] = 0
            self.faults.append(f)
        self.fired = []

    def disarm(self):
        fired = self.fired
        self.faults = []
        self.fired = []
        return fired

    def match(self, op, role, pos, n):
        """Faults that apply to this I/O event, in plan order; counts them as fired."""
        out = []
        for f in self.faults:
            if f["op"] != op or f["_left"] == 0:
                continue
            r = f.get("role", "*")
            if r != "*" and r != role:
                if r == "data":
                    if role.startswith("schema:") or role.startswith("<"):
                        continue
                elif r == "schema":
                    if not role.startswith("schema:"):
                        continue
                else:
                    continue
            f["_seen"] += 1
            if "at" in f and op in ("read", "write"):
                if not (f["at"] < pos + max(n, 1)):
                    continue
            elif f["_seen"] < f["nth"]:
                continue
            f["_left"] -= 1
            f["_fired"] += 1
            rec = (op, role, f["act"])
            self.fired.append(rec)
            key = "%s.%s" % (op, f["act"])
            self.fault_counts[key] = self.fault_counts.get(key, 0) + 1
            f["_rec"] = rec
            out.append(f)
        return out

    def unfire(self, f):
        if f.get("_rec") in self.fired:
            self.fired.remove(f["_rec"])
            key = "%s.%s" % (f["_rec"][0], f["_rec"][2])
            self.fault_counts[key] -= 1

    def fire_exc(self, f):
        if f["act"] == "crash":
            self.dead = True
        return make_exc(f["act"])

    def count_fault(self, key):
        self.fault_counts[key] = self.fault_counts.get(key, 0) + 1

    def io_point(self):
        s = self.sched
        if s is not None:
            s.io_point()

    # ---------------------------------------------------------------- open()
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        if not self._ours(path) or path.endswith((".py", ".pyc")):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline)
        if self.dead:
            raise SimCrash()
        binary = "b" in mode
        if binary and (encoding is not None or errors is not None or newline is not None):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline)   # let it complain
        self.io_point()
        role = self.role(path)
        wr = any(c in mode for c in "wax+")
        for flt in self.match("openw" if wr else "openr", role, 0, 0):
            raise self.fire_exc(flt)
        raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
        raw = SimRaw(self, path, raw_mode)
        obj = raw
        try:
            bs = self.bufsize if buffering in (-1, 1) else buffering
            if bs == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return self._track(raw, path, mode)
            if "+" in mode:
                obj = io.BufferedRandom(raw, bs)
            elif wr:
                obj = io.BufferedWriter(raw, bs)
            else:
                obj = io.BufferedReader(raw, bs)
            if not binary:
                enc = encoding
                if enc is None or enc == "locale":
                    enc = self.encoding
                obj = io.TextIOWrapper(obj, enc, errors, newline, buffering == 1)
                obj.mode = mode
                try:
                    obj._CHUNK_SIZE = self.chunk
                except Exception:
                    pass
        except BaseException:
            raw.close()
            raise
        return self._track(obj, path, mode)

    def _track(self, obj, path, mode):
        self.handles.append((obj, path, mode))
        return obj

    def open_handles(self):
        return [(p, m) for (o, p, m) in self.handles if not o.closed]

    # ---------------------------------------------------------------- clock
    def advance(self, dt):
        self.now += dt
        self.sim_elapsed += abs(dt)

    def _tick(self):
        return self.now

    # ---------------------------------------------------------------- install / uninstall
    def install(self):
        w = self

        class SimDateTime(REAL_DT):
            @classmethod
            def now(cls, tz=None):
                return cls._of(REAL_DT.fromtimestamp(w._tick(), tz))

            @classmethod
            def _of(cls, d):
                # CPython drops the fold when fromtimestamp() builds a subclass instance
                return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)

            @classmethod
            def fromtimestamp(cls, t, tz=None):
                return cls._of(REAL_DT.fromtimestamp(t, tz))

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(w._tick(), _dtmod.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls._of(REAL_DT.fromtimestamp(w._tick()))

        class SimDate(REAL_DATE):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(w._tick())

        SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
        SimDate.__name__ = SimDate.__qualname__ = "date"
        for m in (_dtmod, _cdt):
            m.datetime = SimDateTime
            m.date = SimDate
        time.time = lambda: w._tick()
        time.time_ns = lambda: int(w._tick() * 1e9)
        time.localtime = lambda s=None: REAL_LOCALTIME(w._tick() if s is None else s)
        time.gmtime = lambda s=None: REAL_GMTIME(w._tick() if s is None else s)
        time.strftime = lambda fmt, t=None: REAL_STRFTIME(fmt, REAL_LOCALTIME(w._tick()) if t is None else t)

        def getpwuid(uid):
            if w.user is None:
                raise KeyError("getpwuid(): uid not found: %d (simulated)" % uid)
            return REAL_GETPWUID(0)
        pwd.getpwuid = getpwuid
        self._env_saved = {k: os.environ.get(k) for k in ("TZ", "LOGNAME", "USER", "LNAME", "USERNAME")}
        self.set_user(self.user)
        self.set_tz(self.tz)
        builtins.open = self.sim_open
        io.open = self.sim_open
        self._cwd = os.getcwd()
        self.chdir(self.dir)
        self._installed = True
        self.fresh()

    def chdir(self, d):
        self.cwd = d
        os.chdir(d)

    def rel(self, name):
        """A path as the user types it: relative to the directory the user is in."""
        return os.path.relpath(self.path(name), self.cwd)

    def process_state(self):
        """What the process as a whole is set to, outside the package."""
        import decimal
        import gc
        import locale
        import signal
        mask = os.umask(0)
        os.umask(mask)
        return {"working directory": os.getcwd(), "environment": tuple(sorted(os.environ.items())), "umask": mask,
                "gc": gc.isenabled(), "recursion limit": sys.getrecursionlimit(),
                "locale": locale.setlocale(locale.LC_ALL), "decimal precision": decimal.getcontext().prec,
                "stdin": id(sys.stdin), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
                "standard streams after a command": self.stdio_left,
                "argv": tuple(sys.argv), "SIGINT": repr(signal.getsignal(signal.SIGINT)),
                "SIGPIPE": repr(signal.getsignal(signal.SIGPIPE))}

    def set_process_state(self, s, env):
        import gc
        import locale
        os.chdir(self.cwd)
        os.umask(s["umask"])
        self.stdio_left = s["standard streams after a command"]
        (gc.enable if s["gc"] else gc.disable)()
        sys.setrecursionlimit(s["recursion limit"])
        locale.setlocale(locale.LC_ALL, s["locale"])
        for k in [k for k in os.environ if k not in env]:
            del os.environ[k]
        os.environ.update(env)

    def set_tz(self, tz):
        self.tz = tz
        os.environ["TZ"] = tz
        time.tzset()

    def set_user(self, user):
        self.user = user
        for k in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            os.environ.pop(k, None)
        if user:
            os.environ["LOGNAME"] = user

    def uninstall(self):
        if not self._installed:
            return
        self._installed = False
        builtins.open = REAL_OPEN
        io.open = REAL_IO_OPEN
        for m in (_dtmod, _cdt):
            m.datetime = REAL_DT
            m.date = REAL_DATE
        time.time = REAL_TIME
        time.time_ns = REAL_TIME_NS
        time.localtime = REAL_LOCALTIME
        time.gmtime = REAL_GMTIME
        time.strftime = REAL_STRFTIME
        pwd.getpwuid = REAL_GETPWUID
        for k, v in self._env_saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()
        os.chdir(self._cwd)
        self.drop_handles()
        shutil.rmtree(self.dir, ignore_errors=True)

    def drop_handles(self):
        self.faults = []
        self.epoch += 1
        hs, self.handles = self.handles, []
        for o, p, m in hs:
            try:
                o.close()
            except BaseException:
                pass

    # ---------------------------------------------------------------- process life cycle
    def fresh(self):
        """(Re)load the package: a new process image, started in the host's working directory."""
        os.chdir(self.cwd)
        purge()
        self.mods = Mods()

    def restart(self, clean=True):
        """Process restart: memory is gone, files stay."""
        self.drop_handles()
        self.dead = False
        self.restarts += 1
        self.fresh()

    def crash_tail(self, tail):
        """After a crash: data that was never made durable may be lost or zeroed."""
        mode = tail.get("mode", "keep")
        for p in sorted(self.written):
            if not os.path.exists(p):
                continue
            size = os.path.getsize(p)
            cut = int(size * tail.get("frac", 1.0))
            if mode == "trunc":
                with REAL_OPEN(p, "r+b") as f:
                    f.truncate(cut)
            elif mode == "zero":
                with REAL_OPEN(p, "r+b") as f:
                    f.seek(cut)
                    f.write(b"\0" * (size - cut))
        self.count_fault("crash.tail-" + mode)

    def sync(self):
        """Everything written so far is durable."""
        self.written = set()

    # ---------------------------------------------------------------- raw file helpers for the harness
    def put(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf-8")
        with REAL_OPEN(self.path(name), "wb") as f:
            f.write(data)

    def get(self, name):
        with REAL_OPEN(self.path(name), "rb") as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def listing(self):
        out = {}
        for d, ds, fs in os.walk(self.dir):
            ds.sort()
            for n in sorted(ds):
                out[os.path.relpath(os.path.join(d, n), self.dir) + "/"] = b""
            for n in sorted(fs):
                p = os.path.join(d, n)
                with REAL_OPEN(p, "rb") as f:
                    out[os.path.relpath(p, self.dir)] = f.read()
        return out

    # ---------------------------------------------------------------- command line
    def cli(self, argv, fresh_process=False):
        """Run the command line in-process. Returns (rc, stdout, stderr)."""
        if fresh_process:
            self.restart()
        out_raw, err_raw = PipeRaw(self, "<stdout>"), PipeRaw(self, "<stderr>")
        out = io.TextIOWrapper(io.BufferedWriter(out_raw, self.bufsize), self.stdout_enc, line_buffering=False)
        err = io.TextIOWrapper(io.BufferedWriter(err_raw, 1024), "utf-8", errors="backslashreplace",
                               line_buffering=True)
        saved = (sys.argv, sys.stdout, sys.stderr)
        rc = 0
        import traceback
        try:
            sys.argv, sys.stdout, sys.stderr = ["ucis"] + list(argv), out, err
            try:
                main = self.mods.imp("ucis.__main__").main
                main()
            except SystemExit as e:
                c = e.code
                if c is None:
                    rc = 0
                elif isinstance(c, int):
                    rc = c & 0xFF
                else:
                    rc = 1
                    print(c, file=err)
            except KeyboardInterrupt:
                rc = 130
                traceback.print_exc(file=err)
            except Exception:
                rc = 1
                traceback.print_exc(file=err)
        finally:
            if sys.stdout is not out or sys.stderr is not err:
                self.stdio_left = "replaced"
            sys.argv, sys.stdout, sys.stderr = saved
        if out.closed:
            self.stdout_closed = True
        try:
            if not out.closed:
                out.flush()
        except OSError:
            if rc == 0:
                rc = 120
        try:
            err.flush()
        except (OSError, ValueError):
            pass
        so, se = bytes(out_raw.data), bytes(err_raw.data)
        for s in (out, err):
            try:
                s.close()
            except Exception:
                pass
        return rc, so.decode(self.stdout_enc, "replace"), se.decode("utf-8", "replace")


def purge():
    for k in [k for k in sys.modules if k == "ucis" or k.startswith("ucis.")]:
        del sys.modules[k]


class Mods:
    """Lazy handles on the public surface of the package, re-imported after each restart."""

    def imp(self, name):
        import importlib
        return importlib.import_module(name)

    def __getattr__(self, n):
        m = {
            "ucis": "ucis", "mem_factory": "ucis.mem.mem_factory", "xml_factory": "ucis.xml.xml_factory",
            "xml": "ucis.xml", "merge": "ucis.merge", "rgy": "ucis.rgy",
            "builder": "ucis.report.coverage_report_builder",
            "rpt_text": "ucis.report.format_rpt_text", "rpt_json": "ucis.report.format_rpt_json",
            "rpt_form": "ucis.report.text_coverage_report_formatter",
            "yaml_reader": "ucis.yaml.yaml_reader", "scope_t": "ucis.scope_type_t",
            "cover_t": "ucis.cover_type_t", "hnk": "ucis.history_node_kind",
            "tst": "ucis.test_status_t", "td": "ucis.test_data", "src": "ucis.source_info",
            "xml_reader": "ucis.xml.xml_reader", "xml_writer": "ucis.xml.xml_writer",
            "mem": "ucis.mem",
        }.get(n)
        if m is None:
            raise AttributeError(n)
        v = self.imp(m)
        setattr(self, n, v)
        return v


ALL_MODULES = [
    "ucis", "ucis.__main__", "ucis.mem.mem_factory", "ucis.xml.xml_factory", "ucis.xml.xml_ucis",
    "ucis.merge", "ucis.rgy", "ucis.report.coverage_report_builder", "ucis.report.format_rpt_text",
    "ucis.report.format_rpt_json", "ucis.report.text_coverage_report_formatter", "ucis.yaml.yaml_reader",
    "ucis.yaml.db_format_if_yaml", "ucis.lib.db_format_if_lib", "ucis.mem.mem_cross",
    "ucis.mem.mem_toggle_instance_scope", "ucis.cmd.cmd_merge", "ucis.cmd.cmd_convert",
    "ucis.cmd.cmd_report", "ucis.cmd.cmd_list_db_formats", "ucis.cmd.cmd_list_report_formats",
]


def import_all():
    """Import every module of the package (so that no import happens inside a simulated thread)."""
    import importlib
    import pkgutil
    pkg = importlib.import_module("ucis")
    for m in pkgutil.walk_packages(pkg.__path__, "ucis."):
        if m.name.endswith("__main__") or ".lib." in m.name:
            pass
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


class Interrupt:
    """Raise `exc` when the n-th traced source line of the package is about to execute.

    `only` restricts counting to files whose path below the package starts with one of the prefixes.
    Lines that are the head of a `with` statement are not interruption points: CPython takes no
    asynchronous exceptions between entering/leaving a context manager and its bookkeeping.
    """

    def __init__(self, world, n, exc, only=None):
        self.w, self.n, self.exc, self.only = world, n, exc, only
        self.count = 0
        self.fired = None
        self._files = {}
        self._withs = {}

    def _want(self, fn):
        r = self._files.get(fn)
        if r is None:
            r = fn.startswith(PKG)
            if r and self.only is not None:
                rel = fn[len(PKG):]
                r = any(rel.startswith(p) for p in self.only)
            self._files[fn] = r
        return r

    def _is_with(self, fn, line):
        t = self._withs.get(fn)
        if t is None:
            with REAL_OPEN(fn, "r", encoding="utf-8") as f:
                t = {i for i, l in enumerate(f, 1)
                     if l.lstrip().startswith(("with ", "finally", "except", "try"))}
            self._withs[fn] = t
        return line in t

    def _glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not self._want(fn):
            return None
        if frame.f_code.co_name == "<module>":
            return None
        return self._loc

    def _loc(self, frame, event, arg):
        if event == "line" and self.fired is None:
            fn = frame.f_code.co_filename
            if not self._is_with(fn, frame.f_lineno):
                self.count += 1
                if self.count == self.n:
                    self.fired = (fn[len(PKG):], frame.f_lineno)
                    self.w.count_fault("interrupt." + self.exc)
                    raise make_exc(self.exc)
        return self._loc

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False

"""
The simulated world: one integer seed, one virtual clock, one step counter, one fault plan.

Everything the code under test does to the outside (files, directories, SQLite's disk, sleeping, unique ids, thread
switches, remote services) goes through `W.io_step(...)`.  A step may be told to fail; after a simulated crash every
further step is dead, so nothing the "killed process" still executes (finally blocks, bare excepts, destructors) can
reach the simulated disk.
"""
import builtins
import collections
import errno
import gc
import hashlib
import io
import os
import random
import shutil
import sqlite3
import sys
import tempfile
import time
import uuid
import weakref

real_open = io.open
real_os_open = os.open
real_remove = os.remove
real_mkdir = os.mkdir
real_listdir = os.listdir
real_scandir = os.scandir
real_rmdir = os.rmdir
real_rename = os.rename
real_replace = os.replace
real_truncate = os.truncate
real_sleep = time.sleep
real_time = time.time
real_monotonic = time.monotonic
real_uuid4 = uuid.uuid4
real_sqlite_connect = sqlite3.connect


class SimCrash(BaseException):
    """the simulated process has been killed"""


class SimStuck(BaseException):
    """the run used up its step or simulated-time budget: no progress"""


class Violation(Exception):
    def __init__(self, kind, message):
        Exception.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


READ_STEPS = {"sqlite.open", "sqlite.read", "sqlite.lock", "file.openr", "file.read", "file.listdir"}
WRITE_STEPS = {"sqlite.write", "sqlite.sync", "sqlite.truncate", "sqlite.delete", "file.openw", "file.write",
               "file.close", "file.mkdir", "file.remove", "file.rename", "file.truncate"}


class Fault:
    """fails the at-th matching step (and, if sticky, the `sticky`-1 matching steps after it)"""

    def __init__(self, at, kind, cls="any", sticky=1, only=None, task=None):
        self.at, self.kind, self.cls, self.sticky, self.only, self.task = at, kind, cls, sticky, only, task
        self.seen = 0
        self.fired = 0

    def match(self, step):
        if self.task is not None and (W.sched is None or W.sched.current_name() != self.task):
            return False
        if self.only is not None:
            return step in self.only or step.split(".")[0] in self.only
        if self.kind in ("crash", "powerloss", "kill"):
            return True
        if self.kind == "busy":
            return step == "sqlite.lock"
        if self.kind in ("full", "torn", "short"):
            return step in ("sqlite.write", "file.write")
        if self.cls == "r":
            return step in READ_STEPS
        if self.cls == "w":
            return step in WRITE_STEPS
        return True

    def __repr__(self):
        return "%s@%s/%s x%s" % (self.kind, self.at, self.cls, self.sticky)


class World:
    def __init__(self):
        self.counters = collections.Counter()
        self.totals = collections.Counter()
        self.root = None
        self.base = None
        self.epoch = 0
        self.active = False
        self.crashed = False
        self.plan = []
        self.sched = None
        self.internal_errors = []
        self.conns = []
        self.reset(0)

    # -- life cycle of one run --------------------------------------------------------------------------------------
    def set_base(self, base):
        self.base = base

    def reset(self, seed):
        """start a new simulated run"""
        self.seed = seed
        self.rng_fault = random.Random("fault:%s" % seed)
        self.rng_misc = random.Random("misc:%s" % seed)
        self.now = 0.0
        self.nstep = 0
        self.crashed = False
        self.active = False
        self.plan = []
        self.sched = None
        self.fired = []
        self.digest = hashlib.sha256()
        self.events = []
        self.step_budget = 2000000
        self.time_budget = 10 ** 9
        self.bufsize = 8192
        self.internal_errors = []
        self.watch = None
        if self.base:
            self.wipe()
        random.seed(seed)
        np = sys.modules.get("numpy")
        if np is not None:
            np.random.seed(seed % (2 ** 32))

    def wipe(self):
        assert self.base and os.path.basename(os.path.dirname(self.base)).startswith("ticdat-sim-")
        self.kill_connections()
        shutil.rmtree(self.base, ignore_errors=True)
        real_mkdir(self.base)
        real_mkdir(os.path.join(self.base, "tmp"))
        self.root = os.path.join(self.base, "fs")
        real_mkdir(self.root)
        tempfile.tempdir = os.path.join(self.base, "tmp")

    def temp_dir(self):
        return os.path.join(self.base, "tmp")

    def path(self, *names):
        return os.path.join(self.root, *names)

    def count(self, what, n=1):
        self.counters[what] += n

    def kill_connections(self):
        """the process is gone: close every sqlite connection it still has, with all its I/O dead"""
        was = self.crashed
        self.crashed = True
        self.epoch += 1
        gc.collect()
        for ref in self.conns:
            con = ref()
            if con is not None:
                for c in list(con.__dict__.get("sim_cursors", ())):
                    try:
                        c.close()
                    except BaseException:
                        pass
                c = None
                try:
                    con.close()
                except BaseException:
                    pass
                con = None
        self.conns = []
        gc.collect()
        self.crashed = was
        from . import vfs
        vfs.DISK.restart()

    def restart(self, powerloss=False):
        """the machine comes back after a crash"""
        self.active = False
        self.plan = []
        self.crashed = True
        from . import vfs
        if powerloss:
            unsynced = vfs.DISK.unsynced
            vfs.DISK.unsynced = {}
            self.kill_connections()
            vfs.DISK.unsynced = unsynced
            vfs.DISK.power_loss(self.rng_fault, self.root)
            vfs.DISK.restart()
        else:
            self.kill_connections()
        self.crashed = False

    # -- steps --------------------------------------------------------------------------------------------------------
    def io_step(self, step, path="", injectable=True):
        if not self.active:
            return None
        if self.is_dead():
            return "dead"
        if self.sched is not None:
            self.sched.yield_point(step)
            if self.is_dead():
                return "dead"
        self.nstep += 1
        self.record(step, os.path.basename(path) if path else "")
        if self.watch is not None:
            self.watch(step, path)
        if self.nstep > self.step_budget:
            raise SimStuck("more than %s simulated steps" % self.step_budget)
        if not injectable:
            return None
        for f in self.plan:
            if f.match(step):
                f.seen += 1
                if f.at < f.seen <= f.at + f.sticky:
                    f.fired += 1
                    self.fired.append((f.kind, step))
                    self.count("fault:%s:%s" % (f.kind, step))
                    self.record("FAULT", f.kind)
                    if f.kind in ("crash", "powerloss"):
                        self.crashed = True
                        return "crash"
                    if f.kind == "kill":
                        self.sched.kill_current()
                        return "crash"
                    return f.kind
        return None

    def is_dead(self):
        """the process this code runs in has been killed (the whole machine, or just the calling task)"""
        return self.crashed or (self.sched is not None and self.sched.me_killed())

    def record(self, *what):
        self.digest.update(repr(what).encode())
        if len(self.events) < 40000:
            self.events.append(what)

    def sleep(self, seconds):
        if not self.active:
            return
        if self.is_dead():
            raise SimCrash()
        self.record("sleep", round(seconds, 6))
        if self.sched is not None and self.sched.in_task():
            self.sched.sleep(seconds)
        else:
            self.now += seconds
        self.totals["sim_seconds"] += seconds
        if self.now > self.time_budget:
            raise SimStuck("more than %s simulated seconds" % self.time_budget)

    def inside(self, p):
        try:
            p = os.path.abspath(os.fspath(p))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if self.root and (p == self.root or p.startswith(self.root + os.sep)):
            return p
        return None

    def sim(self, plan=()):
        return _Sim(self, plan)


class _Sim:
    """with W.sim(plan): the code under test runs with the seams live"""

    def __init__(self, w, plan):
        self.w, self.plan = w, list(plan)

    def __enter__(self):
        self.w.plan = self.plan
        self.w.active = True
        return self.w

    def __exit__(self, et, ev, tb):
        self.w.active = False
        return False


W = World()


def _raise(act, path, step):
    if act in ("crash", "dead"):
        raise SimCrash()
    if act == "full":
        raise OSError(errno.ENOSPC, "No space left on device (simulated)", path)
    if act == "perm":
        raise OSError(errno.EACCES, "Permission denied (simulated)", path)
    if act == "nofile":
        raise OSError(errno.EMFILE, "Too many open files (simulated)", path)
    raise OSError(errno.EIO, "Input/output error (simulated, %s)" % step, path)


class SimRaw(io.FileIO):
    """a raw file of the simulated file system: every transfer is a step that can fail, stop short or crash"""

    def __init__(self, path, mode):
        self._sim_writing = any(c in mode for c in "wax+")
        self._sim_path = path
        self._sim_ok = False
        self._sim_epoch = W.epoch
        self._sim_task = W.sched.me() if W.sched is not None else None
        step = "file.openw" if self._sim_writing else "file.openr"
        act = W.io_step(step, path)
        if act:
            _raise(act, path, step)
        io.FileIO.__init__(self, path, mode)
        self._sim_ok = True

    def _sim_alive(self):
        """the process that opened this file still exists (its destructors must not reach the disk otherwise)"""
        if W.crashed or self._sim_epoch != W.epoch or (self._sim_task is not None and self._sim_task.killed):
            raise SimCrash()

    def _step(self, step):
        self._sim_alive()
        act = W.io_step(step, self._sim_path)
        if act:
            _raise(act, self._sim_path, step)

    def readinto(self, b):
        self._step("file.read")
        return io.FileIO.readinto(self, b)

    def readall(self):
        self._step("file.read")
        return io.FileIO.readall(self)

    def read(self, n=-1):
        self._step("file.read")
        return io.FileIO.read(self, n)

    def write(self, b):
        self._sim_alive()
        act = W.io_step("file.write", self._sim_path)
        if act:
            if act in ("crash", "full", "short", "torn"):
                data = bytes(b)
                part = data[:W.rng_fault.randrange(0, len(data) + 1)] if data else b""
                if act == "short":
                    part = part or data[:1]
                    return io.FileIO.write(self, part)  # a legal partial write: the caller must carry on
                io.FileIO.write(self, part)
            _raise(act, self._sim_path, "file.write")
        return io.FileIO.write(self, b)

    def truncate(self, size=None):
        self._step("file.truncate")
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed or not self._sim_ok:
            return io.FileIO.close(self)
        act = None
        if self._sim_writing and W.active and not W.is_dead():
            act = W.io_step("file.close", self._sim_path)
        io.FileIO.close(self)
        if act:
            _raise(act, self._sim_path, "file.close")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = W.inside(file) if (W.active and opener is None and isinstance(file, (str, bytes, os.PathLike))) else None
    if p is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw = SimRaw(p, "".join(c for c in mode if c in "rwax+"))
    try:
        if binary and buffering == 0:
            return raw
        size = W.bufsize if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw._sim_writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except Exception:
        raw.close()
        raise


def _patched(step, real):
    def fn(path, *args, **kwargs):
        p = W.inside(path) if W.active and not isinstance(path, int) and not kwargs.get("dir_fd") else None
        if p is not None:
            act = W.io_step(step, p)
            if act:
                _raise(act, p, step)
        return real(path, *args, **kwargs)
    fn.__name__ = real.__name__
    return fn


_installed = []


def install():
    """put every seam in place. Must run before ticdat is imported"""
    if _installed:
        return
    _installed.append(True)
    assert "ticdat" not in sys.modules
    from . import vfs
    vfs.install()
    builtins.open = sim_open
    io.open = sim_open
    os.remove = _patched("file.remove", real_remove)
    os.unlink = os.remove
    os.mkdir = _patched("file.mkdir", real_mkdir)
    os.rmdir = _patched("file.remove", real_rmdir)
    os.rename = _patched("file.rename", real_rename)
    os.replace = _patched("file.rename", real_replace)
    os.truncate = _patched("file.truncate", real_truncate)

    def _listdir(path=".", *a):
        p = W.inside(path) if W.active and not isinstance(path, int) else None
        if p is not None:
            act = W.io_step("file.listdir", p)
            if act:
                _raise(act, p, "file.listdir")
            names = real_listdir(path)
            # the order in which a directory lists its entries is the file system's choice, i.e. ours
            names.sort()
            random.Random("%s:%s" % (W.seed, len(names))).shuffle(names)
            return names
        return real_listdir(path, *a)
    os.listdir = _listdir
    time.sleep = lambda s: W.sleep(s) if W.active else real_sleep(s)
    _real_t = time.time
    time.time = lambda: (1735689600.0 + W.now) if W.active else _real_t()
    uuid.uuid4 = lambda: uuid.UUID(int=W.rng_misc.getrandbits(128), version=4) if W.active else real_uuid4()

    real_connect = sqlite3.connect

    # SQLite serialises the users of one connection with a mutex: while one of them is inside, and parked by the scheduler at some
    # step of the simulated disk, the others wait for it in the simulation instead of blocking their thread
    def guarded(name, base, con_of):
        real = getattr(base, name)

        def method(self, *args, **kwargs):
            s = W.sched
            if s is None or not s.in_task():
                return real(self, *args, **kwargs)
            lock = con_of(self).sim_mutex()
            lock.acquire()
            try:
                return real(self, *args, **kwargs)
            finally:
                lock.release()
        method.__name__ = name
        return method

    # (adds the possibility of a weak reference; and closes by __del__, which, unlike a plain deallocation, has the exception under
    # way put aside: the callbacks of the simulated disk are Python code)
    class SimCursor(sqlite3.Cursor):
        def __del__(self):
            try:
                self.close()
            except BaseException:
                pass

    for name in ("execute", "executemany", "executescript", "fetchone", "fetchmany", "fetchall", "__next__"):
        setattr(SimCursor, name, guarded(name, sqlite3.Cursor, lambda c: c.connection))

    class SimConnection(sqlite3.Connection):
        def sim_mutex(self):
            lock = self.__dict__.get("sim_lock")
            if lock is None:
                from .sched import SimLock
                lock = self.__dict__["sim_lock"] = SimLock(True)
            return lock

        def cursor(self, factory=SimCursor):
            c = super().cursor(factory)
            self.__dict__.setdefault("sim_cursors", weakref.WeakSet()).add(c)
            return c

        def execute(self, *args):
            return self.cursor().execute(*args)

        def executemany(self, *args):
            return self.cursor().executemany(*args)

        def executescript(self, *args):
            return self.cursor().executescript(*args)

        def __del__(self):
            try:
                self.close()
            except BaseException:
                pass

    for name in ("commit", "rollback", "__exit__"):
        setattr(SimConnection, name, guarded(name, sqlite3.Connection, lambda c: c))

    def connect(*args, **kwargs):
        if W.active and W.is_dead():
            raise SimCrash()
        if "factory" not in kwargs and len(args) < 6:
            kwargs["factory"] = SimConnection
        con = real_connect(*args, **kwargs)
        try:
            W.conns.append(weakref.ref(con))
        except TypeError:
            pass
        if len(W.conns) > 64:
            W.conns = [r for r in W.conns if r() is not None]
        return con
    sqlite3.connect = connect
    sqlite3.dbapi2.connect = connect
    sys.unraisablehook = lambda *a: None
    try:    # an .xls file is read through the fault layer rather than mapped into memory
        import xlrd
    except ImportError:
        pass
    else:
        real_xls = xlrd.open_workbook

        def open_workbook(*args, **kwargs):
            kwargs["use_mmap"] = False
            return real_xls(*args, **kwargs)
        xlrd.open_workbook = open_workbook

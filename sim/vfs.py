"""
A simulated disk for SQLite.

The real SQLite library (the one CPython's _sqlite3 is linked against) is kept; only its operating-system layer is
replaced: this module registers, as SQLite's *default* VFS, one whose every callback runs in Python and is decided by
the simulator.  File contents live as ordinary files in a scratch directory (so os.path.exists etc. keep working) while
this layer records which writes have been synced, so that a simulated power loss can drop or tear the others.  Locks,
time, sleeping and randomness are entirely the simulator's.
"""
import ctypes
import os
from ctypes import (CFUNCTYPE, POINTER, Structure, c_char_p, c_double, c_int, c_int64, c_void_p, c_uint32, cast,
                    memmove, pointer, sizeof)

from . import world

SQLITE_OK, SQLITE_ERROR, SQLITE_BUSY, SQLITE_NOMEM, SQLITE_IOERR = 0, 1, 5, 7, 10
SQLITE_FULL, SQLITE_CANTOPEN, SQLITE_NOTFOUND = 13, 14, 12
IOERR_READ, IOERR_SHORT_READ = 10 | (1 << 8), 10 | (2 << 8)
IOERR_WRITE, IOERR_FSYNC, IOERR_TRUNCATE = 10 | (3 << 8), 10 | (4 << 8), 10 | (6 << 8)
IOERR_FSTAT, IOERR_DELETE, IOERR_LOCK, IOERR_DELETE_NOENT = 10 | (7 << 8), 10 | (10 << 8), 10 | (15 << 8), 10 | (23 << 8)

OPEN_READONLY, OPEN_CREATE, OPEN_DELETEONCLOSE = 0x1, 0x4, 0x8
SECTOR = 512


class IoMethods(Structure):
    pass


class SqFile(Structure):
    _fields_ = [("pMethods", POINTER(IoMethods)), ("fid", c_int64)]


PF = POINTER(SqFile)
F_close = CFUNCTYPE(c_int, PF)
F_read = CFUNCTYPE(c_int, PF, c_void_p, c_int, c_int64)
F_write = CFUNCTYPE(c_int, PF, c_void_p, c_int, c_int64)
F_truncate = CFUNCTYPE(c_int, PF, c_int64)
F_sync = CFUNCTYPE(c_int, PF, c_int)
F_size = CFUNCTYPE(c_int, PF, POINTER(c_int64))
F_lock = CFUNCTYPE(c_int, PF, c_int)
F_checkres = CFUNCTYPE(c_int, PF, POINTER(c_int))
F_control = CFUNCTYPE(c_int, PF, c_int, c_void_p)
F_int = CFUNCTYPE(c_int, PF)
IoMethods._fields_ = [("iVersion", c_int), ("xClose", F_close), ("xRead", F_read), ("xWrite", F_write),
                      ("xTruncate", F_truncate), ("xSync", F_sync), ("xFileSize", F_size), ("xLock", F_lock),
                      ("xUnlock", F_lock), ("xCheckReservedLock", F_checkres), ("xFileControl", F_control),
                      ("xSectorSize", F_int), ("xDeviceCharacteristics", F_int)]


class Vfs(Structure):
    pass


PV = POINTER(Vfs)
V_open = CFUNCTYPE(c_int, PV, c_void_p, PF, c_int, POINTER(c_int))
V_delete = CFUNCTYPE(c_int, PV, c_char_p, c_int)
V_access = CFUNCTYPE(c_int, PV, c_char_p, c_int, POINTER(c_int))
V_full = CFUNCTYPE(c_int, PV, c_char_p, c_int, c_void_p)
V_rand = CFUNCTYPE(c_int, PV, c_int, c_void_p)
V_sleep = CFUNCTYPE(c_int, PV, c_int)
V_time = CFUNCTYPE(c_int, PV, POINTER(c_double))
V_lasterr = CFUNCTYPE(c_int, PV, c_int, c_void_p)
V_time64 = CFUNCTYPE(c_int, PV, POINTER(c_int64))
Vfs._fields_ = [("iVersion", c_int), ("szOsFile", c_int), ("mxPathname", c_int), ("pNext", c_void_p),
                ("zName", c_char_p), ("pAppData", c_void_p), ("xOpen", V_open), ("xDelete", V_delete),
                ("xAccess", V_access), ("xFullPathname", V_full), ("xDlOpen", c_void_p), ("xDlError", c_void_p),
                ("xDlSym", c_void_p), ("xDlClose", c_void_p), ("xRandomness", V_rand), ("xSleep", V_sleep),
                ("xCurrentTime", V_time), ("xGetLastError", V_lasterr), ("xCurrentTimeInt64", V_time64)]


class _Open:
    __slots__ = ("path", "fd", "lock", "temp", "epoch", "owner")

    def __init__(self, path, fd, temp, epoch):
        self.owner = world.W.sched.me() if world.W.sched is not None else None
        self.path, self.fd, self.temp, self.lock, self.epoch = path, fd, temp, 0, epoch


class SimDisk:
    """the state of the simulated sqlite disk: open handles, locks, un-synced writes"""

    def __init__(self):
        self.handles = {}
        self.next_id = 1
        self.locks = {}      # path -> {fid: level}
        self.unsynced = {}   # path -> {"created": bool, "base": bytes|None, "log": [("w", off, data)|("t", size)]}
        self.epoch = 0       # bumped at each simulated restart: handles from before it are dead
        self.temp_n = 0

    def restart(self):
        self.epoch += 1
        self.locks.clear()
        self.unsynced.clear()

    def kill_owner(self, task):
        """one process is gone: its locks with it"""
        for fid, h in self.handles.items():
            if h.owner is task:
                self.locks.get(h.path, {}).pop(fid, None)

    # -- power loss -------------------------------------------------------------------------------------------------
    def power_loss(self, rng, scratch):
        """what survives: everything synced, and an arbitrary subset (possibly torn at sectors) of the rest"""
        w = world.W
        for path, u in sorted(self.unsynced.items()):
            if not path.startswith(scratch) or not u["log"] and not u["created"]:
                continue
            mode = rng.choice(["drop_all", "keep_all", "subset", "subset", "prefix", "torn"])
            if mode == "keep_all":
                continue
            if u["created"] and mode == "drop_all":
                try:
                    os.remove(path)
                except OSError:
                    pass
                w.count("power_loss:file_vanished")
                continue
            if not os.path.exists(path) and u["base"] is None:
                continue
            img = bytearray(u["base"] or b"")
            log = u["log"]
            keep_n = rng.randrange(len(log) + 1)
            for i, rec in enumerate(log):
                if mode == "drop_all":
                    continue
                if mode == "prefix" and i >= keep_n:
                    continue
                if mode in ("subset", "torn") and rng.random() < .4:
                    w.count("power_loss:lost_write")
                    continue
                if rec[0] == "t":
                    size = rec[1]
                    if size <= len(img):
                        del img[size:]
                    else:
                        img.extend(b"\0" * (size - len(img)))
                else:
                    off, data = rec[1], rec[2]
                    if mode == "torn" and len(data) > SECTOR and rng.random() < .5:
                        data = data[:SECTOR * rng.randrange(0, len(data) // SECTOR)]
                        w.count("power_loss:torn_write")
                    if off > len(img):
                        img.extend(b"\0" * (off - len(img)))
                    img[off:off + len(data)] = data
            with world.real_open(path, "wb") as f:
                f.write(bytes(img))


DISK = SimDisk()


def _log(path):
    u = DISK.unsynced.get(path)
    if u is None:
        base = None
        try:
            with world.real_open(path, "rb") as f:
                base = f.read()
        except OSError:
            pass
        u = DISK.unsynced[path] = {"created": False, "base": base, "log": []}
    return u


def _event(kind, path, n=0):
    """one simulated I/O step. returns None, or an error code to fail with"""
    w = world.W
    act = w.io_step("sqlite." + kind, path)
    return act


def _dead(h):
    return h is None or h.epoch != DISK.epoch or world.W.is_dead() or (h.owner is not None and h.owner.killed)


def _guard(default):
    def deco(fn):
        def wrapped(*args):
            try:
                return fn(*args)
            except BaseException as e:  # never let a Python exception reach C
                world.W.internal_errors.append("vfs %s: %r" % (fn.__name__, e))
                return default
        wrapped.__name__ = fn.__name__
        return wrapped
    return deco


@_guard(SQLITE_CANTOPEN)
def x_open(vfs, zname, pf, flags, pout):
    pf.contents.pMethods = POINTER(IoMethods)()
    w = world.W
    temp = not zname
    if temp:
        DISK.temp_n += 1
        path = os.path.join(w.temp_dir(), "sqlite_temp_%d" % DISK.temp_n)
    else:
        path = os.fsdecode(ctypes.string_at(zname))
    if not temp:
        act = _event("open", path)
        if act:
            return SQLITE_CANTOPEN
    exists = os.path.exists(path)
    oflags = os.O_RDONLY if (flags & OPEN_READONLY) else os.O_RDWR
    if flags & OPEN_CREATE:
        oflags |= os.O_CREAT
    try:
        fd = world.real_os_open(path, oflags, 0o644)
    except OSError:
        if not (flags & OPEN_READONLY):
            try:
                fd = world.real_os_open(path, os.O_RDONLY)
                flags = (flags & ~0x6) | OPEN_READONLY
            except OSError:
                return SQLITE_CANTOPEN
        else:
            return SQLITE_CANTOPEN
    if not exists and not temp:
        DISK.unsynced[path] = {"created": True, "base": None, "log": []}
    if temp or flags & OPEN_DELETEONCLOSE:
        temp = True
    fid = DISK.next_id
    DISK.next_id += 1
    DISK.handles[fid] = _Open(path, fd, temp, DISK.epoch)
    pf.contents.fid = fid
    pf.contents.pMethods = pointer(METHODS)
    if pout:
        pout[0] = flags
    return SQLITE_OK


@_guard(SQLITE_OK)
def x_close(pf):
    h = DISK.handles.pop(pf.contents.fid, None)
    if h:
        os.close(h.fd)
        DISK.locks.get(h.path, {}).pop(pf.contents.fid, None)
        if h.temp:
            try:
                os.remove(h.path)
            except OSError:
                pass
    return SQLITE_OK


@_guard(IOERR_READ)
def x_read(pf, buf, n, off):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_READ
    if not h.temp:
        act = _event("read", h.path)
        if act:
            return IOERR_READ
    data = os.pread(h.fd, n, off)
    if len(data) < n:
        memmove(buf, data + b"\0" * (n - len(data)), n)
        return IOERR_SHORT_READ
    memmove(buf, data, n)
    return SQLITE_OK


@_guard(IOERR_WRITE)
def x_write(pf, buf, n, off):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_WRITE
    data = ctypes.string_at(buf, n)
    if not h.temp:
        u = _log(h.path)
        act = _event("write", h.path)
        if act:
            if act in ("short", "torn", "crash") and n > SECTOR:
                part = data[:SECTOR * world.W.rng_fault.randrange(0, n // SECTOR)]
                if part:
                    os.pwrite(h.fd, part, off)
                    u["log"].append(("w", off, part))
            return SQLITE_FULL if act == "full" else IOERR_WRITE
        u["log"].append(("w", off, data))
    while data:
        k = os.pwrite(h.fd, data, off)
        data, off = data[k:], off + k
    return SQLITE_OK


@_guard(IOERR_TRUNCATE)
def x_truncate(pf, size):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_TRUNCATE
    if not h.temp:
        u = _log(h.path)
        act = _event("truncate", h.path)
        if act:
            return IOERR_TRUNCATE
        u["log"].append(("t", size))
    os.ftruncate(h.fd, size)
    return SQLITE_OK


@_guard(IOERR_FSYNC)
def x_sync(pf, flags):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_FSYNC
    if not h.temp:
        act = _event("sync", h.path)
        if act:
            return IOERR_FSYNC
        DISK.unsynced.pop(h.path, None)
    return SQLITE_OK


@_guard(IOERR_FSTAT)
def x_size(pf, psize):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_FSTAT
    psize[0] = os.fstat(h.fd).st_size
    return SQLITE_OK


NONE, SHARED, RESERVED, PENDING, EXCLUSIVE = range(5)


@_guard(IOERR_LOCK)
def x_lock(pf, level):
    fid = pf.contents.fid
    h = DISK.handles.get(fid)
    if _dead(h):
        return IOERR_LOCK
    act = _event("lock", h.path)
    if act == "busy":
        return SQLITE_BUSY
    if act:
        return IOERR_LOCK
    if h.lock >= level:
        return SQLITE_OK
    table = DISK.locks.setdefault(h.path, {})
    others = [lv for f, lv in table.items() if f != fid]
    if level == SHARED:
        if any(lv >= PENDING for lv in others):
            world.W.count("sqlite:lock_contention")
            return SQLITE_BUSY
    elif level == RESERVED:
        if any(lv >= RESERVED for lv in others):
            world.W.count("sqlite:lock_contention")
            return SQLITE_BUSY
    else:
        if any(lv >= RESERVED for lv in others):
            world.W.count("sqlite:lock_contention")
            return SQLITE_BUSY
        if any(lv >= SHARED for lv in others):
            table[fid] = h.lock = PENDING
            world.W.count("sqlite:lock_contention")
            return SQLITE_BUSY
    table[fid] = h.lock = level
    return SQLITE_OK


@_guard(SQLITE_OK)
def x_unlock(pf, level):
    fid = pf.contents.fid
    h = DISK.handles.get(fid)
    if h is None or h.epoch != DISK.epoch or (h.owner is not None and h.owner.killed):
        return SQLITE_OK
    world.W.io_step("sqlite.unlock", h.path, injectable=False)
    h.lock = level
    table = DISK.locks.setdefault(h.path, {})
    if level:
        table[fid] = level
    else:
        table.pop(fid, None)
    return SQLITE_OK


@_guard(SQLITE_OK)
def x_checkres(pf, pout):
    h = DISK.handles.get(pf.contents.fid)
    if _dead(h):
        return IOERR_LOCK
    pout[0] = int(any(lv >= RESERVED for lv in DISK.locks.get(h.path, {}).values()))
    return SQLITE_OK


x_control = _guard(SQLITE_NOTFOUND)(lambda pf, op, arg: SQLITE_NOTFOUND)
x_sector = _guard(SECTOR)(lambda pf: SECTOR)
x_devchar = _guard(0)(lambda pf: 0)


@_guard(IOERR_DELETE)
def x_delete(vfs, zname, syncdir):
    path = os.fsdecode(zname)
    if world.W.is_dead():
        return IOERR_DELETE
    act = _event("delete", path)
    if act:
        return IOERR_DELETE
    try:
        world.real_remove(path)
    except FileNotFoundError:
        return IOERR_DELETE_NOENT
    DISK.unsynced.pop(path, None)
    return SQLITE_OK


@_guard(SQLITE_OK)
def x_access(vfs, zname, flags, pout):
    path = os.fsdecode(zname)
    ok = os.path.exists(path)
    if ok and flags == 0 and os.path.isfile(path) and os.path.getsize(path) == 0:
        ok = False  # as SQLite's own unix VFS has it
    if ok and flags == 1:
        ok = os.access(path, os.R_OK | os.W_OK)
    pout[0] = int(ok)
    return SQLITE_OK


@_guard(SQLITE_CANTOPEN)
def x_full(vfs, zname, nout, out):
    p = os.fsencode(os.path.abspath(os.fsdecode(zname))) + b"\0"
    if len(p) > nout:
        return SQLITE_CANTOPEN
    memmove(out, p, len(p))
    return SQLITE_OK


@_guard(0)
def x_rand(vfs, n, out):
    data = bytes(world.W.rng_misc.getrandbits(8) for _ in range(n))
    memmove(out, data, n)
    return n


@_guard(0)
def x_sleep(vfs, us):
    if not world.W.is_dead():
        world.W.sleep(us / 1e6)
    return us


@_guard(SQLITE_OK)
def x_time(vfs, pout):
    pout[0] = 2460676.5 + world.W.now / 86400.0
    return SQLITE_OK


@_guard(SQLITE_OK)
def x_time64(vfs, pout):
    pout[0] = int((2460676.5 + world.W.now / 86400.0) * 86400000)
    return SQLITE_OK


x_lasterr = _guard(0)(lambda vfs, n, out: 0)

METHODS = IoMethods(1, F_close(x_close), F_read(x_read), F_write(x_write), F_truncate(x_truncate), F_sync(x_sync),
                    F_size(x_size), F_lock(x_lock), F_lock(x_unlock), F_checkres(x_checkres), F_control(x_control),
                    F_int(x_sector), F_int(x_devchar))
_VFS = None


def install():
    global _VFS
    if _VFS is not None:
        return
    import _sqlite3  # loads the library
    lib = ctypes.CDLL("libsqlite3.so.0")
    # the very library _sqlite3 uses must be the one we register with
    import sqlite3
    lib.sqlite3_libversion.restype = c_char_p
    assert lib.sqlite3_libversion().decode() == sqlite3.sqlite_version
    lib.sqlite3_vfs_register.argtypes = [PV, c_int]
    lib.sqlite3_vfs_register.restype = c_int
    _VFS = Vfs(2, sizeof(SqFile), 1024, None, b"simdisk", None, V_open(x_open), V_delete(x_delete),
               V_access(x_access), V_full(x_full), None, None, None, None, V_rand(x_rand), V_sleep(x_sleep),
               V_time(x_time), V_lasterr(x_lasterr), V_time64(x_time64))
    rc = lib.sqlite3_vfs_register(ctypes.byref(_VFS), 1)
    assert rc == 0, rc
    # sqlite's own PRNG has been or will be seeded through x_rand; reset it so that it is
    lib.sqlite3_randomness.argtypes = [c_int, c_void_p]
    lib.sqlite3_randomness(0, None)
    _VFS_lib.append(lib)


_VFS_lib = []


def reseed():
    """make sqlite draw a new PRNG seed (through x_rand) at its next use"""
    _VFS_lib[0].sqlite3_randomness(0, None)

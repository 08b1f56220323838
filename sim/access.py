"""
A stand-in for `pyodbc` with Microsoft's Access driver behind it (neither is available on Linux).

The database file is an SQLite file with a mark of its own; the statements ticdat sends are executed by SQLite, in strict
tables.  What is modelled of pyodbc: connections start transactions by themselves, `with connection` and `with cursor` commit
(or, for a connection, roll back) at the end without closing, a connection that is dropped or closed rolls back, rows are
fetched eagerly.  Every driver call (connect, execute, fetch, commit, close, catalog) is a step that can fail; after a failed
commit step of kind `late` the transaction has been committed all the same.
"""
import os
import re
import sqlite3
import sys
import types
import urllib.parse
import weakref

from . import world
from .world import W, SimCrash

MARK = 20071


def _sqlite(path, **kw):
    """SQLite on the real file system: the engine's own I/O is not part of the simulation"""
    return world.real_sqlite_connect("file:%s?vfs=unix" % urllib.parse.quote(path), uri=True, **kw)


class Error(Exception):
    pass


class DatabaseError(Error):
    pass


class ProgrammingError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class DataError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


def _step(what, path):
    act = W.io_step("odbc." + what, path)
    if act in ("crash", "dead"):
        raise SimCrash()
    if act == "late":
        return act
    if act == "busy2":
        raise OperationalError("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Could not lock file. (-1302) (simulated)")
    if act == "full":
        raise Error("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Not enough space on disk. (simulated)")
    if act:
        raise Error("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Disk or network error. (simulated)")
    return None


def _translated(e):
    s = str(e)
    if "no such table" in s:
        return ProgrammingError("42S02", "[42S02] The Microsoft Access database engine cannot find the input table or query. (-1305) "
                                "(%s)" % s)
    if isinstance(e, sqlite3.IntegrityError):
        if "cannot store" in s:
            return DataError("22018", "[22018] Data type mismatch in criteria expression. (%s)" % s)
        return IntegrityError("23000", "[23000] The changes were not successful: duplicate or null values. (%s)" % s)
    if "already exists" in s:
        return ProgrammingError("42S01", "[42S01] Table already exists. (%s)" % s)
    if "locked" in s:
        return OperationalError("HY000", "[HY000] Could not lock file. (%s)" % s)
    if "no such column" in s or "has no column" in s or "binding" in s.lower():
        return ProgrammingError("07002", "[07002] Too few parameters. (%s)" % s)
    return ProgrammingError("42000", "[42000] Syntax error. (%s)" % s)


_TYPES = {"double": "REAL", "float": "REAL", "number": "REAL", "int": "INT", "integer": "INT", "long": "INT", "text": "TEXT",
          "varchar": "TEXT", "memo": "TEXT"}


def _jet(sql):
    """Access' data definition, as SQLite's"""
    if not re.match(r"\s*create\s+table\b", sql, re.I):
        return sql
    head, body = sql.split("(", 1)
    body = re.sub(r"(\[[^\]]*\])|\b(%s)\b(\s*\(\s*\d+\s*\))?" % "|".join(_TYPES),
                  lambda m: m.group(1) or _TYPES[m.group(2).lower()], body, flags=re.I)
    return head + "(" + body.rstrip().rstrip(";") + " STRICT"


class Row(tuple):
    def __getattr__(self, name):
        try:
            return self[("table_cat", "table_schem", "table_name", "table_type", "remarks").index(name)]
        except ValueError:
            raise AttributeError(name)


class Cursor:
    arraysize = 1

    def __init__(self, con):
        self.connection = con
        self._rows = iter(())
        self.description = None
        self.rowcount = -1
        self._closed = False

    def execute(self, sql, *params):
        con = self.connection
        con._check()
        if self._closed:
            raise ProgrammingError("HY000", "The cursor's connection has been closed.")
        if len(params) == 1 and isinstance(params[0], (list, tuple, Row)):
            params = tuple(params[0])
        for p in params:
            if not (p is None or isinstance(p, (int, float, str, bytes)) or hasattr(p, "item")):
                raise ProgrammingError("HY105", "Invalid parameter type. param-type=%s" % type(p).__name__)
            if isinstance(p, float) and (p != p or p in (float("inf"), -float("inf"))):
                raise DataError("22003", "[22003] Numeric value out of range (%r)" % p)
        params = tuple(p.item() if hasattr(p, "item") else p for p in params)
        _step("execute", con.path)
        self._rows, self.description = iter(()), None
        if not re.match(r"\s*select\b", sql, re.I):
            con._begin()
        try:
            cur = con._raw.execute(_jet(sql), params)
            if cur.description:
                rows = cur.fetchall()
                self.description = [(d[0], str, None, None, None, None, True) for d in cur.description]
                self._rows = iter([Row(r) for r in rows])
            self.rowcount = cur.rowcount
            cur.close()
        except sqlite3.Error as e:
            raise _translated(e) from None
        return self

    def executemany(self, sql, seq):
        for params in seq:
            self.execute(sql, tuple(params))

    def _fetch(self):
        self.connection._check()
        _step("fetch", self.connection.path)

    def fetchall(self):
        self._fetch()
        return list(self._rows)

    def fetchone(self):
        self._fetch()
        return next(self._rows, None)

    def fetchmany(self, size=1):
        self._fetch()
        return [r for r, _ in zip(self._rows, range(size))]

    fetchval = lambda self: (self.fetchone() or (None,))[0]

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def tables(self, table=None, catalog=None, schema=None, tableType=None):
        self.connection._check()
        _step("catalog", self.connection.path)
        names = [r[0] for r in self.connection._raw.execute("select name from sqlite_master where type='table' order by name")]
        rows = [Row((self.connection.path, None, n, "TABLE", None)) for n in names]
        rows.insert(0, Row((self.connection.path, None, "MSysObjects", "SYSTEM TABLE", None)))
        if table is not None:
            pat = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in table)
            rows = [r for r in rows if re.fullmatch(pat, r[2], re.I | re.S)]
        if tableType is not None:
            rows = [r for r in rows if r[3] in tableType.upper().split(",")]
        self._rows = iter(rows)
        self.description = [(n, str, None, None, None, None, True) for n in
                            ("table_cat", "table_schem", "table_name", "table_type", "remarks")]
        return self

    def columns(self, table=None, catalog=None, schema=None, column=None):
        self.connection._check()
        _step("catalog", self.connection.path)
        rows = self.connection._raw.execute("pragma table_info([%s])" % table).fetchall()
        self._rows = iter([Row((self.connection.path, None, table, r[1], r[2])) for r in rows])
        self.description = [(n, str, None, None, None, None, True) for n in
                            ("table_cat", "table_schem", "table_name", "column_name", "type_name")]
        return self

    def commit(self):
        self.connection.commit()

    def rollback(self):
        self.connection.rollback()

    def close(self):
        self._closed = True
        self._rows = iter(())

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.connection.commit()
        return False


class Connection:
    def __init__(self, path, autocommit=False):
        self.path, self.autocommit = path, autocommit
        self._raw = None
        self._epoch = W.epoch
        _step("connect", path)
        if not os.path.isfile(path):
            raise Error("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Could not find file '%s'. (-1811)" % path)
        with world.real_open(path, "rb") as f:
            if f.read(15) != b"SQLite format 3":
                raise Error("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Unrecognized database format '%s'. (-1206)" % path)
        self._raw = _sqlite(path, isolation_level=None, timeout=0)
        self._in = False
        try:
            ok = self._raw.execute("pragma user_version").fetchone()[0] == MARK
            self._raw.execute("pragma journal_mode=memory")
            self._raw.execute("pragma synchronous=off")
        except sqlite3.DatabaseError:
            ok = False
        if not ok:
            self._raw.close()
            self._raw = None
            raise Error("HY000", "[HY000] [Microsoft][ODBC Microsoft Access Driver] Unrecognized database format '%s'. (-1206)" % path)
        LIVE.add(self)

    def _check(self):
        if self._epoch != W.epoch:
            raise SimCrash()
        if self._raw is None:
            raise ProgrammingError("HY000", "Attempt to use a closed connection.")

    def _begin(self):
        if not self._in and not self.autocommit:
            try:
                self._raw.execute("begin immediate")
            except sqlite3.Error as e:
                raise _translated(e) from None
            self._in = True

    def cursor(self):
        self._check()
        return Cursor(self)

    def execute(self, sql, *params):
        return self.cursor().execute(sql, *params)

    def commit(self):
        self._check()
        act = _step("commit", self.path) if self._in else None
        if self._in:
            self._in = False
            self._raw.execute("commit")
        if act == "late":
            raise Error("08S01", "[08S01] Communication link failure (simulated, after the commit)")

    def rollback(self):
        self._check()
        if self._in:
            self._in = False
            self._raw.execute("rollback")

    def close(self):
        """no step of its own: what was not committed is gone"""
        if self._raw is not None:
            if self._in:
                self._in = False
                self._raw.execute("rollback")
            self._raw.close()
            self._raw = None
        LIVE.discard(self)

    def __del__(self):
        self.close()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        elif not issubclass(et, SimCrash) and not W.crashed:
            self.rollback()
        return False


LIVE = weakref.WeakSet()


def drop_all():
    """the process is gone, and with it every transaction that was open"""
    for con in list(LIVE):
        con.close()


def connect(connstring, autocommit=False, timeout=0, **kw):
    if W.crashed:
        raise SimCrash()
    m = re.fullmatch(r"\s*Driver=\{+Microsoft Access Driver \(\*\.mdb, \*\.accdb\)\}+;\s*DBQ=(.*?);?\s*", connstring, re.I | re.S)
    if not m:
        raise Error("IM002", "[IM002] [Microsoft][ODBC Driver Manager] Data source name not found and no default driver specified")
    return Connection(m.group(1), autocommit)


def make_blank(path):
    con = _sqlite(path)
    con.execute("pragma user_version=%d" % MARK)
    con.commit()
    con.close()


def raw(path):
    """{table: rows} as found on disk"""
    con = _sqlite(path)
    try:
        names = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        return {n: ([d[0] for d in con.execute("select * from [%s]" % n).description],
                    sorted((tuple(r) for r in con.execute("select * from [%s]" % n)), key=repr)) for n in names}
    finally:
        con.close()


def install():
    m = types.ModuleType("pyodbc")
    for k in ("Error", "DatabaseError", "ProgrammingError", "IntegrityError", "DataError", "OperationalError", "Connection", "Cursor",
              "Row", "connect"):
        setattr(m, k, globals()[k])
    m.InterfaceError = Error
    m.Binary = bytes
    m.version = "5.0.0"
    m.paramstyle, m.apilevel, m.threadsafety = "qmark", "2.0", 1
    m.drivers = lambda: ["Microsoft Access Driver (*.mdb, *.accdb)"]
    sys.modules["pyodbc"] = m

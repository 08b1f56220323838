"""
A PostgreSQL server as the client libraries see it: sessions, transactions (aborted ones refuse everything until rollback), types,
constraints, information_schema, and connections that fail, are lost before or after the server acted, or die with their process.

psycopg2's execute_values, SQLAlchemy's PostgreSQL dialect and pandas run for real above it; the SQL is evaluated by in-memory SQLite
databases, one set per transaction (a snapshot of what is committed).
"""
import datetime
import decimal
import re
import sqlite3

from . import world
from .world import W, SimCrash, SimStuck

READS = {"pg.connect", "pg.execute", "pg.fetch"}
NO_OP = re.compile(r"\s*(set|lock table|analyze|vacuum|comment on|discard|deallocate)\b", re.I)
BIND = re.compile(r"%%|%\((\w+)\)s|%s")


def _errs():
    import psycopg2
    import psycopg2.errors
    return psycopg2


class Server:
    def __init__(self, schemas=("s1",)):
        self.schemas = list(schemas)
        self.sessions = []
        self.serial = 0
        self.version = 1
        con = self._open()
        for n in self.names():
            con.execute("create table [%s].[_nothing_] (x)" % n)
        con.executescript("create table information_schema.schemata (schema_name text);"
                          "create table information_schema.tables (table_schema text, table_name text, table_type text);"
                          "create table information_schema.columns (table_schema text, table_name text, column_name text, data_type text,"
                          "                                         ordinal_position int);"
                          "create table pg_catalog.pg_namespace (oid int, nspname text);"
                          "create table pg_catalog.pg_class (oid int, relname text, relnamespace int, relkind text);")
        for n in ("public", "information_schema", "pg_catalog"):
            con.execute("insert into information_schema.schemata values (?)", (n,))
        self.committed = {n: con.serialize(name=n) for n in self.names()}
        con.close()

    def names(self):
        return self.schemas + ["public", "information_schema", "pg_catalog"]

    def _open(self):
        con = world.real_sqlite_connect(":memory:", isolation_level=None, detect_types=sqlite3.PARSE_DECLTYPES,
                                        check_same_thread=False, factory=sqlite3.Connection)
        for n in self.names():
            con.execute("attach ':memory:' as [%s]" % n)
        con.execute("pragma foreign_keys = on")
        con.create_function("pg_ok", 2, pg_ok)
        con.create_function("pg_table_is_visible", 1, lambda oid: 0)
        con.create_function("current_schema", 0, lambda: "public")
        return con

    def connect(self):
        act = W.io_step("pg.connect")
        if act in ("crash", "crash after", "dead"):
            raise SimCrash()
        if act:
            raise _errs().OperationalError("could not connect to server: Connection refused (simulated, %s)" % act)
        c = Connection(self)
        self.sessions.append(c)
        return c

    def client_died(self):
        """the process that held the connections is gone: their transactions are rolled back"""
        for c in self.sessions:
            c.kill()
        self.sessions = []

    def defaults(self, schema):
        """{table: {column: its default}}"""
        con = self._open()
        try:
            for n, b in self.committed.items():
                con.deserialize(b, name=n)
            rtn = {}
            for (t,) in con.execute("select name from [%s].sqlite_master where type='table' and name <> '_nothing_'" % schema).fetchall():
                rtn[t] = {}
                for c in con.execute("pragma [%s].table_info([%s])" % (schema, t)).fetchall():
                    v = c[4]
                    if v is not None:
                        v = con.execute("select " + v).fetchone()[0]
                        if isinstance(v, str) and c[2].lower() in ("float", "integer"):
                            v = float(v)
                    rtn[t][c[1]] = v
            return rtn
        finally:
            con.close()

    def peek(self):
        """a look at what is committed, by the harness: {schema: {table: [rows]}}"""
        con = self._open()
        try:
            for n, b in self.committed.items():
                con.deserialize(b, name=n)
            rtn = {}
            for n in self.schemas + ["public"]:
                rtn[n] = {}
                for (t,) in con.execute("select name from [%s].sqlite_master where type='table' and name <> '_nothing_'" % n).fetchall():
                    cur = con.execute("select * from [%s].[%s]" % (n, t))
                    rtn[n][t] = ([x[0] for x in cur.description], cur.fetchall())
            return rtn
        finally:
            con.close()


def pg_ok(v, typ):
    if v is None:
        return 1
    typ = typ.lower()
    if typ in ("text", "varchar"):
        return int(not isinstance(v, bytes))
    if typ in ("float", "double precision", "numeric", "real"):
        try:
            float(v)
            return 1
        except (TypeError, ValueError):
            return 0
    if typ in ("integer", "int", "bigint"):
        return int(isinstance(v, int) or isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v))
    if typ in ("bool", "boolean"):
        return int(v in (0, 1))
    if typ in ("timestamp", "date"):
        try:
            datetime.datetime.fromisoformat(v)
            return 1
        except (TypeError, ValueError):
            return 0
    return 1


def check_defaults(sql):
    """the defaults of a create table statement have to be literals of the type of their column"""
    for typ, dflt in re.findall(r"(\w+)(?: not null)? default ('(?:[^']|'')*'(?!')|\S+?)\s*(?=,\s*\n|\s*\)|\s+not null|$)", sql, re.I):
        typ = typ.lower()
        if dflt.startswith("'") and dflt.endswith("'") and len(dflt) > 1:
            v = dflt[1:-1].replace("''", "'")
            if typ in ("float", "double", "real", "numeric", "integer", "int", "bigint"):
                try:
                    float(v) if typ not in ("integer", "int", "bigint") else int(v)
                except ValueError:
                    raise _errs().errors.InvalidTextRepresentation("invalid input syntax for type %s: %r" % (typ, v))
        elif dflt.lower() in ("null",):
            pass
        elif dflt.lower() in ("true", "false"):
            if typ not in ("bool", "boolean", "text"):
                raise _errs().errors.DatatypeMismatch("column is of type %s but default expression is of type boolean" % typ)
        elif re.match(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?$", dflt, re.I):
            if typ in ("bool", "boolean", "timestamp", "date", "bytea"):
                raise _errs().errors.DatatypeMismatch("column is of type %s but default expression is numeric" % typ)
        else:
            raise _errs().errors.FeatureNotSupported("cannot use column reference in DEFAULT expression (%s)" % dflt)
    if len(re.findall(r"\bdefault\b", sql, re.I)) != len(re.findall(r"\bdefault (?:'(?:[^']|'')*'(?!')|[^\s',]+)\s*(?:,\s*\n|\)|not null)", sql, re.I)):
        raise _errs().errors.SyntaxError("syntax error in a DEFAULT clause: " + sql[:300])


def _ts(b):
    return datetime.datetime.fromisoformat(b.decode())


sqlite3.register_converter("timestamp", _ts)
sqlite3.register_converter("boolean", lambda b: b not in (b"0", b"0.0"))
sqlite3.register_converter("bool", lambda b: b not in (b"0", b"0.0"))


class Connection:
    def __init__(self, server):
        self.server = server
        self.closed = 0
        self.autocommit = False
        self.isolation_level = None
        self.encoding = "UTF8"
        self.notices = []
        self.dsn = "simulated"
        self._con = None          # the transaction's snapshot, if there is one
        self._con_version = None
        self._in_txn = self._dirty = self._aborted = False
        self._params, self._n = {}, 0
        self._epoch = W.epoch

    # -- the wire -------------------------------------------------------------------------------------------------------
    def _step(self, step):
        """-> (fault to be raised before the server acts, fault after it acted)"""
        e = _errs()
        if self._epoch != W.epoch or W.is_dead():
            raise SimCrash()
        if self.closed:
            raise e.InterfaceError("connection already closed")
        act = W.io_step(step)
        if act is None:
            return None
        if act in ("crash", "dead"):
            self.kill()
            raise SimCrash()
        if act == "lost":
            self.kill()
            raise e.OperationalError("server closed the connection unexpectedly (simulated, before %s)" % step)
        if act in ("lost after", "crash after"):
            return act
        if step == "pg.rollback":
            return None               # (only a lost connection keeps a rollback from happening)
        self._abort()
        if act == "full":
            raise e.errors.DiskFull("could not extend file: No space left on device (simulated)")
        if act == "busy":
            raise e.errors.DeadlockDetected("deadlock detected (simulated)")
        if act == "cancel":
            raise e.errors.QueryCanceled("canceling statement due to statement timeout (simulated)")
        raise e.errors.IoError("could not read block 0: Input/output error (simulated)")

    def _after(self, act, step):
        if act == "lost after":
            self.kill()
            raise _errs().OperationalError("server closed the connection unexpectedly (simulated, after %s)" % step)
        if act == "crash after":
            self.kill()
            W.crashed = True
            raise SimCrash()

    def _abort(self):
        if self._in_txn:
            self._aborted = True

    def kill(self):
        """the session ends; what it had not committed is gone"""
        if not self.closed:
            self.closed = 2
            self._end()

    def _end(self):
        self._in_txn = self._dirty = self._aborted = False
        self._params = {}
        if self._con is not None:
            if self._con.in_transaction:
                self._con.execute("rollback")

    # -- transactions -----------------------------------------------------------------------------------------------------
    def _begin(self):
        if self._in_txn:
            return
        if self._con is None:
            self._con = self.server._open()
        if self._con_version != self.server.version:
            for n, b in self.server.committed.items():
                self._con.deserialize(b, name=n)
            self._con_version = self.server.version
        self._con.execute("begin")
        self._in_txn, self._dirty, self._aborted = True, False, False

    def commit(self):
        act = self._step("pg.commit")
        self._commit()
        self._after(act, "pg.commit")

    def _commit(self):
        if self._in_txn and not self._aborted and self._dirty:
            self._con.execute("commit")
            self.server.committed = {n: self._con.serialize(name=n) for n in self.server.names()}
            self.server.version += 1
            self._con_version = self.server.version
        self._end()

    def rollback(self):
        act = self._step("pg.rollback")
        self._end()
        self._after(act, "pg.rollback")

    def close(self):
        if not self.closed:
            self.closed = 1
            self._end()
        if self._con is not None:
            self._con.close()
            self._con = None

    def cursor(self, name=None, *a, **k):
        if self.closed:
            raise _errs().InterfaceError("connection already closed")
        return Cursor(self)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.rollback()

    def set_client_encoding(self, enc):
        pass

    def set_isolation_level(self, level):
        self.isolation_level = level
        self.autocommit = level == 0

    def set_session(self, isolation_level=None, readonly=None, deferrable=None, autocommit=None):
        if autocommit is not None:
            self.autocommit = autocommit

    def get_transaction_status(self):
        return 4 if self.closed else 3 if self._aborted else 2 if self._in_txn else 0

    def get_parameter_status(self, name):
        return {"server_version": "14.5", "standard_conforming_strings": "on"}.get(name)

    # -- statements ---------------------------------------------------------------------------------------------------------
    def _bind(self, sql, args):
        """the statement with its parameters replaced by names of stored values"""
        if isinstance(sql, bytes):
            sql = sql.decode()
        if args is None:
            return sql
        pos = [0]

        def one(m):
            if m.group(0) == "%%":
                return "%"
            if m.group(1):
                v = args[m.group(1)]
            else:
                v = args[pos[0]]
                pos[0] += 1
            self._n += 1
            self._params["v%d" % self._n] = adapt(v)
            return ":v%d" % self._n
        return BIND.sub(one, sql)

    def _run(self, sql):
        """-> (columns, rows, row count)"""
        e = _errs()
        sql = re.sub(r"\bpg_catalog\.(\w+)\s*\(", r"\1(", sql)
        low = " ".join(sql.lower().split()).rstrip(";")
        if low in ("begin", "start transaction"):
            self._begin()
            return None, [], -1
        if low in ("commit", "end"):
            self._commit()
            return None, [], -1
        if low in ("rollback", "abort"):
            self._end()
            return None, [], -1
        if self._aborted and not low.startswith("rollback to"):
            raise e.errors.InFailedSqlTransaction("current transaction is aborted, commands ignored until end of transaction block")
        self._begin()
        try:
            rtn = self._statement(sql, low)
            if low.startswith("rollback to"):
                self._aborted = False
        except sqlite3.Error as x:
            self._abort()
            raise self._translate(x, sql)
        except e.Error:
            self._abort()
            raise
        if self.autocommit:
            self._commit()
        return rtn

    def _translate(self, x, sql):
        e, m = _errs().errors, str(x)
        if "FOREIGN KEY" in m:
            return e.ForeignKeyViolation("insert, update or delete on table violates foreign key constraint")
        if "UNIQUE" in m:
            return e.UniqueViolation("duplicate key value violates unique constraint (%s)" % m)
        if "NOT NULL" in m:
            return e.NotNullViolation("null value in column violates not-null constraint (%s)" % m)
        if "invalid input" in m:
            return e.InvalidTextRepresentation(m)
        if "no such table" in m:
            return e.UndefinedTable("relation does not exist (%s)" % m)
        if "no such column" in m or "has no column" in m:
            return e.UndefinedColumn("column does not exist (%s)" % m)
        if "already exists" in m:
            return e.DuplicateTable(m)
        if isinstance(x, sqlite3.IntegrityError):
            return e.IntegrityConstraintViolation(m)
        W.internal_errors.append("statement not understood: %s (%s)" % (sql[:200], m))
        return e.SyntaxError(m)

    def _statement(self, sql, low):
        e, con = _errs(), self._con
        if NO_OP.match(sql):
            return None, [], -1
        if low == "select version()":
            return ["version"], [("PostgreSQL 14.5 on x86_64-pc-linux-gnu, compiled by gcc, 64-bit",)], 1
        if low.startswith("show "):
            return [low[5:]], [({"standard_conforming_strings": "on", "transaction isolation level": "read committed"}.get(low[5:], "on"),)], 1
        if low.startswith(("select", "with", "values", "table ")):
            cur = con.execute(sql, self._used(sql))
            return [x[0] for x in cur.description], cur.fetchall(), -1
        if low.startswith(("savepoint", "release", "rollback to")):
            con.execute(sql)
            return None, [], -1
        self._take_write()
        m = re.match(r"create schema (?:if not exists )?\"?(\w+)\"?$", low)
        if m:
            n = m.group(1)
            if n not in self.server.schemas:
                raise AssertionError("a schema the simulator was not told of: %s" % n)
            if con.execute("select 1 from information_schema.schemata where schema_name=?", (n,)).fetchone():
                if "if not exists" in low:
                    return None, [], -1
                raise e.errors.DuplicateSchema("schema \"%s\" already exists" % n)
            con.execute("insert into information_schema.schemata values (?)", (n,))
            con.execute("insert into pg_catalog.pg_namespace values (?, ?)", (self.server.schemas.index(n) + 1000, n))
            return None, [], -1
        m = re.match(r"\s*create table (?:if not exists )?\"?(\w+)\"?\.\"?(\w+)\"?", sql, re.I)
        if m:
            s, t = m.group(1), m.group(2)
            self._need_schema(s)
            check_defaults(sql)
            con.execute(re.sub(r"(references\s+)\"?%s\"?\." % s, r"\1", sql, flags=re.I))
            cols = con.execute("pragma [%s].table_info([%s])" % (s, t)).fetchall()
            con.execute("create trigger [%s].[check_%s] before insert on [%s] begin %s end" % (s, t, t, " ".join(
                "select raise(abort, 'invalid input syntax for type %s') where not pg_ok(new.[%s], '%s');" % (c[2].lower(), c[1], c[2])
                for c in cols)))
            con.execute("insert into information_schema.tables values (?, ?, 'BASE TABLE')", (s, t))
            for c in cols:
                con.execute("insert into information_schema.columns values (?, ?, ?, ?, ?)", (s, t, c[1], c[2], c[0] + 1))
            n = con.execute("select count(*) from pg_catalog.pg_class").fetchone()[0]
            con.execute("insert into pg_catalog.pg_class values (?, ?, (select oid from pg_catalog.pg_namespace where nspname=?), 'r')",
                        (n + 5000, t, s))
            return None, [], -1
        m = re.match(r"truncate (?:table )?(?:only )?(.*?)( restart identity| continue identity)?( cascade| restrict)?$", low)
        if m:
            names = [x.strip().replace('"', "").split(".") for x in m.group(1).split(",")]
            cascade = (m.group(3) or "").strip() == "cascade"
            known = {tuple(x) for x in names}
            todo = list(names)
            while todo:
                s, t = todo.pop()
                self._need_schema(s)
                if not con.execute("select 1 from [%s].sqlite_master where name=?" % s, (t,)).fetchone():
                    raise e.errors.UndefinedTable("relation \"%s.%s\" does not exist" % (s, t))
                for (other,) in con.execute("select name from [%s].sqlite_master where type='table'" % s).fetchall():
                    if (s, other) in known:
                        continue
                    if any(k[2] == t for k in con.execute("pragma [%s].foreign_key_list([%s])" % (s, other)).fetchall()):
                        if not cascade:
                            raise e.errors.FeatureNotSupported("cannot truncate a table referenced in a foreign key constraint\n"
                                                               "DETAIL:  Table \"%s\" references \"%s\"." % (other, t))
                        known.add((s, other))
                        todo.append([s, other])
            con.execute("pragma defer_foreign_keys = on")
            for s, t in sorted(known):
                con.execute("delete from [%s].[%s]" % (s, t))
            con.execute("pragma defer_foreign_keys = off")
            return None, [], -1
        m = re.match(r"alter table (\w+)\.(\w+) add column (\w+) (\w+)", low)
        if m:
            con.execute(sql)
            s, t, c, typ = m.groups()
            con.execute("insert into information_schema.columns values (?, ?, ?, ?, 99)", (s, t, c, typ))
            return None, [], -1
        if low.startswith("drop "):
            raise AssertionError("not simulated: " + sql[:80])
        cur = con.execute(sql, self._used(sql))
        return ([x[0] for x in cur.description] if cur.description else None), (cur.fetchall() if cur.description else []), cur.rowcount

    def _need_schema(self, s):
        if not self._con.execute("select 1 from information_schema.schemata where schema_name=?", (s,)).fetchone():
            raise _errs().errors.InvalidSchemaName("schema \"%s\" does not exist" % s)

    def _take_write(self):
        for c in self.server.sessions:
            if c is not self and c._dirty and not c.closed:
                raise SimStuck("a session waits for ever for the locks of another one of the same process")
        self._dirty = True

    def _used(self, sql):
        return {k: self._params[k] for k in re.findall(r":(v\d+)\b", sql) if k in self._params}


def adapt(v):
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v + 0
    if isinstance(v, decimal.Decimal):
        return float(v)
    if isinstance(v, datetime.datetime):
        if v != v:
            return "NaT"
        return datetime.datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond).isoformat(" ")
    if isinstance(v, datetime.date):
        return v.isoformat()
    raise _errs().ProgrammingError("can't adapt type '%s'" % type(v).__name__)


class Cursor:
    arraysize = 1
    itersize = 2000
    name = None

    def __init__(self, connection):
        self.connection = connection
        self.description, self.rowcount, self.lastrowid, self.query, self.statusmessage = None, -1, 0, None, ""
        self._rows, self._at, self.closed = [], 0, False

    def mogrify(self, sql, args=None):
        return self.connection._bind(sql, args).encode()

    def execute(self, sql, args=None):
        con = self.connection
        act = con._step("pg.execute")
        was, W.active = W.active, False
        try:
            try:
                cols, self._rows, self.rowcount = con._run(con._bind(sql, args))
            except AssertionError as x:
                W.internal_errors.append(str(x))
                raise
        finally:
            W.active = was
        self._at = 0
        self.description = None if cols is None else [(c, None, None, None, None, None, None) for c in cols]
        if cols is not None:
            self.rowcount = len(self._rows)
        con._after(act, "pg.execute")

    def executemany(self, sql, seq):
        for args in seq:
            self.execute(sql, args)

    def _fetch(self, n):
        if self.description is None:
            raise _errs().ProgrammingError("no results to fetch")
        act = self.connection._step("pg.fetch")
        rtn = self._rows[self._at:] if n is None else self._rows[self._at:self._at + n]
        self._at += len(rtn)
        self.connection._after(act, "pg.fetch")
        return rtn

    def fetchone(self):
        rtn = self._fetch(1)
        return rtn[0] if rtn else None

    def fetchmany(self, n=None):
        return self._fetch(n or self.arraysize)

    def fetchall(self):
        return self._fetch(None)

    def __iter__(self):
        while True:
            r = self.fetchone()
            if r is None:
                return
            yield r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

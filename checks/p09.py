"""
PostgreSQL: writes that are acknowledged are complete and committed, writes that fail surface and leave whole tables, reads give
everything or raise - whatever the server or the connection does at any statement, fetch or commit.
"""
from sim import pg
from .common import *
from .formats import Fmt

RENAME_T = {"Arcs": "arcs", "Zed_Yx": "zed_yx"}
RENAME_F = {"from": "source", "To": "Dest.", "Order": "Order Nr", "group": "grp"}
SQL_TYPE = {"int": "integer", "float": "float", "inf": "float", "null": "float", "text": "text", "zip": "text", "ntext": "text",
            "bool": "boolean", "dt": "timestamp"}
PG = {pan: Fmt("pg", pan, "", None, None, kinds=tuple(SQL_TYPE), pk_kinds=("int", "text", "zip", "float"),
               texts=[t for t in gen.TEXTS]) for pan in (False, True)}
STMT = ["pg.connect", "pg.execute", "pg.commit"]
KINDS = ["eio", "eio", "full", "busy", "cancel", "lost", "lost", "lost after", "lost after", "crash", "crash after"]


def renamed(s):
    t_ = lambda t: RENAME_T.get(t, t)
    f_ = lambda f: RENAME_F.get(f, f)
    s["tables"] = [[t_(t), [f_(x) for x in p], [f_(x) for x in d]] for t, p, d in s["tables"]]
    s["types"] = [[t_(t), f_(f), kw] for t, f, kw in s["types"]]
    s["defaults"] = [[t_(t), f_(f), v] for t, f, v in s["defaults"]]
    s["fks"] = [[t_(a), t_(b), [[f_(x), f_(y)] for x, y in m]] for a, b, m in s["fks"]]
    s["kinds"] = {"%s|%s" % (t_(k.split("|")[0]), f_(k.split("|")[1])): v for k, v in s["kinds"].items()}
    return s


class CallbackBoom(Exception):
    pass


class P09(Check):
    ID = "P09"

    def gen(self, rng, r):
        pan = rng.random() < .4
        fm = PG[pan]
        s = renamed(fm.gen_case(rng, fk_prob=.7) if rng.random() < .88 else fm.gen_case(rng, n_tables=rng.choice([5, 6]), fk_prob=1, chain=True))
        s["generators"] = []
        case = {"pan": pan, "schema": s, "mode": rng.choice(["conn", "conn", "conn", "engine", "legacy"]), "dsn": None, "active": [],
                "plain": rng.random() < .2, "missing": None, "schema_fault": None, "rounds": []}
        if not pan and rng.random() < .4:
            case["dsn"] = rng.choice(["dict", "text"])
        if rng.random() < .25:
            case["active"] = [t for t, p, d in s["tables"] if rng.random() < .7]
        if rng.random() < .15:
            case["schema_fault"] = rand_faults(rng, 1, KINDS)[0]
        cand = [t for t, p, d in s["tables"] if not any(x[1] == t for x in s["fks"])]
        if len(s["tables"]) > 1 and cand and rng.random() < .12:
            case["missing"] = rng.choice(cand)
        case["natural"] = [[t, x] for t, p, d in s["tables"] for x in p + d if self.natural(s, t, x) and rng.random() < .5] \
            if rng.random() < .6 else []
        for x in s["defaults"]:
            k = s["kinds"]["%s|%s" % (x[0], x[1])]
            if x[0] == "parameters" or rng.random() < .7:
                continue
            if k == "inf":
                x[2] = gen.enc(float("inf") if rng.random() < .7 else 4)
            elif k in ("text", "ntext", "zip"):
                x[2] = rng.choice(["it's", "a 'quoted' one", "x", "12", "50%", ":a b", "null", "(x, y)"])
            elif k == "bool":
                x[2] = True
        n = rng.choice([2, 3, 3, 4])
        for i in range(n):
            what = "write" if i == 0 or rng.random() < .65 else rng.choice(["read", "read", "dups"])
            rd = {"what": what, "faults": [dict(f, only=rng.choice([STMT, STMT, STMT, ["pg"], ["pg.commit"], ["pg.rollback"]]))
                                         for f in rand_faults(rng, 0 if i == 0 else 5, KINDS, sticky=(1, 1, 1, 3, 1000))]}
            for x in rd["faults"]:
                if x["only"] == ["pg.rollback"]:
                    x["kind"] = rng.choice(["lost", "lost after", "crash"])
            if what == "write":
                rd["data"] = fm.gen_data(rng, s, max_rows=rng.choice([3, 8, 8, 120 if case["dsn"] else 12]), min_rows=rng.choice([0, 0, 2]))
                if i and rng.random() < .15:
                    rd["data"] = gen.gen_data(rng, s, fm.prof, max_rows=8, good_fk=False)
                rd["pre"] = {t: rng.choice(["append", "append", "delete"]) for t, p, d in s["tables"] if rng.random() < .5} \
                    if rng.random() < .5 else {}
                rd["collide"] = rng.random() < .3
                if pan and rng.random() < .3:
                    rd["progress"] = rng.choice([None, ["go"] * rng.randrange(4) + [rng.choice(["stop", "stop", "raise"])], ["go"] * 9])
                    rd["managers"] = {t: rng.choice(["ok", "ok", "enter", "exit"]) for t, p, d in s["tables"] if rng.random() < .4}
            else:
                rd["freeze"] = rng.random() < .2
                if pan:
                    rd["what"] = "read"
            case["rounds"].append(rd)
        return case

    # ---- the parties ----------------------------------------------------------------------------------------------------
    def setup(self):
        import psycopg2
        import psycopg2.extras
        import sqlalchemy
        self.sa = sqlalchemy
        psycopg2.connect = lambda *a, **k: self.server.connect()

    def client(self, case, fn, plan=(), mode=None):
        """one process that connects, does one thing and - if that raised - rolls back"""
        mode = mode or case["mode"]

        def go():
            eng = self.sa.create_engine("postgresql+psycopg2://", creator=lambda: self.server.connect(), use_native_hstore=False,
                                        use_native_uuid=False, future=mode == "conn")
            con = eng if mode == "engine" else eng.connect()
            try:
                try:
                    return fn(con)
                except Exception:
                    if mode == "conn" and not W.is_dead():
                        try:
                            con.rollback()
                        except Exception:
                            pass
                    raise
            finally:
                if not W.is_dead():
                    try:
                        if mode != "engine":
                            con.close()
                        eng.dispose()
                    except Exception:
                        pass
        o = call(go, plan)
        if o.error is not None:
            o.error = o.error.with_traceback(None)
            o.error.__context__ = o.error.__cause__ = None
        W.plan = []
        self.server.client_died()
        if o.status == "crashed":
            W.restart()
        return o

    def must(self, what, case, fn, mode=None):
        o = self.client(case, fn, (), mode)
        if not o.ok:
            raise Violation("unexpected-failure", "%s failed although no fault was injected: %s" % (what, o))
        return o.value

    def factory(self, s, pan):
        return gen.build_factory(s, PanDatFactory if pan else TicDatFactory)

    def natural(self, s, t, x):
        """does the type that is derived from the schema fit what the generator puts into the column?"""
        if t == "parameters" or any([t, x] in ([a, y], [b, z]) for a, b, m in s["fks"] for y, z in m):
            return False
        kw = [k for a, b, k in s["types"] if (a, b) == (t, x)]
        pk = [x in p for a, p, d in s["tables"] if a == t][0]
        if not kw:
            typ = "text" if pk else "float"
        elif kw[0].get("datetime"):
            typ = "timestamp"
        elif kw[0].get("number_allowed", True) and kw[0].get("strings_allowed"):
            return False
        elif kw[0].get("strings_allowed"):
            typ = "text"
        else:
            typ = "integer" if kw[0].get("must_be_int") else "float"
        want = SQL_TYPE[s["kinds"][t + "|" + x]]
        return typ == want or (typ, want) == ("float", "integer")

    def forced(self, s, natural=()):
        return {(t, f): SQL_TYPE[s["kinds"][t + "|" + f].replace("fk:", "")] for t, p, d in s["tables"] for f in p + d
                if not (t == "parameters" and s["params"]) and [t, f] not in natural}

    def state(self, case):
        """what the tables hold, active or not, as anybody else sees it"""
        s = case["schema"]
        out = {}
        raw = self.server.peek()["s1"]
        have = self.must("reading the tables", case, lambda con: PG[True].rows(self.factory(s, True).pgsql.create_pan_dat(con, "s1"), s), "engine")
        for t, p, d in s["tables"]:
            n = len(raw.get(t, ([], []))[1])
            if n != len(have[t]):
                raise Violation("lost-rows", "table %s holds %s rows, %s are read" % (t, n, len(have[t])))
            out[t] = sorted(have[t], key=repr)
        return out

    # ---- the run ----------------------------------------------------------------------------------------------------------
    def run(self, case):
        pan, s = case["pan"], case["schema"]
        fm = PG[pan]
        f = self.factory(s, pan)
        self.server = pg.Server(["s1", "s2"])
        feats = [pan, case["mode"], case["dsn"], case["plain"]]
        with_schema = f
        if case["missing"]:
            import copy
            s2 = copy.deepcopy(s)
            s2["tables"] = [x for x in s2["tables"] if x[0] != case["missing"]]
            for k in ("types", "defaults", "fks"):
                s2[k] = [x for x in s2[k] if x[0] != case["missing"]]
            if case["missing"] == "parameters":
                s2["params"] = []
            with_schema = self.factory(s2, pan)
            forced = self.forced(s2, case["natural"])
        else:
            forced = self.forced(s, case["natural"])
        make = lambda con: with_schema.pgsql.write_schema(con, "s1", forced_field_types=forced, include_ancillary_info=not case["plain"])
        if case["schema_fault"] and case["mode"] == "conn":
            n0 = W.nstep
            self.must("writing the schema", case, make)
            n = W.nstep - n0
            done = self.server.committed
            self.server = pg.Server(["s1", "s2"])
            fl = faults_of({"faults": [dict(case["schema_fault"], only=["pg"])]}, n)[0]
            o = self.client(case, make, [fl])
            if fl.fired:
                feats.append(("schema", fl.kind, o.status))
                have = set(self.server.peek()["s1"])
                if have not in (set(), set(with_schema.all_tables)) or o.ok and not have:
                    raise Violation("partial-schema", "%s during write_schema left %s (%s)" % (fl.kind, sorted(have), o))
            self.server = pg.Server(["s1", "s2"])
        self.must("writing the schema", case, make)
        self.check_defaults(case, s)
        self.extras(case, s)
        others = self.others(case)
        mdl = {t: [] for t, p, d in s["tables"]}
        for k, rd in enumerate(case["rounds"]):
            if rd["what"] == "write":
                mdl = self.write(case, rd, f, s, mdl, k, feats)
            else:
                self.read(case, rd, f, s, mdl, k, feats)
            if self.others(case) != others:
                raise Violation("touched", "round %d changed a table that is none of the schema's" % k)
        return tuple(map(repr, feats))

    def check_defaults(self, case, s):
        """the defaults of the schema are those of the columns"""
        raw, fd = self.server.peek()["s1"], self.server.defaults("s1")
        for t, p, d in s["tables"]:
            if t == case["missing"] or t == "parameters" and s["params"]:
                continue
            dv = {x[1]: gen.dec(x[2]) for x in s["defaults"] if x[0] == t}
            for i, x in enumerate(d):
                kind = s["kinds"][t + "|" + x].replace("fk:", "")
                if kind == "dt" or dv.get(x) in ("", None):
                    continue
                have = fd[t][raw[t][0][len(p) + i]]
                want = dv[x]
                if isinstance(want, float) and abs(want) == float("inf"):
                    if s["flag"] is None:
                        ok = have in (None, want)
                    elif isinstance(s["flag"], (int, float)):
                        ok = have == (s["flag"] if want > 0 else -s["flag"])
                    else:
                        ok = have == want
                else:
                    ok = have == want
                if not ok:
                    raise Violation("wrong-default", "the default of %s.%s is %r in the schema, %r in the database" % (t, x, want, have))

    def extras(self, case, s):
        """what else is in the database"""
        def go(con):
            ex = lambda q: con.execute(self.sa.text(q))
            ex("create table s1.other_things (a text, b float)")
            ex("insert into s1.other_things values ('x', 1.5), ('y', null)")
            ex("create schema s2")
            for t, p, d in s["tables"]:
                ex("create table s2.%s (a text)" % t)
                ex("insert into s2.%s values ('kept')" % t)
            for t in case["active"]:
                if t != case["missing"]:
                    ex("alter table s1.%s add column is_on boolean" % t)
        self.must("preparing the database", case, go, "engine")

    def others(self, case):
        raw = self.server.peek()
        return {"s2": raw["s2"], "public": raw["public"], "s1": {t: v for t, v in raw["s1"].items()
                                                                 if t not in [x[0] for x in case["schema"]["tables"]]}}

    # ---- writing ------------------------------------------------------------------------------------------------------------
    def plan_write(self, case, rd, s, mdl):
        """(rows to be written, base per table, whether the server has to refuse it)"""
        new = gen.rows_of_data(s, self.data_of(case, rd, s, mdl))
        pre = {t: rd["pre"].get(t, "delete") for t, p, d in s["tables"]}
        base = {t: [] if pre[t] == "delete" else mdl[t] for t, p, d in s["tables"]}
        bad = False
        if not case["plain"]:
            final = {t: list(base[t]) + list(new[t]) for t in base}
            for t, p, d in s["tables"]:
                keys = [row[:len(p)] for row in final[t]]
                if p and len(set(keys)) < len(keys):
                    bad = True
            for n, ft, m in s["fks"]:
                ns, fs = [self.col(s, n, x) for x, y in m], [self.col(s, ft, y) for x, y in m]
                refers = lambda row: all(row[i] is not None for i in ns)
                pool = {tuple(row[i] for i in fs) for row in final[ft]}
                if any(refers(row) and tuple(row[i] for i in ns) not in pool for row in final[n]):
                    bad = True
                if pre[ft] == "delete" and pre[n] == "append" and any(map(refers, mdl[n])):
                    bad = True
        return new, base, bad

    def col(self, s, t, f):
        p, d = [(p, d) for x, p, d in s["tables"] if x == t][0]
        return (p + d).index(f)

    def data_of(self, case, rd, s, mdl):
        """(mostly without the keys that are there already)"""
        if rd["collide"]:
            return rd["data"]
        rtn = {}
        for t, p, d in s["tables"]:
            rows = rd["data"].get(t, [])
            if p and rd["pre"].get(t) == "append":
                have = {row[:len(p)] for row in mdl[t]}
                rows = [x for x in rows if tuple(gen.canon(gen.dec(v)) for v in x[:len(p)]) not in have]
            rtn[t] = rows
        return rtn

    def write(self, case, rd, f, s, mdl, k, feats):
        pan, fm = case["pan"], PG[case["pan"]]
        act = "is_on" if case["active"] else ""
        when = "round %d: writing (%s%s%s)" % (k, case["mode"], ", dsn" if case["dsn"] else "", ", " + repr(rd["pre"]) if rd["pre"] else "")
        log = []

        def write(con):
            kw = {}
            del log[:]
            if pan:
                if rd.get("progress"):
                    kw["progress"] = self.progress(rd["progress"], log)
                if rd.get("managers"):
                    kw["table_specific_context_manager"] = {t: self.manager(t, how, log) for t, how in rd["managers"].items()}
            elif case["dsn"]:
                kw["dsn"] = {"host": "simulated"} if case["dsn"] == "dict" else "host=simulated"
            f.pgsql.write_data(fm.build(f, s, self.data_of(case, rd, s, mdl)), con, "s1", pre_existing_rows=rd["pre"] or None,
                               active_fld=act, **kw)
        new, base, bad = self.plan_write(case, rd, s, mdl)
        img = self.server.committed
        e0 = len(W.events)
        o = self.client(case, write)
        kinds = [x for x in steps_since(e0) if x.startswith("pg.")]
        mdl2 = self.after(case, rd, s, mdl, new, base, bad, o, when, False, log)
        feats.append(("write", o.status, bad, bool(rd["pre"])))
        W.count("write " + ("refused by the server" if not o.ok else "acknowledged"))
        end = self.server.committed
        for flt in rd["faults"]:
            self.set_state(img)
            fl, n = self.place(flt, kinds)
            o = self.client(case, write, [fl])
            if not fl.fired:
                continue
            w2 = "%s with %s at step %d of %d (%s)" % (when, fl.kind, fl.at, n, W.fired[-1][1])
            cur = self.after(case, rd, s, mdl, new, base, bad, o, w2, True, log)
            feats.append((fl.kind, W.fired[-1][1], o.status))
            if o.ok or rd.get("progress") or rd.get("managers"):
                continue
            # once more, without faults
            pre = {t: rd["pre"].get(t, "delete") for t, p, d in s["tables"]}
            if any(pre[t] == "append" and cur[t] != sorted(mdl[t], key=repr) for t in cur) or case["missing"]:
                W.count("not repeated: the rows may be there")
                continue
            new2, base2, bad2 = self.plan_write(case, dict(rd, data=self.data_of(case, rd, s, mdl), collide=True), s, cur)
            o = self.client(case, write)
            self.after(case, rd, s, cur, new2, base2, bad2, o, w2 + ", then repeated", False, log)
            W.count("repeated")
        self.set_state(end)
        return mdl2

    def place(self, flt, kinds):
        probe = world.Fault(0, flt["kind"], "any", 1, flt["only"])
        n = sum(1 for x in kinds if probe.match(x))
        return faults_of({"faults": [flt]}, n)[0], n

    def set_state(self, img):
        if self.server.committed is not img:
            self.server.committed = img
            self.server.version += 1

    def after(self, case, rd, s, mdl, new, base, bad, o, when, faulted, log):
        """check the state a write left and how it ended; returns the state"""
        if case["missing"]:
            if o.ok:
                raise Violation("not-refused", "%s: table %s is missing, but the write returned normally" % (when, case["missing"]))
            got = self.state(case)
            if got != {t: sorted(r, key=repr) for t, r in mdl.items()}:
                raise Violation("refused-but-changed", "%s: %s" % (when, gen.diff(mdl, got)))
            return got
        got = self.state(case)
        srt = lambda rows: sorted(rows, key=repr)
        old = {t: srt(r) for t, r in mdl.items()}
        emptied = {t: srt(base[t]) for t in old}
        full = {t: srt(list(base[t]) + list(new[t])) for t in old}
        stopped = any(x in ("stop", "raise") for x in log) or any(x[0] == "boom" for x in log)
        if o.ok:
            if bad and not stopped:
                raise Violation("not-raised", "%s: the data breaks the constraints, but the write returned normally" % when)
            if any(x == "raise" for x in log) or any(x[0] == "boom" for x in log):
                raise Violation("not-raised", "%s: a callback raised, but the write returned normally" % when)
            if not stopped:
                if got != full:
                    raise Violation("incomplete", "%s returned normally: %s" % (when, gen.diff(full, got)))
                if rd.get("progress") and len([x for x in log if x == "go"]) < min(len(rd["progress"]), len(full)):
                    raise Violation("progress", "%s: progress was reported %s times" % (when, len(log)))
                for t, how in (rd.get("managers") or {}).items():
                    if [x for x in log if x[1:] == (t,)] != [("enter", t), ("exit", t)]:
                        raise Violation("managers", "%s: the context manager of %s saw %s" % (when, t, log))
                self.check_active(case, got, new, mdl, rd, when)
                return got
        elif not faulted and not bad and not (any(x == "raise" for x in log) or any(x[0] == "boom" for x in log)):
            raise Violation("unexpected-failure", "%s: %s" % (when, o))
        if not o.ok and not faulted and not bad and not isinstance(o.error, CallbackBoom):
            raise Violation("wrong-exception", "%s: %s" % (when, o))
        # interrupted
        pieces = case["mode"] != "conn" and not case["pan"] and not case["dsn"]      # (every statement is a transaction of its own)
        if not case["pan"] and not pieces and not stopped:
            if got == full:
                return got
            for t in got:
                if got[t] not in (old[t], emptied[t]):
                    raise Violation("partial-write", "%s (%s): table %s holds %s; before: %s; new: %s" %
                                    (when, o, t, short_rows(got[t]), short_rows(old[t]), short_rows(full[t])))
            return got
        for t in got:
            if got[t] in (old[t], emptied[t], full[t]):
                continue
            if pieces:
                rest = list(got[t])
                for row in emptied[t]:
                    if row in rest:
                        rest.remove(row)
                    else:
                        rest = None
                        break
                pool = list(new[t])
                if rest is not None and all(row in pool for row in rest):
                    continue
            raise Violation("partial-table", "%s (%s): table %s holds %s; before: %s; new: %s" %
                            (when, o, t, short_rows(got[t]), short_rows(old[t]), short_rows(full[t])))
        return got

    def check_active(self, case, got, new, mdl, rd, when):
        raw = self.server.peek()["s1"]
        for t in case["active"]:
            if t in raw and rd["pre"].get(t) != "append":
                cols, rows = raw[t]
                if any(not row[cols.index("is_on")] for row in rows):
                    raise Violation("not-active", "%s: rows of %s were written without the active flag" % (when, t))

    def progress(self, plan, log):
        class Progress(object):
            def numerical_progress(self, theme, progress):
                x = plan[len([y for y in log if isinstance(y, str)])] if len([y for y in log if isinstance(y, str)]) < len(plan) else "go"
                log.append(x)
                if x == "raise":
                    raise CallbackBoom("progress")
                return x == "go"
        return Progress()

    def manager(self, t, how, log):
        class Manager(object):
            def __enter__(self):
                log.append(("enter", t))
                if how == "enter":
                    log.append(("boom", t, 0))
                    raise CallbackBoom("enter")

            def __exit__(self, *a):
                log.append(("exit", t))
                if how == "exit" and a[0] is None:
                    log.append(("boom", t, 0))
                    raise CallbackBoom("exit")
        return Manager

    # ---- reading ------------------------------------------------------------------------------------------------------------
    def read(self, case, rd, f, s, mdl, k, feats):
        pan, fm = case["pan"], PG[case["pan"]]
        if case["active"]:      # some rows are switched off
            def off(con):
                for t in case["active"]:
                    if t != case["missing"]:
                        con.execute(self.sa.text("update s1.%s set is_on = (rowid %% 3 <> 0)" % t))
            self.must("switching rows off", case, off, "engine")
        hidden = self.hidden(case, s)
        act = "is_on" if case["active"] else ""
        dups = rd["what"] == "dups"

        def read(con):
            if dups:
                return sorted((t, sorted((repr(a), b) for a, b in v.items())) for t, v in f.pgsql.find_duplicates(con, "s1", active_fld=act).items())
            if pan:
                return fm.rows(f.pgsql.create_pan_dat(con, "s1", active_fld=act), s)
            return fm.rows(f.pgsql.create_tic_dat(con, "s1", freeze_it=rd["freeze"], active_fld=act), s)
        e0 = len(W.events)
        want = self.must("round %d: %s" % (k, rd["what"]), case, read)
        kinds = [x for x in steps_since(e0) if x.startswith("pg.")]
        if not dups and not (case["plain"] and not pan):
            exp = gen.norm({t: self.minus(mdl[t], hidden[t]) for t in mdl}, s, False)
            if gen.norm(want, s, False) != exp:
                raise Violation("wrong-read", "round %d: %s" % (k, gen.diff(exp, gen.norm(want, s, False))))
        if dups:
            exp = []
            for t, p, d in s["tables"]:
                cnt = {}
                for row in self.minus(mdl[t], hidden[t]):
                    cnt[row[:len(p)]] = cnt.get(row[:len(p)], 0) + 1
                if p and any(v > 1 for v in cnt.values()):
                    exp.append((t, sorted(v for v in cnt.values() if v > 1)))
            if [(t, sorted(b for a, b in v)) for t, v in want] != sorted(exp):
                raise Violation("wrong-duplicates", "round %d: found %s, expected %s" % (k, want, exp))
        img = self.server.committed
        for flt in rd["faults"]:
            fl, n = self.place(flt, kinds)
            o = self.client(case, read, [fl])
            if not fl.fired:
                continue
            feats.append((rd["what"], fl.kind, W.fired[-1][1], o.status))
            if o.ok and o.value != want:
                raise Violation("partial-read", "round %d: %s with %s at step %d of %d (%s) returned normally, but gave %s instead of %s" %
                                (k, rd["what"], fl.kind, fl.at, n, W.fired[-1][1], o.value, want))
            if self.server.committed is not img:
                raise Violation("read-wrote", "round %d: reading changed the database" % k)
            again = self.must("round %d: %s again after %s" % (k, rd["what"], fl.kind), case, read)
            if again != want:
                raise Violation("wrong-read", "round %d: after a failed read: %s instead of %s" % (k, again, want))

    def hidden(self, case, s):
        rtn = {t: [] for t, p, d in s["tables"]}
        if not case["active"]:
            return rtn
        raw = self.server.peek()["s1"]
        for t, p, d in s["tables"]:
            if t in case["active"] and t in raw:
                cols, rows = raw[t]
                rtn[t] = [tuple(self.cell(s, t, p, d, row, i) for i in range(len(p + d))) for row in rows if not row[cols.index("is_on")]]
        return rtn

    def cell(self, s, t, p, d, row, i):
        """what the i-th cell of a stored row means"""
        v = row[i]
        if t == "parameters" and s["params"]:
            return gen.canon(float(v) if i and row[0] in ("Solve Time", "Limit") else v)
        if s["kinds"][t + "|" + (p + d)[i]].replace("fk:", "") == "inf":
            if s["flag"] is None and v is None:
                return gen.canon(float("inf"))
            if isinstance(s["flag"], (int, float)) and v in (s["flag"], -s["flag"]):
                return gen.canon(float("inf") if v > 0 else -float("inf"))
        return gen.canon(v)

    def minus(self, rows, less):
        rows = list(rows)
        for x in less:
            if x in rows:
                rows.remove(x)
        return rows

    def shrink(self, case):
        import copy
        from sim.base import shrink_list, shrink_schema
        for i in range(len(case["rounds"])):
            if len(case["rounds"]) > 1:
                c = copy.deepcopy(case)
                del c["rounds"][i]
                yield c
            for cand in shrink_list(case["rounds"][i]["faults"]):
                c = copy.deepcopy(case)
                c["rounds"][i]["faults"] = cand
                yield c
            for key in ("progress", "managers", "pre"):
                if case["rounds"][i].get(key):
                    c = copy.deepcopy(case)
                    c["rounds"][i][key] = {} if key == "pre" else None
                    yield c
        for key in ("active", "dsn", "schema_fault", "missing", "plain"):
            if case[key]:
                c = copy.deepcopy(case)
                c[key] = [] if key == "active" else False if key == "plain" else None
                yield c
        for i, rd in enumerate(case["rounds"]):
            for t in sorted(rd.get("data", {})):
                for cand in shrink_list(rd["data"][t]):
                    c = copy.deepcopy(case)
                    c["rounds"][i]["data"][t] = cand
                    yield c


def short_rows(rows):
    return repr(rows)[:160]


CHECK = P09()

"""SQLite dataset writes are all-or-nothing, durable once acknowledged, and can be retried."""
from .common import *

PROF = gen.Profile(kinds=("int", "float", "inf", "null", "text", "zip", "bool", "dt", "mixed", "ntext"),
                   pk_kinds=("int", "text", "zip", "float"), flags=("N/A", "N/A", 999999999, None),
                   texts=gen.TEXTS, max_rows=14, generic=("int", "float", "text", "null", "bool"), bare=True)
BIG = gen.Profile(kinds=("text", "int"), pk_kinds=("int", "text"), texts=gen.TEXTS + ["y" * 900, "z" * 3000], max_rows=60)


class P01(Check):
    ID = "P01"

    def gen(self, rng, r):
        prof = BIG if rng.random() < .2 else PROF
        s = gen.gen_schema(rng, prof)
        s["stamps"] = rng.random() < .3
        case = {"schema": s, "dataA": gen.gen_data(rng, s, prof), "dataB": gen.gen_data(rng, s, prof),
                "initial": rng.choice(["A", "A", "A", "A", "schema", "absent", "absent", "extra"]),
                "overwrite": True, "bad_row": rng.random() < .2,
                "faults": rand_faults(rng, 5, ["eio", "eio", "full", "torn", "busy", "crash", "crash", "powerloss", "powerloss"],
                                      cls=("any", "any", "w", "w", "r"), sticky=(1, 1, 1, 3, 60))}
        if s.get("generic"):     # (a table without columns cannot be given columns later)
            if case["initial"] == "schema":
                case["initial"] = "absent"
            if not case["dataA"][s["generic"][0]]:
                s["bare"] = False
        for f in case["faults"]:
            if f["kind"] in ("crash", "powerloss"):
                f["sticky"] = 1
                if rng.random() < .4:    # bias towards the end of the operation, where the commit is
                    f["frac"] = round(1 - rng.random() ** 2 * .3, 4)
        if case["initial"] in ("schema", "absent"):
            case["overwrite"] = rng.random() < .5
        return case

    def run(self, case):
        s = case["schema"]
        tdf = tdf_of(s)
        datA, datB = (gen.build_dat(tdf, s, case[k]) for k in ("dataA", "dataB"))
        wantA, wantB = want_rows(s, case["dataA"]), want_rows(s, case["dataB"])
        empty = {t: [] for t in wantA}
        src = W.path("src.db")
        ow = case["overwrite"]
        initial = case["initial"]
        if initial in ("A", "extra"):
            must("write_db_data to a new file", lambda: tdf.sql.write_db_data(datA, src))
        elif initial == "schema":
            must("write_db_schema", lambda: tdf.sql.write_db_schema(src))
        if initial == "extra":    # the file also holds something that is not ours
            con = sqlite3.connect(src)
            con.execute("create table unrelated_notes (a, b)")
            con.executemany("insert into unrelated_notes values (?,?)", [(i, "n%d" % i) for i in range(5)])
            con.commit()
            con.close()
        old = wantA if initial in ("A", "extra") else empty
        self.expect("after the initial write", tdf, s, src, [old], initial == "absent")

        def go(p):
            return lambda: tdf.sql.write_db_data(datB, p, allow_overwrite=ow)

        # fault free
        p = W.path("ok.db")
        copy_any(src, p)
        _, n = count_steps(go(p), "write_db_data")
        W.restart()
        self.expect("after a fault-free write", tdf, s, p, [wantB], False)
        self.unrelated(p, initial)
        reached = []

        # a write that cannot be completed because of its own content
        dat2 = self.poison(s, gen.build_dat(tdf, s, case["dataB"])) if case["bad_row"] else None
        if dat2 is not None:
            p = W.path("bad.db")
            copy_any(src, p)
            o = call(lambda: tdf.sql.write_db_data(dat2, p, allow_overwrite=ow))
            W.restart()
            if o.ok:
                raise Violation("accepted-bad-value", "a value SQLite cannot store was accepted by write_db_data")
            self.expect("after a write refused by SQLite (%s)" % o, tdf, s, p, [old], initial == "absent")
            self.unrelated(p, initial)
            if True:
                must("a good write after a failed one", go(p))
                self.expect("after the retry", tdf, s, p, [wantB], False)
            reached.append("poison")
        for i, f in enumerate(faults_of(case, n)):
            p = W.path("f%d.db" % i)
            copy_any(src, p)
            o = call(go(p), [f])
            power = f.kind == "powerloss" and W.crashed
            step = W.fired[-1][1] if f.fired else None
            W.restart(powerloss=power)
            allowed = {"ok": [wantB], "error": [old], "crashed": [old, wantB]}[o.status]
            which = self.expect("after %s at step %d of %d (%s), the call ended %s" % (f.kind, f.at, n, step, o), tdf, s, p,
                                allowed, initial == "absent" and o.status != "ok")
            self.unrelated(p, initial)
            W.count("after:%s:%s" % (o.status, "new" if which == wantB and which != old else "old"))
            if f.fired:
                reached.append((f.kind, step, o.status, which == old, which == wantB))
            if o.status != "ok" and (ow or which == empty):
                must("retrying the write once the faults are gone", go(p))
                self.expect("after the retry following %s" % f.kind, tdf, s, p, [wantB], False)
        if not reached:
            return None
        return (initial, ow, tuple(sorted(map(repr, reached))))

    def poison(self, s, dat):
        """put something that ticdat's own validation accepts but SQLite's binding does not into the last row written"""
        for t, pks, dfs in reversed(s["tables"]):
            if t == "parameters" or t in s.get("generic", ()):
                continue
            tbl = getattr(dat, t)
            if pks and dfs and len(tbl):
                k = list(tbl)[-1]
                tbl[k][dfs[-1]] = complex(1, 2)
                return dat
            if not pks and len(tbl):
                tbl[len(tbl) - 1][dfs[-1]] = complex(1, 2)
                return dat
        return None

    def unrelated(self, p, initial):
        if initial == "extra":
            rows = raw_sqlite(p).get("unrelated_notes")
            if rows != sorted([(i, "n%d" % i) for i in range(5)], key=repr):
                raise Violation("collateral", "a table that is not part of the schema was changed: %s" % (rows,))

    def expect(self, when, tdf, s, p, allowed, may_be_absent):
        if not os.path.exists(p):
            if may_be_absent:
                return allowed[0]
            raise Violation("lost-file", "%s: the database file does not exist" % when)
        got = tic_rows(must("create_tic_dat %s" % when, lambda: tdf.sql.create_tic_dat(p)), s)
        # what another program sees in the file has to be the same set of rows as well
        raw = {t: len(r) for t, r in raw_sqlite(p).items() if t in got}
        for a in allowed:
            if got == a:
                if {t: c for t, c in raw.items() if c} != {t: len(r) for t, r in a.items() if r}:
                    raise Violation("raw-mismatch", "%s: the file holds %s rows, the reader gave %s" % (
                        when, raw, {t: len(r) for t, r in got.items()}))
                return a
        raise Violation("not-atomic" if len(allowed) > 1 else "wrong-content", "%s: expected %s; difference: %s" % (
            when, "the old or the new data" if len(allowed) > 1 else "exactly one state",
            " || ".join(gen.diff(a, got) for a in allowed)))


CHECK = P01()

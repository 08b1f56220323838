"""Data-frame writes to SQLite: never part of a table, an acknowledged write is complete and durable, a retry completes it."""
from .formats import *


APP = Fmt(**{k: v for k, v in F["psqlite"].__dict__.items() if k not in ("prof", "self", "kinds", "pk_kinds", "generic")},
          kinds=("int", "float", "text", "zip"), pk_kinds=("int", "text", "zip"))
APP.prof.params = False


class P02(Check):
    ID = "P02"

    def gen(self, rng, r):
        mode = rng.choice(["replace", "replace", "replace", "append", "append", "fail"])
        # (rows are appended to columns whose SQLite type the first data set decided: columns of one plain type)
        fm = APP if mode == "append" else F["psqlite"]
        s = fm.gen_case(rng)
        big = rng.random() < .25
        case = {"schema": s, "mode": mode, "cs": rng.random() < .25,
                "dataA": fm.gen_data(rng, s, min_rows=2 if mode == "append" else 0),
                "dataB": fm.gen_data(rng, s, max_rows=150 if big else None, min_rows=40 if big else 0),
                "initial": rng.choice(["A", "A", "A", "extra", "absent"] if mode != "fail" else ["absent", "extra_only", "A"]),
                "con": rng.random() < .2,
                "faults": rand_faults(rng, 5, ["eio", "eio", "full", "torn", "busy", "crash", "crash", "powerloss", "powerloss"],
                                      cls=("any", "any", "w", "w", "r"), sticky=(1, 1, 1, 3, 60))}
        if mode == "append":     # the key columns must not clash: the data sets hold different keys
            for t, pks, dfs in s["tables"]:
                if pks:
                    seen = {repr(row[:len(pks)]) for row in case["dataA"][t]}
                    case["dataB"][t] = [row for row in case["dataB"][t] if repr(row[:len(pks)]) not in seen]
        for f in case["faults"]:
            if f["kind"] in ("crash", "powerloss"):
                f["sticky"] = 1
        return case

    def run(self, case):
        fm, s, mode, cs = F["psqlite"], case["schema"], case["mode"], case["cs"]
        pdf = fm.factory(s)
        A, B = (fm.build(pdf, s, case[k]) for k in ("dataA", "dataB"))
        wantA, wantB = (want_rows(s, case[k]) for k in ("dataA", "dataB"))
        empty = {t: [] for t in wantA}
        src = W.path("src.db")
        initial = case["initial"]
        if initial in ("A", "extra"):
            must("the first write", lambda: pdf.sql.write_file(A, src, case_space_table_names=cs))
        if initial.startswith("extra"):
            con = sqlite3.connect(src)
            con.execute("create table unrelated_notes (a, b)")
            con.executemany("insert into unrelated_notes values (?,?)", [(i, "n%d" % i) for i in range(5)])
            con.commit()
            con.close()
        W.restart()
        old = wantA if initial in ("A", "extra") else empty
        new = wantB
        if mode == "append":
            new = gen.norm({t: old[t] + wantB[t] for t in old}, s)

        def go(p, how=None):
            def fn():
                if not case["con"]:
                    return pdf.sql.write_file(B, p, if_exists=how or mode, case_space_table_names=cs)
                con = sqlite3.connect(p)
                try:
                    rtn = pdf.sql.write_file(B, None, con=con, if_exists=how or mode, case_space_table_names=cs)
                    con.commit()
                    return rtn
                finally:
                    con.close()
            return fn
        if mode == "fail" and initial == "A":
            n0 = raw_sqlite(src)
            o = call(go(src))
            W.restart()
            if o.ok:
                raise Violation("not-refused", "if_exists='fail' was accepted although the tables exist")
            if raw_sqlite(src) != n0:
                raise Violation("changed-by-refusal", "a write refused with if_exists='fail' changed the file")
            return ("fail", "refused", cs, case["con"], features_of(case))
        p = W.path("ok.db")
        copy_any(src, p)
        _, n = count_steps(go(p), "write_file")
        W.restart()
        self.state("after a fault-free write", pdf, s, p, [new])
        self.unrelated(p, initial)
        if pan_rows(B, s) != wantB:
            raise Violation("argument-changed", "writing changed the data object: %s" % gen.diff(wantB, pan_rows(B, s)))
        reached = []
        for i, f in enumerate(faults_of(case, n)):
            p = W.path("f%d.db" % i)
            copy_any(src, p)
            o = call(go(p), [f])
            err = str(o)
            o.error = None
            power = f.kind == "powerloss" and W.crashed
            step = W.fired[-1][1] if f.fired else None
            W.restart(powerloss=power)
            when = "after %s at step %d of %d (%s), the call ended %s" % (f.kind, f.at, n, step, err)
            got = {}
            if os.path.exists(p):
                got = self.state(when, pdf, s, p, [new] if o.ok else None, (old, new, empty if mode != "append" or initial not in (
                    "A", "extra") else old))
                self.unrelated(p, initial)
            elif o.ok:
                raise Violation("lost-file", "%s: there is no file" % when)
            if f.fired:
                reached.append((f.kind, step, o.status, tuple(sorted({"old" if got.get(t) == old[t] else "new" if got.get(
                    t) == new[t] else "empty" for t in got}))))
            if o.status != "ok":
                q = go(p, "replace")
                must("writing again with if_exists='replace' once the faults are gone (%s)" % when, q)
                W.restart()
                self.state("after writing again (%s)" % when, pdf, s, p, [wantB])
                self.unrelated(p, initial)
        if not reached:
            return None
        return (mode, initial, cs, case["con"], tuple(sorted(map(repr, reached))))

    def unrelated(self, p, initial):
        if initial.startswith("extra"):
            rows = raw_sqlite(p).get("unrelated_notes")
            if rows != sorted([(i, "n%d" % i) for i in range(5)], key=repr):
                raise Violation("collateral", "a table that is not part of the schema was changed: %s" % (rows,))

    def state(self, when, pdf, s, p, allowed, per_table=None):
        got = pan_rows(must("create_pan_dat %s" % when, lambda: pdf.sql.create_pan_dat(p)), s)
        W.restart()
        if allowed is not None:
            if got not in allowed:
                raise Violation("wrong-content", "%s: %s" % (when, gen.diff(allowed[0], got)))
        else:
            for t in got:
                if not any(got[t] == x[t] for x in per_table):
                    raise Violation("partial-table", "%s: table %s is neither as before, as written nor empty: %s" % (
                        when, t, " || ".join(gen.diff({t: x[t]}, {t: got[t]}) for x in per_table)))
        return got


def features_of(case):
    return gen.features(case["schema"], case["dataB"])


CHECK = P02()

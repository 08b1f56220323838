"""Access files: a write that returned is complete, an interrupted one leaves no mixture, a failing driver is never taken for missing data."""
import collections
import json

from sim import access

from .common import *

import ticdat.mdb as mdb

RESERVED = ["order", "group", "index", "table", "select"]
PLAIN_PROF = {f: gen.Profile(kinds=("int", "float", "null") + (("inf",) if f != "N/A" else ()), pk_kinds=("text", "zip"), flags=(f,),
                             untyped=("int", "float", "null"), generators=True, max_rows=8) for f in ("N/A", 999999999, None)}
TYPED_PROF = {f: gen.Profile(kinds=("int", "float", "null", "text", "zip", "ntext") + (("inf",) if f != "N/A" else ()),
                             pk_kinds=("text", "zip", "int"), flags=(f,), generators=True, max_rows=8)
              for f in ("N/A", 999999999, None)}
KINDS = ["write"] * 6 + ["refuse"] * 3 + ["read"] * 3 + ["dups", "variants", "variants"]


def kind_of(s, t, f):
    return s["kinds"][t + "|" + f].replace("fk:", "")


def jet_type(s, t, f):
    k = kind_of(s, t, f)
    return "text" if k in ("text", "zip", "ntext", "param") else "int" if k == "int" else "double"


class P10(Check):
    ID = "P10"

    def setup(self):
        self.code_dir = getattr(mdb, "_code_dir", None)

    def gen(self, rng, r):
        typed = rng.random() < .5
        prof = (TYPED_PROF if typed else PLAIN_PROF)[rng.choice(["N/A", "N/A", 999999999, None])]
        s = gen.gen_schema(rng, prof)
        if not typed:     # (a foreign key must not bring text into a column that is made for numbers)
            s["fks"] = []
            for k in list(s["kinds"]):
                if s["kinds"][k].startswith("fk:"):
                    t, f = k.split("|")
                    is_pk = any(x == t and f in p for x, p, d in s["tables"])
                    s["kinds"][k] = "text" if is_pk else "float"
                    s["types"] = [x for x in s["types"] if x[:2] != [t, f]]
                    s["defaults"] = [x for x in s["defaults"] if x[:2] != [t, f]]
        if s["flag"] is None:
            have = {(x[0], x[1]) for x in s["types"]}
            for k, kind in s["kinds"].items():
                t, f = k.split("|")
                if kind.replace("fk:", "") == "inf" and (t, f) not in have:
                    s["types"].append([t, f, gen.type_kwargs(None, "inf", None)])
        if rng.random() < .25:
            old, new = rng.choice([x[0] for x in s["tables"] if x[0] != "parameters"]), rng.choice(RESERVED)
            s = json.loads(json.dumps(s).replace('"%s"' % old, '"%s"' % new).replace('"%s|' % old, '"%s|' % new))
        kind = KINDS[r % len(KINDS)]
        big = rng.random() < .2
        case = {"schema": s, "typed": typed, "kind": kind,
                "dataA": gen.gen_data(rng, s, prof), "dataB": gen.gen_data(rng, s, prof, max_rows=30 if big else None),
                "initial": rng.choice(["A", "A", "A", "schema", "absent", "absent"] if not typed else ["A", "A", "schema"]),
                "overwrite": True, "extra": rng.random() < .3, "via": kind == "write" and rng.random() < .25,
                "gen_fail": rng.randrange(4) if s["generators"] and rng.random() < .2 else None,
                "freeze": rng.random() < .3, "types": rng.randrange(1000),
                "refuse": rng.choice(["rows", "rows", "rows", "missing", "missing", "invalid", "dir", "suffix", "types", "mdb", "notadb"]),
                "pick": rng.randrange(1000), "faults": []}
        if kind in ("read", "dups", "variants"):
            case["initial"] = "A"
        if case["initial"] in ("schema", "absent"):
            case["overwrite"] = rng.random() < .5
        for f in rand_faults(rng, 6, ["eio", "eio", "eio", "busy2", "crash", "crash", "late", "full"], sticky=(1, 1, 2, 100)):
            f["only"] = rng.choice([None, None, ["odbc.execute"], ["odbc.execute"], ["odbc.fetch"], ["odbc.commit"], ["odbc.connect"],
                                    ["file"]])
            if f["kind"] == "late":
                f["only"] = ["odbc.commit"]
            if f["kind"] == "crash":
                f["sticky"] = 1
            if rng.random() < .25:
                f["frac"] = round(1 - rng.random() ** 2 * .2, 4)
            case["faults"].append(f)
        return case

    # -- pieces -------------------------------------------------------------------------------------------------------
    def types_of(self, case, tdf, full=True):
        """what write_schema is told: whatever differs from its own choice, and some of the rest"""
        s, rng, rtn = case["schema"], random.Random(case["types"]), {}
        for t, pks, dfs in s["tables"]:
            if t == "parameters":
                continue
            for f in pks + dfs:
                ty = jet_type(s, t, f)
                if not case["typed"]:
                    ty = "text" if f in pks else "double"
                default = "text" if f in pks else "double"
                if ty == "int" and rng.random() < .5:
                    ty = "double"
                if ty != default or rng.random() < .3:
                    rtn.setdefault(t, {})[f] = ty
        return rtn

    def live(self, p):
        access.drop_all()

    def crash(self, powerloss=False):
        W.crashed = True
        access.drop_all()
        W.crashed = False
        W.restart()
        access.drop_all()

    def rows(self, dat, s):
        return gen.norm(gen.rows_of_dat(dat, s), s, ordered_nopk=False)

    def want(self, s, data):
        return gen.norm(gen.rows_of_data(s, data), s, ordered_nopk=False)

    def content(self, when, tdf, s, p):
        got = self.rows(must("create_tic_dat %s" % when, lambda: tdf.mdb.create_tic_dat(p)), s)
        self.crash()
        n = access.raw(p)
        for t in got:
            stored = [v for k, v in n.items() if k.lower() == t.lower()]
            if stored and len(stored[0][1]) != len(got[t]):
                raise Violation("rows-not-read", "%s: table %s holds %s rows, %s were read" % (when, t, len(stored[0][1]), len(got[t])))
        return got

    def extra_ok(self, case, p, when):
        if case["extra"] and case["initial"] != "absent":
            x = access.raw(p).get("unrelated notes")
            if x is None or [r[0] for r in x[1]] != [0.0, 1.0, 2.0]:
                raise Violation("collateral", "%s: a table that is not part of the schema was changed: %s" % (when, x))

    def place(self, case, kinds):
        for flt in case["faults"]:
            probe = world.Fault(0, flt["kind"], flt.get("cls", "any"), 1, flt.get("only"))
            m = sum(1 for k in kinds if probe.match(k) and (flt["kind"] != "full" or k in ("file.write", "odbc.execute", "odbc.commit")))
            if m:
                yield faults_of({"faults": [flt]}, m)[0], m

    def run(self, case):
        s = case["schema"]
        tdf = tdf_of(s)
        W.sim_install = W.path("install")
        os.mkdir(W.sim_install)
        access.make_blank(os.path.join(W.sim_install, "blank.accdb"))
        if self.code_dir is not None:
            mdb._code_dir = lambda: W.sim_install
        elif case["initial"] == "absent":
            case["initial"] = "schema"
        try:
            return getattr(self, "run_" + case["kind"])(case, s, tdf)
        finally:
            access.drop_all()

    def start(self, case, s, tdf, src):
        if case["initial"] != "absent":
            access.make_blank(src)
            must("write_schema", lambda: tdf.mdb.write_schema(src, **self.types_of(case, tdf)))
            self.crash()
        if case["initial"] == "A":
            A = gen.build_dat(tdf, s, case["dataA"])
            must("the first write", lambda: tdf.mdb.write_file(A, src))
            self.crash()
        if case["extra"] and case["initial"] != "absent":
            con = access._sqlite(src)
            con.execute("create table [unrelated notes] (a REAL, b TEXT) STRICT")
            con.executemany("insert into [unrelated notes] values (?,?)", [(i, "n%d" % i) for i in range(3)])
            con.commit()
            con.close()

    # -- writing ------------------------------------------------------------------------------------------------------
    def run_write(self, case, s, tdf):
        src = W.path("src.accdb")
        self.start(case, s, tdf, src)
        empty = {t: [] for t, p, d in s["tables"]}
        old = self.want(s, case["dataA"]) if case["initial"] == "A" else empty
        new = self.want(s, case["dataB"])
        fails = case["gen_fail"]
        hit, armed = [], []

        def gens(rows):
            def g():
                if armed:
                    armed[0] += 1
                for i, r in enumerate(rows):
                    if i == fails and armed and armed[0] > case["types"] % 3:
                        hit.append(i)
                        raise ValueError("the user's generator failed")
                    yield r
            return g
        B = gen.build_dat(tdf, s, case["dataB"], gens if fails is not None else None)
        if case["via"] and fails is None:      # the data set to be written was itself read from an Access file, generators and all
            b = W.path("b.accdb")
            access.make_blank(b)
            must("write_schema", lambda: tdf.mdb.write_schema(b, **self.types_of(case, tdf)))
            must("writing the source", lambda: tdf.mdb.write_file(B, b))
            B = must("reading the source", lambda: tdf.mdb.create_tic_dat(b, freeze_it=case["freeze"]))
        elif case["freeze"]:
            B = tdf.freeze_me(B)
        ow = case["overwrite"]

        def go(p, ow=ow):
            return lambda: tdf.mdb.write_file(B, p, allow_overwrite=ow)
        p = W.path("ok.accdb")
        copy_any(src, p)
        n0 = len(W.events)
        armed[:] = [0]
        o = call(go(p))
        kinds = steps_since(n0)
        self.crash()
        armed[:] = []
        if hit:
            if o.status != "error":
                raise Violation("failure-swallowed", "the user's generator failed while it was written, the call ended %s" % o)
            if os.path.exists(p):       # (it may fail before the file is made)
                self.mixture("after the user's generator failed (%s)" % o, tdf, s, p, old, new, case)
        elif not o.ok:
            raise Violation("unexpected-failure", "write_file failed although no fault was injected: %s" % o)
        else:
            got = self.content("after a fault-free write", tdf, s, p)
            if got != new:
                raise Violation("lost-data", "after a fault-free write: %s" % gen.diff(new, got))
            if self.rows(B, s) != new:
                raise Violation("argument-changed", "writing changed the data object: %s" % gen.diff(new, self.rows(B, s)))
        self.extra_ok(case, p, "after a fault-free write")
        reached = []
        for i, (f, m) in enumerate(self.place(case, kinds)):
            p = W.path("f%d.accdb" % i)
            copy_any(src, p)
            del hit[:]
            armed[:] = [0]
            o = call(go(p), [f])
            armed[:] = []
            err = str(o)
            o.error = None
            self.crash()
            step = W.fired[-1][1] if f.fired else None
            when = "after %s at step %d of %d (%s), the call ended %s" % (f.kind, f.at, m, step, err)
            if hit and o.ok:
                raise Violation("failure-swallowed", "%s: although the user's generator failed" % when)
            if o.ok:
                got = self.content(when, tdf, s, p)
                if got != new:
                    raise Violation("lost-data", "%s: %s" % (when, gen.diff(new, got)))
            elif case["initial"] != "absent":
                self.mixture(when, tdf, s, p, old, new, case)
            if os.path.exists(p) and case["initial"] != "absent":
                self.extra_ok(case, p, when)
            if not o.ok:
                if case["initial"] == "absent" and os.path.exists(p):
                    # a file broken off while it was made may be refused, loudly; it is then made anew
                    again = call(go(p, True))
                    self.crash()
                    if not again.ok:
                        os.remove(p)
                        must("writing again to a new file once the faults are gone (%s)" % when, go(p, True))
                else:
                    must("writing again once the faults are gone (%s)" % when, go(p, True))
                self.crash()
                got = self.content("after writing again (%s)" % when, tdf, s, p)
                if got != new:
                    raise Violation("lost-data", "after writing again (%s): %s" % (when, gen.diff(new, got)))
            if f.fired:
                reached.append((f.kind, step, o.status))
        return ("write", case["initial"], ow, case["via"], bool(hit), tuple(sorted(map(repr, reached))), gen.features(s, case["dataB"]))

    def mixture(self, when, tdf, s, p, old, new, case):
        got = self.content(when, tdf, s, p)
        for t in got:
            if got[t] != old[t] and collections.Counter(got[t]) - collections.Counter(new[t]):
                raise Violation("mixture", "%s: table %s holds neither what it held nor rows of the data set being written: %s" % (
                    when, t, " || ".join(gen.diff({t: x[t]}, {t: got[t]}) for x in (old, new))))

    # -- refusals -----------------------------------------------------------------------------------------------------
    def run_refuse(self, case, s, tdf):
        how = case["refuse"]
        src = W.path("src.accdb")
        B = gen.build_dat(tdf, s, case["dataB"])
        names = [t for t, p, d in s["tables"]]
        pick = names[case["pick"] % len(names)]
        if how in ("rows", "missing", "invalid"):
            case["initial"] = "A"
            self.start(case, s, tdf, src)
            ow = how != "rows"
            if how == "rows":      # only one table holds rows
                if not case["dataA"][pick]:
                    how = "none"
                con = access._sqlite(src)
                for t in names:
                    if t != pick:
                        con.execute("delete from [%s]" % t)
                con.commit()
                con.close()
            if how == "missing":
                con = access._sqlite(src)
                con.execute("drop table [%s]" % pick if case["pick"] % 2 or "_" not in pick else
                            "alter table [%s] rename to [%s]" % (pick, pick.replace("_", " ")))
                con.commit()
                con.close()
            if how == "invalid":
                other = TicDatFactory(some_other_table=[["a"], ["b"]])
                B = other.TicDat(some_other_table={1: 2})
            fn = lambda: tdf.mdb.write_file(B, src, allow_overwrite=ow)
            if how == "none":
                must("writing to a file without rows", fn)
                self.crash()
                got, new = self.content("after the write", tdf, s, src), self.want(s, case["dataB"])
                if got != new:
                    raise Violation("lost-data", "after the write: %s" % gen.diff(new, got))
                return ("refuse", "none")
        elif how == "dir":
            os.mkdir(src)
            fn = lambda: tdf.mdb.write_file(B, src, allow_overwrite=True)
        elif how == "suffix":
            src = W.path("src.db")
            fn = lambda: tdf.mdb.write_file(B, src, allow_overwrite=True)
        elif how == "mdb":
            src = W.path("src.mdb")
            fn = lambda: tdf.mdb.write_file(B, src)
        elif how == "notadb":
            with open(src, "w") as f:
                f.write("this is not a database, " * 40)
            fn = lambda: tdf.mdb.write_file(B, src, allow_overwrite=True) if case["pick"] % 2 else tdf.mdb.create_tic_dat(src)
        else:
            t, p, d = s["tables"][case["pick"] % len(names)]
            bad = [{"no_such_table": {"a": "text"}}, {t: {"no such field": "text"}}, {t: {(p + d)[0]: "blob"}}, {t: "text"}]
            fn = lambda: tdf.mdb.write_schema(src, **bad[case["pick"] % 4])
        before = file_digest(W.root)
        o = call(fn)
        self.crash()
        after = file_digest(W.root)
        if o.ok or o.status != "error":
            raise Violation("not-refused", "%s was not refused (%s)" % (how, o))
        if before != after:
            d = ""
            if how in ("rows", "missing"):
                d = self.tables_changed(before, after)
            else:
                d = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
            if d:
                raise Violation("changed-by-refusal", "a call refused for '%s' (%s) changed %s" % (how, o, d))
        return ("refuse", how, case["pick"] % 4 if how == "types" else len(names) if how in ("rows", "missing") else None)

    def tables_changed(self, before, after):
        """(a transaction without effect may touch the file)"""
        x, rtn = [], []
        for i, d in enumerate((before, after)):
            p = os.path.join(W.temp_dir(), "cmp%d" % i)
            with world.real_open(p, "wb") as f:
                f.write(d["src.accdb"])
            x.append(access.raw(p))
        rtn = [t for t in sorted(set(x[0]) | set(x[1])) if x[0].get(t) != x[1].get(t)]
        return rtn + sorted(k for k in set(before) ^ set(after) if k != "src.accdb")

    # -- reading ------------------------------------------------------------------------------------------------------
    def run_read(self, case, s, tdf):
        src = W.path("src.accdb")
        self.start(case, s, tdf, src)
        want = self.want(s, case["dataA"])
        return self.reads(case, s, tdf, src, want, lambda: self.rows(tdf.mdb.create_tic_dat(src, freeze_it=case["freeze"]), s))

    def reads(self, case, s, tdf, src, want, fn, what="read"):
        before = access.raw(src)
        n0 = len(W.events)
        got = must(what, fn)
        kinds = steps_since(n0)
        self.crash()
        if got != want:
            raise Violation("wrong-" + what, "without faults: %s" % (gen.diff(want, got) if what == "read" else (want, got),))
        reached = []
        for f, m in self.place(case, kinds):
            o = call(fn, [f])
            self.crash()
            step = W.fired[-1][1] if f.fired else None
            when = "after %s at step %d of %d (%s)" % (f.kind, f.at, m, step)
            if o.ok and o.value != want:
                raise Violation("wrong-" + what, "%s the call returned: %s" % (when, gen.diff(want, o.value) if what == "read" else (
                    want, o.value)))
            if f.fired:
                reached.append((f.kind, step, o.status))
        if must(what + " once the faults are gone", fn) != want:
            raise Violation("wrong-" + what, "once the faults are gone")
        self.crash()
        if access.raw(src) != before:
            raise Violation("changed-by-reading", "reading changed the file")
        return (what, case["freeze"], tuple(sorted(map(repr, reached))), gen.features(s, case["dataA"]))

    def run_variants(self, case, s, tdf):
        """files made by other programs: spaces for underscores, other cases, other orders of columns, columns of their own"""
        src = W.path("src.accdb")
        access.make_blank(src)
        con = access._sqlite(src)
        rng = random.Random(case["pick"])
        twice = None
        data = {t: list(case["dataA"][t]) for t, p, d in s["tables"]}
        for t, pks, dfs in s["tables"]:
            if t != "parameters" and rng.random() < .15:
                data[t] = []
                continue      # not there at all
            name = "".join(" " if c == "_" and rng.random() < .5 else c for c in t)
            name = rng.choice([name, name, name.upper(), name.title()])
            cols = [(f, jet_type(s, t, f)) for f in pks + dfs] + [("Remarks of theirs", "text")] * rng.choice([0, 1])
            rng.shuffle(cols)
            ren = {f: rng.choice([f, f, f.upper(), f.lower()]) for f, _ in cols}
            con.execute("create table [%s] (%s) STRICT" % (name, ",".join("[%s] %s" % (ren[f], {
                "text": "TEXT", "int": "INT", "double": "REAL"}[ty]) for f, ty in cols)))
            for r in data[t]:
                row = dict(zip(pks + dfs, [self.stored(s, tdf, t, f, gen.dec(v)) for f, v in zip(pks + dfs, r)]))
                con.execute("insert into [%s] values (%s)" % (name, ",".join("?" * len(cols))), [row.get(f, "x") for f, _ in cols])
            if "_" in t and rng.random() < .35:
                other = [x for x in (t, t.replace("_", " ")) if x.lower() != name.lower()]
                if other:
                    con.execute("create table [%s] (a TEXT) STRICT" % other[0])
                    twice = t
        con.commit()
        con.close()
        fn = lambda: self.rows(tdf.mdb.create_tic_dat(src, freeze_it=case["freeze"]), s)
        if twice:
            o = call(fn)
            if o.status != "error":
                raise Violation("not-refused", "there are two tables for %s, the read ended %s" % (twice, o))
            return ("variants", "twice")
        return ("variants",) + self.reads(case, s, tdf, src, self.want(s, data), fn)

    def stored(self, s, tdf, t, f, v):
        if t == "parameters":
            return str(v)
        if isinstance(v, float) and v in (float("inf"), -float("inf")):
            return None if s["flag"] is None else s["flag"] if v > 0 else -s["flag"]
        return v

    def run_dups(self, case, s, tdf):
        src = W.path("src.accdb")
        access.make_blank(src)
        con = access._sqlite(src)
        rng = random.Random(case["pick"])
        want = {}
        for t, pks, dfs in s["tables"]:
            fields = pks + dfs
            con.execute("create table [%s] (%s) STRICT" % (t, ",".join("[%s] %s" % (f, {
                "text": "TEXT", "int": "INT", "double": "REAL"}[jet_type(s, t, f)]) for f in fields)))
            count = collections.Counter()
            for r in case["dataA"][t]:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    con.execute("insert into [%s] values (%s)" % (t, ",".join("?" * len(fields))),
                                [self.stored(s, tdf, t, f, gen.dec(v)) for f, v in zip(fields, r)])
                    if pks:
                        count[repr([gen.canon(gen.dec(v)) for v in r[:len(pks)]])] += 1
            if pks and t not in s["generators"] and any(v > 1 for v in count.values()):
                want[t] = {k: v for k, v in count.items() if v > 1}
        con.commit()
        con.close()

        def fn():
            d = tdf.mdb.find_duplicates(src)
            return {t: {repr([gen.canon(v) for v in (k if isinstance(k, tuple) else (k,))]): n for k, n in c.items()} for t, c in d.items()}
        return self.reads(case, s, tdf, src, want, fn, "duplicates")


CHECK = P10()

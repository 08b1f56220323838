"""A read either gives all the data or raises: an I/O fault never turns into missing rows or tables."""
from .formats import *

NAMES = ["sqlite", "sqlite", "sqlite", "json", "csv", "csv", "xls", "xlsx", "sqltxt", "json_pd", "psqlite", "psqlite", "pjson", "pcsv",
         "pcsv", "pxlsx", "pjson_pd"] + sorted(X)


class P05(Check):
    ID = "P05"

    def gen(self, rng, r):
        name = NAMES[r % len(NAMES)]
        fm = ALL[name]
        s = fm.gen_case(rng)
        s["generators"] = []
        case = {"fmt": name, "schema": s, "opts": fm.gen_opts(rng, s), "data": fm.gen_data(rng, s, min_rows=rng.choice([1, 2, 5])),
                "mode": "read", "hot": fm.family == "sql" and fm.name != "sqltxt" and rng.random() < .3,
                "bufsize": rng.choice([16, 64, 300, 1024]),
                "faults": rand_faults(rng, 8, ["eio", "eio", "eio", "busy" if "sqlite" in name else "eio", "nofile", "perm", "crash"],
                                      cls=("any", "any", "r"), sticky=(1, 1, 1, 2, 4, 1000))}
        for f in case["faults"]:
            if f["kind"] == "crash":
                f["sticky"] = 1
            if f["kind"] in ("perm", "nofile"):
                f["only"] = ["file.openr", "sqlite.open", "file.listdir"]
            if f["kind"] == "busy" and rng.random() < .5:
                f["sticky"] = 100000
        if not case["hot"] and rng.random() < .3:
            case["cut"] = self.gen_cut(rng, fm, s, case["opts"])
        if fm.dups and rng.random() < .4 and not case.get("cut"):
            case["mode"] = "dups"
            case["hot"] = False
            case["repeat"] = [rng.random() for _ in range(8)]
        return case

    def gen_cut(self, rng, fm, s, o):
        """the source lacks a table, which then reads as empty, or a field, which is refused unless it is to be filled in"""
        if fm.name == "sqltxt" or len(s["tables"]) < 2:
            return None
        pan = fm.name in ("psqlite", "pjson_pd", "pcsv", "pxlsx")
        t, pks, dfs = rng.choice([x for x in s["tables"] if x[0] != "parameters"])
        if (pan or fm.name in ("sqlite", "csv", "xls", "xlsx")) and o.get("header", True) and len(pks + dfs) > 1 and rng.random() < .7:
            if t not in s.get("generic", ()) and dfs:
                if pan and rng.random() < .7:
                    o["fill"] = True
                return ["field", t, rng.choice(dfs)]
        return ["table", t]

    def cut(self, s, data, cut):
        """(the schema and data to write, the rows to be read)"""
        t0 = cut[1]
        want = {t: [list(r) for r in rows] for t, rows in data.items()}
        if cut[0] == "table":
            want[t0] = []
            s2 = dict(s, tables=[x for x in s["tables"] if x[0] != t0], fks=[x for x in s["fks"] if t0 not in x[:2]],
                      types=[x for x in s["types"] if x[0] != t0], defaults=[x for x in s["defaults"] if x[0] != t0],
                      generic=[x for x in s.get("generic", ()) if x != t0])
            return s2, data, want
        f0 = cut[2]
        pks, dfs = [x[1:] for x in s["tables"] if x[0] == t0][0]
        i = (pks + dfs).index(f0)
        dflt = [x[2] for x in s["defaults"] if x[:2] == [t0, f0]]
        for r in want[t0]:
            r[i] = dflt[0] if dflt else 0
        s2 = dict(s, tables=[[t, p, [f for f in d if t != t0 or f != f0]] for t, p, d in s["tables"]],
                  fks=[x for x in s["fks"] if not (x[0] == t0 and any(m[0] == f0 for m in x[2]) or x[1] == t0 and any(m[1] == f0 for m in x[2]))],
                  types=[x for x in s["types"] if x[:2] != [t0, f0]], defaults=[x for x in s["defaults"] if x[:2] != [t0, f0]])
        return s2, dict(data, **{t0: [r[:i] + r[i + 1:] for r in data[t0]]}), want

    def run(self, case):
        fm, s, o = ALL[case["fmt"]], case["schema"], case["opts"]
        f = fm.factory(s)
        src = fm.path("src")
        if case["mode"] == "dups":
            want = self.write_with_dups(case, fm, s, o, src)

            def view(v):
                return {t: {k: c for k, c in d.items()} for t, d in v.items() if d}

            def go():
                return fm.dups(f, src, o)
        else:
            sw, dw, wd = self.cut(s, case["data"], case["cut"]) if case.get("cut") else (s, case["data"], case["data"])
            fw = fm.factory(sw)
            must("the write", lambda: fm.write(fw, fm.build(fw, sw, dw), src, False, o))
            want = want_rows(s, wd)

            def view(v):
                return fm.rows(v, s)

            def go():
                return fm.read(f, src, o)
        W.restart()
        wants = [want]
        if case["hot"]:
            wants = self.make_hot(case, fm, f, s, o, src, want)
        img = file_digest(W.root)
        p0 = len(W.events)
        refuse = bool(case.get("cut")) and case["cut"][0] == "field" and not o.get("fill")
        if refuse:
            out = call(go)
            W.restart()
            if out.ok:
                raise Violation("partial-read", "[%s] a source without the field %s is accepted" % (case["fmt"], case["cut"][1:]))
            if case["cut"]:
                W.count("refused:" + case["fmt"])
            return (case["fmt"], "refused", tuple(sorted(o.items(), key=str)), out.status)
        v, _ = count_steps(go, "the read")
        kinds = steps_since(p0)
        W.restart()
        v = view(v)
        if v not in wants:
            raise Violation("wrong-content", "[%s] fault-free %s: %s" % (case["fmt"], case["mode"], self.diff(case, want, v)))
        if not case["hot"] and file_digest(W.root) != img:
            raise Violation("source-changed", "[%s] a fault-free %s changed the source" % (case["fmt"], case["mode"]))
        reached = []
        for flt in case["faults"]:
            self.restore(img)
            probe = world.Fault(0, flt["kind"], flt.get("cls", "any"), 1, flt.get("only"))
            m = sum(1 for k in kinds if probe.match(k))
            if not m:
                continue
            fl = faults_of({"faults": [flt]}, m)[0]
            out = call(go, [fl])
            step = W.fired[-1][1] if fl.fired else None
            res = view(out.value) if out.ok else None
            err = str(out)
            out.value = out.error = None
            W.restart()
            when = "[%s] %s with %s at step %d of %d (%s)" % (case["fmt"], case["mode"], fl.kind, fl.at, m, step)
            if out.ok and res not in wants:
                raise Violation("partial-read", "%s succeeded with wrong data: %s" % (when, self.diff(case, want, res)))
            if not case["hot"] and file_digest(W.root) != img:
                raise Violation("source-changed", "%s changed the source (%s)" % (when, err))
            again = view(must("%s once the faults are gone (%s, %s)" % (case["mode"], when, err), go))
            W.restart()
            if again not in wants:
                raise Violation("wrong-content", "%s (%s); repeated without faults: %s" % (when, err, self.diff(case, want, again)))
            W.count("after:" + out.status)
            if fl.fired:
                reached.append((fl.kind, step, out.status))
        if not reached:
            return None
        return (case["fmt"], case["mode"], case["hot"], (case.get("cut") or [None])[0], tuple(sorted(o.items(), key=str)), tuple(sorted(map(repr, reached))))

    def diff(self, case, a, b):
        return gen.diff(a, b) if case["mode"] == "read" else "expected %s, got %s" % (a, b)

    def restore(self, img):
        cur = file_digest(W.root)
        if cur == img:
            return
        for k in cur:
            if k not in img and not k.endswith("/"):
                world.real_remove(W.path(k))
        for k, b in img.items():
            if b is not None and cur.get(k) != b:
                with world.real_open(W.path(k), "wb") as g:
                    g.write(b)

    def make_hot(self, case, fm, f, s, o, src, want):
        """a writer was killed inside its commit: the database has a journal that the next reader rolls back"""
        data2 = {t: list(rows[:max(0, len(rows) - 1)]) for t, rows in case["data"].items()}
        dat2 = fm.build(f, s, data2)

        def go(p):
            return lambda: fm.write(f, dat2, p, True, o)
        scratch = W.path("scratch.db")
        copy_any(src, scratch)
        p0 = len(W.events)
        count_steps(go(scratch), "the second write")
        steps = steps_since(p0)
        W.restart()
        world.real_remove(scratch)
        last = [i for i, k in enumerate(steps) if k == "sqlite.write"][-1:] or [len(steps) - 1]
        call(go(src), [Fault(last[0], "crash")])
        W.restart()
        if os.path.exists(src + "-journal"):
            W.count("hot_journal")
        if fm.name.startswith("psqlite"):       # (a data frame writer replaces table by table: each table is the old or the new one)
            return _PerTable(s, want, want_rows(s, data2))
        return [want]

    def write_with_dups(self, case, fm, s, o, src):
        """the same tables without their primary keys, some rows twice"""
        s2 = {"tables": [[t, [], p + d] for t, p, d in s["tables"]], "fks": [], "kinds": s["kinds"], "generators": [], "params": [],
              "types": s["types"], "flag": s["flag"],
              "defaults": [[t, f, ""] for t, p, d in s["tables"] for f in p
                           if s["kinds"][t + "|" + f].replace("fk:", "") in ("text", "zip", "param")] +
              [x for x in s["defaults"]]}
        data = {t: list(r) for t, r in case["data"].items()}
        want = {}
        i = 0
        for t, pks, dfs in s["tables"]:
            rows = data[t]
            for row in list(rows):
                if case["repeat"][i % len(case["repeat"])] < .5:
                    rows.insert(int(case["repeat"][(i + 3) % len(case["repeat"])] * len(rows)), list(row))
                i += 1
            if pks:
                c = {}
                for row in rows:
                    k = tuple(gen.dec(v) for v in row[:len(pks)])
                    k = k[0] if len(pks) == 1 else k
                    c[k] = c.get(k, 0) + 1
                c = {k: n for k, n in c.items() if n > 1}
                if c:
                    want[t] = c
        f2 = tdf_of(s2)
        must("writing a file with duplicates", lambda: fm.write(f2, gen.build_dat(f2, s2, data), src, False, o))
        return want


class _PerTable:
    def __init__(self, s, a, b):
        self.a, self.b = a, b

    def __contains__(self, got):
        return set(got) == set(self.a) and all(got[t] in (self.a[t], self.b[t], []) for t in got)


CHECK = P05()

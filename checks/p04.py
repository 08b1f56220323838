"""A refused write changes nothing: histories of allowed and refused writes over one simulated disk."""
from .formats import *

PROF = gen.Profile(kinds=("int", "float", "null", "text", "zip", "dt", "mixed", "ntext"), pk_kinds=("int", "text", "zip"),
                   flags=("N/A", "N/A", 999999999), texts=gen.PLAIN + ["naïve", "milk, 2%", "O'Neil"], max_rows=6, generic=GEN_KINDS, bare=True)
TIC = ["sqlite", "json", "json_pd", "csv", "csv", "xls", "xlsx", "sqltxt"]
PAN = ["pjson", "pjson_pd", "pcsv", "pxlsx", "psqlite"]
BAD = ["overwrite", "overwrite", "overwrite", "object", "object", "value", "value", "path", "extension", "foreign"]


class Odd(object):
    """a value no format can store"""

    def __lt__(self, other):
        return False


class P04(Check):
    ID = "P04"

    def gen(self, rng, r):
        s = gen.gen_schema(rng, PROF)
        n = rng.choice([1, 2, 3])
        targets = []
        for i in range(n):
            name = rng.choice([x for x in TIC + TIC + PAN if not s.get("generic") or x not in ("json", "json_pd", "pjson")])
            if "sqlite" in name:
                s["bare"] = False
            targets.append([name, F[name].gen_opts(rng, s)])
        ops = []
        for _ in range(rng.randrange(3, 11)):
            i = rng.randrange(n)
            if rng.random() < .45:
                ops.append({"op": "write", "t": i, "data": rng.randrange(3)})
            else:
                ops.append({"op": rng.choice(BAD), "t": i, "data": rng.randrange(3), "how": rng.randrange(4),
                            "cs": rng.random() < .5})
        case = {"schema": s, "targets": targets, "ops": ops}
        for k in range(3):
            d = gen.gen_data(rng, s, PROF)
            for t, pks, dfs in s["tables"]:
                d[t] = [[.25 if v == 1 / 3. else v for v in row] for row in d[t] if pks or any(v is not None for v in row)]
            case["data%d" % k] = d
        return case

    def run(self, case):
        s = case["schema"]
        tdf, pdf = tdf_of(s), pdf_of(s)
        datas = [case["data%d" % k] for k in range(3)]
        wants = [want_rows(s, d) for d in datas]
        state = [None] * len(case["targets"])     # which data set each target holds
        reached = []
        for n, op in enumerate(case["ops"]):
            i = op["t"]
            name, o = case["targets"][i]
            fm = F[name]
            f = pdf if fm.pan else tdf
            p = fm.path("t%d" % i)
            dat = fm.build(f, s, datas[op["data"]])
            if op["op"] == "write":
                before = self.others(p)
                must("operation %d, a permitted write (%s)" % (n, name),
                     lambda: fm.write(f, dat, p, True if state[i] is not None else (op["data"] % 2 == 0), o))
                W.restart()
                state[i] = op["data"]
                if self.others(p) != before:
                    raise Violation("collateral", "operation %d: writing %s changed other files" % (n, os.path.basename(p)))
                self.check("after operation %d" % n, fm, f, s, p, o, wants[op["data"]])
                continue
            fn, what = self.refusal(op, fm, f, s, p, o, dat, state[i], datas[op["data"]])
            if fn is None:
                continue
            before = file_digest(W.root)
            out = call(fn)
            err = str(out)
            W.restart()
            W.count("refusal:%s:%s" % (op["op"], name))
            if out.ok:
                raise Violation("not-refused", "operation %d: %s (%s) was accepted" % (n, what, name))
            after = file_digest(W.root)
            self.compare(n, what, name, err, before, after, may_create=op["op"] in ("value",) and name == "sqlite")
            reached.append((op["op"], name, state[i] is not None, op["how"]))
            for j, k in enumerate(state):
                if k is not None:
                    nm, oo = case["targets"][j]
                    self.check("after the refused operation %d (%s)" % (n, what), F[nm], pdf if F[nm].pan else tdf, s,
                               F[nm].path("t%d" % j), oo, wants[k])
        if not reached:
            return None
        return tuple(sorted(set(map(repr, reached))))

    def refusal(self, op, fm, f, s, p, o, dat, held, data):
        kind, how = op["op"], op["how"]
        if kind == "overwrite":
            if held is None:
                return None, None
            if fm.name == "psqlite":
                return lambda: f.sql.write_file(dat, p, if_exists="fail", case_space_table_names=o["case_space"]), \
                    "a write with if_exists='fail' over existing tables"
            if fm.pan:
                return None, None
            if fm.name == "csv" and how < 2:
                # only one table's file is still there
                return lambda: self.partial_csv(fm, f, dat, p, o, how), "a write without allow_overwrite over one table's existing file"
            if fm.name == "sqlite" and not any(self.rows_in(fm, f, s, p, o).values()):
                return None, None       # (no data records yet: this is allowed)
            return lambda: fm.write(f, dat, p, False, o), "a write without allow_overwrite over an existing target"
        if kind == "object":
            bad = [None, "not a data object", 7, dict(a=1)][how]
            if how == 3:
                other = type(f)(**{"zz_other": [["a"], ["b"]]})
                bad = (other.PanDat if fm.pan else other.TicDat)(zz_other=[[1, 2]]) if not fm.pan else other.PanDat()
            return lambda: fm.write(f, bad, p, True, o), "writing something that is not a data object of the schema"
        if kind == "foreign":
            # looks right, but a table lost a column / holds something else
            t, pks, dfs = s["tables"][how % len(s["tables"])]
            if fm.pan and t in s.get("generic", ()):
                return None, None
            if fm.pan:
                df = getattr(dat, t)
                cols = [c for c in df.columns][:-1]
                setattr(dat, t, df[cols])
            else:
                setattr(dat, t, "junk")
            return lambda: fm.write(f, dat, p, True, o), "writing an object one of whose tables does not fit the schema"
        if kind == "value":
            if fm.family == "csv" or fm.name in ("psqlite", "pxlsx", "pjson_pd", "json_pd", "sqltxt"):
                return None, None
            v = [Odd(), complex(1, 2), Odd, Odd()][how]
            for t, pks, dfs in reversed(s["tables"]):
                if t == "parameters" or t in s.get("generic", ()) or not dfs or not data.get(t):
                    continue
                if fm.pan:
                    df = getattr(dat, t)
                    df[dfs[-1]] = df[dfs[-1]].astype(object)
                    df.iloc[len(df) - 1, list(df.columns).index(dfs[-1])] = v
                elif pks:
                    tbl = getattr(dat, t)
                    tbl[list(tbl)[-1]][dfs[-1]] = v
                else:
                    getattr(dat, t)[-1][dfs[-1]] = v
                return lambda: fm.write(f, dat, p, True, o), "writing a value the format cannot store"
            return None, None
        if kind == "path":
            if fm.suffix == ".d":
                q = W.path("plain_file%d" % how)
                if not os.path.exists(q):
                    with world.real_open(q, "w") as g:
                        g.write("hello")
            elif how < 2:
                q = W.path("a_directory%d%s" % (how, fm.suffix))
                if not os.path.exists(q):
                    world.real_mkdir(q)
                    with world.real_open(os.path.join(q, "inside.txt"), "w") as g:
                        g.write("hello")
            elif how == 2 or fm.family != "sql" or fm.name == "sqltxt":
                q = W.path("no", "such", "place" + fm.suffix)
            else:
                q = W.path("not_a_db%s" % fm.suffix)
                if not os.path.exists(q):
                    with world.real_open(q, "w") as g:
                        g.write("this is a text file, not a database " * 40)
            return lambda: fm.write(f, dat, q, True, o), "writing to a path of the wrong kind (%s)" % os.path.basename(q)
        if kind == "extension":
            if fm.name not in ("xls", "xlsx"):
                return None, None
            q = W.path("book.%s" % ["txt", "xlsb", "csv", "xlsx2"][how])
            return lambda: fm.write(f, dat, q, True, o), "writing an Excel file with a wrong extension"
        return None, None

    def partial_csv(self, fm, f, dat, p, o, how):
        # (the other files are put aside and back, with the seams off)
        names = sorted(world.real_listdir(p))
        keep = names[-1] if how else names[0]
        aside = {}
        for nm in names:
            if nm != keep:
                q = os.path.join(p, nm)
                with world.real_open(q, "rb") as g:
                    aside[q] = g.read()
                world.real_remove(q)
        try:
            return fm.write(f, dat, p, False, o)
        finally:
            left = sorted(world.real_listdir(p))
            for q, b in aside.items():
                with world.real_open(q, "wb") as g:
                    g.write(b)
            if left != [keep]:
                raise Violation("changed-by-refusal", "a write refused because %s exists left %s in the directory" % (keep, left))

    def rows_in(self, fm, f, s, p, o):
        return fm.rows(must("reading", lambda: fm.read(f, p, o)), s)

    def check(self, when, fm, f, s, p, o, want):
        got = self.rows_in(fm, f, s, p, o)
        if got != want:
            raise Violation("wrong-content", "%s [%s]: %s" % (when, fm.name, gen.diff(want, got)))

    def others(self, p):
        rel = os.path.relpath(p, W.root)
        return {k: v for k, v in file_digest(W.root).items() if not (k == rel or k.startswith(rel + "/") or k.startswith(rel + "-"))}

    def compare(self, n, what, name, err, before, after, may_create):
        for k in sorted(set(before) | set(after)):
            if k in before and k not in after:
                raise Violation("changed-by-refusal", "operation %d, %s (%s): refused with %s, but %s is gone" % (n, what, name, err, k))
            if k not in before:
                if may_create:
                    continue
                raise Violation("changed-by-refusal", "operation %d, %s (%s): refused with %s, but %s was created" % (
                    n, what, name, err, k))
            if before[k] != after[k]:
                if k.endswith(".db") and name in ("sqlite", "psqlite"):
                    if raw_sqlite(W.path(k)) == raw_of(before[k]):
                        continue
                raise Violation("changed-by-refusal", "operation %d, %s (%s): refused with %s, but %s was changed (%s bytes before, "
                                "%s after)" % (n, what, name, err, k, len(before[k]), len(after[k])))


def raw_of(b):
    q = os.path.join(W.temp_dir(), "before.db")
    with world.real_open(q, "wb") as g:
        g.write(b)
    try:
        return raw_sqlite(q)
    finally:
        world.real_remove(q)


CHECK = P04()

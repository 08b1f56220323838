"""
The command line driver (standard_main): solve runs at most once and only on exactly the data of the input, integrity errors are
listed and stop it, and the output is exactly the solution - whatever I/O step of the whole run fails.
"""
import sys

from .formats import *
from .ops import plain

EXT = {False: {"json": "json", "xls": "xls", "xlsx": "xlsx", "db": "sqlite", "sql": "sqltxt", "dir": "csv"},
       True: {"json": "pjson", "xlsx": "pxlsx", "db": "psqlite", "dir": "pcsv"}}
DEF = {"csv": {"dialect": "excel", "header": True, "case_space": False}, "xls": {"case_space": False}, "xlsx": {"case_space": False},
       "sqltxt": {"schema": False}, "json": {}, "sqlite": {}, "pjson": {}, "pxlsx": {"case_space": False},
       "psqlite": {"case_space": False}, "pcsv": {"case_space": False, "sep": ","}}
ERR_TABLES = ["duplicate_rows", "data_type_failures", "foreign_key_failures", "data_row_failures"]
SOLVES = ["ok"] * 6 + ["tuple", "tuple", "mutate", "none", "false", "tuple none", "raise", "raise", "exit", "wrong", "frame"]


class SolveBoom(Exception):
    pass


class PredBoom(Exception):
    pass


def loose(v):
    """as compared in the errors file, whose columns mix everything (a number in a text column of SQLite keeps 15 digits)"""
    return rounded(_loose(gen.canon(v)))


def rounded(c):
    return ("n", float("%.14g" % c[1])) if c is not None and c[0] == "n" else c


def _loose(c):
    if c is None or c == ("s", ""):
        return None
    if c[0] == "b":
        return ("n", float(c[1]))
    if c[0] == "d":
        return ("s", c[1])
    if c[0] == "s":
        try:
            return ("n", float(c[1]))
        except ValueError:
            return c
    return c


class P11(Check):
    ID = "P11"

    def gen(self, rng, r):
        pan = rng.random() < .45
        ein, eout = rng.choice(sorted(EXT[pan])), rng.choice(sorted(EXT[pan]))
        fin, fout = F[EXT[pan][ein]], F[EXT[pan][eout]]
        s, so = fin.gen_case(rng, fk_prob=.7), fout.gen_case(rng)
        s["generators"], so["generators"] = [], []
        case = {"pan": pan, "in": ein, "out": eout, "schema": s, "sol": so, "cs": rng.random() < .2, "rounds": []}
        # (the readers match table names in any spelling only without case_space=False... the driver's readers accept both)
        case["err"] = rng.choice([None, None, "json", "xlsx", "db", "dir"])
        case["argv"] = [rng.random() < .5, rng.random() < .5, rng.random() < .5, rng.random()]
        case["preds"] = []
        if case["err"]:
            for t, pks, dfs in s["tables"]:
                if t != "parameters" and (pan or t not in s.get("generic", ())) and rng.random() < .5:
                    case["preds"].append([t, "check " + t, rng.choice(pks + dfs), rng.choice(["bool", "msg", "maker", "maker", "boom"])])
        case["shuffle"] = pan and ein != "json" and rng.random() < .3
        case["extra"] = pan and ein != "json" and rng.random() < .2
        for i in range(rng.choice([1, 1, 2])):
            rd = {"data": fin.gen_data(rng, s, max_rows=8, min_rows=rng.choice([0, 1, 3])), "sln": fout.gen_data(rng, so, max_rows=8),
                  "solve": rng.choice(SOLVES), "state": rng.choice(["ok"] * 7 + ["missing", "odd"] + ["dups"] * 2), "spoil": [],
                  "fail": [], "repeat": [rng.random() for _ in range(8)],
                  "faults": rand_faults(rng, 5, ["eio", "eio", "full", "perm", "nofile", "busy", "torn", "crash"], cls=("any", "any", "r", "w"),
                                        sticky=(1, 1, 3, 1000))}
            for f in rd["faults"]:
                if f["kind"] == "crash":
                    f["sticky"] = 1
                if f["kind"] in ("perm", "nofile"):
                    f["only"] = ["file.openr", "file.openw", "sqlite.open", "file.listdir", "file.mkdir"]
            if pan and rd["state"] == "dups" and fin.name == "sqltxt":
                rd["state"] = "ok"
            if case["err"] and rng.random() < .6:
                rd["spoil"] = [[rng.choice(["type", "type", "fk", "fk", "dup"]), rng.random(), rng.random()] for _ in range(rng.choice([1, 1, 2, 4]))]
                if rng.random() < .5:
                    rd["fail"] = [[rng.random(), rng.random()] for _ in range(rng.choice([1, 2, 5]))]
            if rd["solve"] == "raise" and rng.random() < .5:
                rd["partial"] = True
            case["rounds"].append(rd)
        return case

    # ---- the input of one round ---------------------------------------------------------------------------------------
    def spoiled(self, case, rd):
        """the data with the failures this round is to have"""
        s = case["schema"]
        data = {t: [list(x) for x in rows] for t, rows in rd["data"].items()}
        typed = {(t, f): kw for t, f, kw in s["types"]}
        for what, a, b in rd["spoil"]:
            if what == "type":
                cand = [(t, f, (p + d).index(f)) for t, p, d in s["tables"] if data.get(t) for f in d
                        if s["kinds"].get(t + "|" + f) in ("int", "float", "null") and (t, f) in typed]
                if cand:
                    t, f, i = cand[int(a * len(cand))]
                    data[t][int(b * len(data[t]))][i] = "bad"
            elif what == "fk":
                cand = [(n, x) for n, ft, m in s["fks"] for x, y in m if data.get(n) and x in [d for t, p, d in s["tables"] if t == n][0]]
                if cand:
                    t, f = cand[int(a * len(cand))]
                    p, d = [(p, d) for x, p, d in s["tables"] if x == t][0]
                    data[t][int(b * len(data[t]))][(p + d).index(f)] = "zz" if s["kinds"][t + "|" + f][3:] not in ("int", "float") else 31337
            elif what == "dup" and case["pan"]:
                cand = [t for t, p, d in s["tables"] if p and data.get(t)]
                if cand:
                    t = cand[int(a * len(cand))]
                    data[t].append(list(data[t][int(b * len(data[t]))]))
        return data

    def bad_values(self, case, rd, data):
        """{predicate number: the values of its field that it fails}"""
        rtn = {i: set() for i in range(len(case["preds"]))}
        for a, b in rd["fail"]:
            cand = [i for i, p in enumerate(case["preds"]) if data.get(p[0])]
            if cand:
                i = cand[int(a * len(cand))]
                rows = gen.rows_of_data(case["schema"], data)[case["preds"][i][0]]
                rtn[i].add(rows[int(b * len(rows))][self.index(case, i)])
        return rtn

    def index(self, case, i):
        t, name, f, how = case["preds"][i]
        p, d = [(p, d) for x, p, d in case["schema"]["tables"] if x == t][0]
        return (p + d).index(f)

    def errors(self, case, rd, data):
        """what the errors file has to list, or None if a predicate raises"""
        s = case["schema"]
        rows = gen.rows_of_data(s, data)
        bad = self.bad_values(case, rd, data)
        out = {t: [] for t in ERR_TABLES}
        idn = {t: 0 if t in s.get("generic", ()) else len(p or d) for t, p, d in s["tables"]}
        typed = {(t, f): kw for t, f, kw in s["types"]}
        for t, p, d in s["tables"]:
            seen = set()
            for row in rows[t]:
                ids = tuple(row[:idn[t]])
                if p:
                    if ids in seen:
                        out["duplicate_rows"].append((t,) + ids)
                    seen.add(ids)
                for i, f in enumerate(p + d):
                    if (t, f) in typed and s["kinds"].get(t + "|" + f) in ("int", "float", "null") and row[i] == ("s", "bad"):
                        out["data_type_failures"].append((t, f) + ids)
        for n, ft, m in s["fks"]:
            p, d = [(p, d) for x, p, d in s["tables"] if x == n][0]
            fp, fd = [(p, d) for x, p, d in s["tables"] if x == ft][0]
            ns, fs = [(p + d).index(x) for x, y in m], [(fp + fd).index(y) for x, y in m]
            pool = {tuple(row[i] for i in fs) for row in rows[ft]}
            for row in rows[n]:
                if tuple(row[i] for i in ns) not in pool:
                    out["foreign_key_failures"].append((n, ft) + tuple(row[:idn[n]]))
        boom = False
        for i, (t, name, f, how) in enumerate(case["preds"]):
            for row in rows[t]:
                if row[self.index(case, i)] in bad[i]:
                    boom = boom or how == "boom"
                    out["data_row_failures"].append((t, name, "it is bad" if how == "msg" else None) + tuple(row[:idn[t]]))
        return None if boom else {t: sorted((tuple(loose2(x) for x in row) for row in v), key=repr) for t, v in out.items()}

    # ---- the run ----------------------------------------------------------------------------------------------------------
    def run(self, case):
        import ticdat
        from ticdat import utils
        pan, s, so = case["pan"], case["schema"], case["sol"]
        cls = PanDatFactory if pan else TicDatFactory
        fin, fout = F[EXT[pan][case["in"]]], F[EXT[pan][case["out"]]]
        inp, outp = (W.path(n + ("" if case[n] == "dir" else "." + case[n])) for n in ("in", "out"))
        inp, outp = W.path("in" + sfx(case["in"])), W.path("out" + sfx(case["out"]))
        errp = W.path("err" + sfx(case["err"])) if case["err"] else None
        bad, box = {}, {}

        def factory():
            f = gen.build_factory(s, cls)
            for i, (t, name, fld, how) in enumerate(case["preds"]):
                def check(row, bad=None, i=i, fld=fld, how=how):
                    hit = gen.canon(row[fld]) in (bad if how == "maker" else box["bad"][i])
                    if hit and how == "boom":
                        raise PredBoom("predicate")
                    return True if not hit else "it is bad" if how == "msg" else False

                def maker(dat, i=i):
                    box["maker"].append((pan_rows if pan else tic_rows)(dat, s))
                    return {"bad": box["bad"][i]}
                f.add_data_row_predicate(t, check, name, predicate_kwargs_maker=maker if how == "maker" else None,
                                         predicate_failure_response="Error Message" if how == "msg" else "Boolean")
            return f
        f_in, f_out = factory(), gen.build_factory(so, cls)
        argv = ["engine.py"]
        lng, eq, rel, order = case["argv"]
        parts = []
        for short_, long_, p in (("-i", "--input", inp), ("-o", "--output", outp), ("-e", "--errors", errp)):
            if p is None or (rel and os.path.basename(p) in ("input.xlsx", "output.xlsx")):
                continue
            p = os.path.basename(p) if rel else p
            parts.append([long_ + "=" + p] if lng and eq else [long_, p] if lng else [short_, p] if not eq else [short_ + p])
        random.Random(order).shuffle(parts)
        argv += [x for p in parts for x in p]

        def main():
            old, cwd = sys.argv, os.getcwd()
            sys.argv = list(argv)
            os.chdir(W.root)
            try:
                ticdat.standard_main(f_in, f_out, box["solve"], case["cs"])
            finally:
                sys.argv = old
                os.chdir(cwd)
        feats = []
        for k, rd in enumerate(case["rounds"]):
            W.restart()
            wipe(inp)
            data = self.spoiled(case, rd)
            state = rd["state"]
            has_dups = False
            if state == "dups" and not pan and fin.name != "sqltxt":
                from .p05 import P05
                want = P05.write_with_dups(self, {"data": data, "repeat": rd["repeat"]}, fin, s, DEF[fin.name], inp)
                has_dups = bool(want)
                data = None if has_dups else data
            elif state == "missing":
                pass
            elif state == "odd":
                self.odd_input(inp, case["in"])
            if state not in ("missing", "odd") and not has_dups:
                wipe(inp)
                self.write_input(case, fin, s, data, inp)
                if rd["spoil"] and must("reading the input", lambda: fin.rows(fin.read(f_in, inp, DEF[fin.name]), s)) != want_rows(s, data):
                    W.count("invalid data not carried by the format")
                    feats.append("not carried")      # (this format cannot carry such invalid data as it is)
                    continue
            box["bad"] = self.bad_values(case, rd, data) if data is not None else {i: set() for i in range(len(case["preds"]))}
            W.restart()
            img = file_digest(W.root)

            def go(plan=()):
                box.update(calls=[], maker=[], solve=self.make_solve(case, rd, f_out, s, so, pan, cls, box))
                o = exit_call(main, plan)
                if o.error is not None:
                    o.error = o.error.with_traceback(None)
                return o
            p0, n0 = len(W.events), W.nstep
            o = go()
            kinds = steps_since(p0)
            W.restart()
            when = "round %d, %s -> %s%s, input %s, solve %s" % (k, case["in"], case["out"], ", errors " + case["err"] if errp else "", state,
                                                             rd["solve"])
            end = self.judge(case, rd, o, data, has_dups, img, when, False, f_out, fout, outp, errp, box, s, so)
            feats.append((state, rd["solve"], end))
            W.count("ended: " + end)
            if errp and data is not None and self.errors(case, rd, data):
                for x, y in self.errors(case, rd, data).items():
                    if y:
                        W.count("listed: " + x)
                        if case["extra"] or case["shuffle"]:
                            W.count("listed with other columns: " + x)
            done = file_digest(W.root)
            for flt in rd["faults"]:
                restore(img)
                probe = world.Fault(0, flt["kind"], flt.get("cls", "any"), 1, flt.get("only"))
                m = sum(1 for x in kinds if probe.match(x))
                if not m:
                    continue
                fl = faults_of({"faults": [flt]}, m)[0]
                o = go([fl])
                step = W.fired[-1][1] if fl.fired else None
                err = str(o)
                calls = list(box["calls"])
                W.restart()
                w2 = "%s with %s at step %d of %d (%s)" % (when, fl.kind, fl.at, m, step)
                self.judge(case, rd, o, data, has_dups, img, w2, bool(fl.fired), f_out, fout, outp, errp, box, s, so)
                if fl.fired:
                    feats.append((fl.kind, step, o.status, len(calls)))
                    o = go()
                    W.restart()
                    self.judge(case, rd, o, data, has_dups, None, w2 + " (%s), then repeated without faults" % err, False, f_out, fout, outp,
                               errp, box, s, so)
            restore(done)
        return (pan, case["in"], case["out"], case["err"], tuple(map(repr, feats)))

    def write_input(self, case, fin, s, data, inp):
        if not (case["shuffle"] or case["extra"]):
            f = gen.build_factory(s, PanDatFactory if case["pan"] else TicDatFactory)
            must("writing the input", lambda: fin.write(f, fin.build(f, s, data), inp, False, DEF[fin.name]))
            return
        # the file's columns are in another order, or there are more of them
        tables, rows2 = [], {}
        for t, p, d in s["tables"]:
            cols = p + d
            order = sorted(range(len(cols)), key=lambda i: (hash_of(cols[i]) if case["shuffle"] else i))
            extra = ["zz extra"] if case["extra"] and t != "parameters" and t not in s.get("generic", ()) else []
            tables.append([t, [], [cols[i] for i in order] + extra])
            rows2[t] = [[r[i] for i in order] + ["more"] * len(extra) for r in data[t]]
        s2 = dict(s, tables=tables, fks=[], params=[], types=[x for x in s["types"]],
                  defaults=[x for x in s["defaults"] if x[0] != "parameters"])
        f = gen.build_factory(s2, PanDatFactory)
        must("writing the input", lambda: fin.write(f, fin.build(f, s2, rows2), inp, False, DEF[fin.name]))

    def odd_input(self, inp, ext):
        """something else than what the name promises"""
        if ext == "dir":
            with world.real_open(inp, "w") as f:
                f.write("not a directory")
        else:
            os.mkdir(inp)

    def make_solve(self, case, rd, f_out, s, so, pan, cls, box):
        how = rd["solve"]

        def solve(dat):
            box["calls"].append((pan_rows if pan else tic_rows)(dat, s))
            sln = gen.build_pan(f_out, so, rd["sln"]) if pan else gen.build_dat(f_out, so, rd["sln"])
            if how == "mutate":
                for t, p, d in s["tables"]:
                    tbl = getattr(dat, t)
                    if pan or t in s.get("generic", ()):
                        setattr(dat, t, tbl.iloc[:0])
                    else:
                        tbl.clear()
            if how == "raise":
                raise SolveBoom("solve")
            if how == "exit":
                raise SystemExit(3)
            if how == "frame":
                import pandas as pd
                return pd.DataFrame({"x": [1, 2]})
            return {"ok": sln, "mutate": sln, "tuple": ("a message", sln), "none": None, "false": False, "tuple none": ("nothing", None),
                    "wrong": "done"}[how]
        return solve

    def judge(self, case, rd, o, data, has_dups, img, when, faulted, f_out, fout, outp, errp, box, s, so):
        calls = box["calls"]
        if o.status == "crashed":
            if len(calls) > 1:
                raise Violation("solved-twice", "%s: solve was called %d times" % (when, len(calls)))
            self.check_calls(calls, data, has_dups, rd, s, when)
            return "crashed"
        blocked = has_dups or rd["state"] in ("missing", "odd")
        errs = None if blocked or not errp else self.errors(case, rd, data)
        boom = bool(errp) and not blocked and errs is None
        n_err = 0 if errs is None else sum(map(len, errs.values()))
        if len(calls) > 1:
            raise Violation("solved-twice", "%s: solve was called %d times" % (when, len(calls)))
        self.check_calls(calls, data, has_dups, rd, s, when)
        if calls and (boom or n_err):
            raise Violation("solved-bad-data", "%s: solve was called in spite of %s" % (when, errs))
        for m in box["maker"]:
            if blocked:
                raise Violation("checked-bad-input", "%s: an argument maker was called, with %s" % (when, short(m)))
            if m != want_rows(s, data):
                raise Violation("wrong-data", "%s: an argument maker was given other data than the input's: %s" % (when, gen.diff(want_rows(s, data), m)))
        now = None
        if img is not None and (not calls or rd["solve"] not in ("ok", "tuple", "mutate")):
            now = file_digest(W.root)
            for k in set(img) | set(now):
                top = k.split("/")[0]
                if img.get(k, 0) != now.get(k, 0) and top != os.path.basename(errp or "-") and not journal_of(top, errp):
                    raise Violation("touched", "%s: %s changed although there was no solution (%s)" % (when, k, o))
        must_raise = (has_dups or rd["state"] == "odd" or boom or not blocked and not n_err and rd["solve"] in ("raise", "exit", "wrong", "frame"))
        if not o.ok:
            if not faulted and not must_raise:
                raise Violation("unexpected-failure", "%s: %s" % (when, o))
            if not faulted and not boom and not blocked and not n_err and rd["solve"] in ("raise", "exit"):
                want = SolveBoom if rd["solve"] == "raise" else SystemExit
                if not isinstance(o.error, want):
                    raise Violation("wrong-exception", "%s: the exception of solve became %s" % (when, o))
            return "raised"
        if must_raise:
            raise Violation("not-raised", "%s returned normally" % when)
        if rd["state"] == "missing":
            return "missing"
        if errp:
            got = self.read_errors(errp, case, when)
            if got != errs:
                raise Violation("wrong-errors", "%s: the errors file lists %s, expected %s" % (when, got, errs))
            if n_err:
                return "errors"
        if not calls:
            raise Violation("not-solved", "%s: returned normally without calling solve" % when)
        if rd["solve"] in ("ok", "tuple", "mutate"):
            have = must("%s: reading the output" % when, lambda: fout.rows(fout.read(f_out, outp, DEF[fout.name]), so))
            W.restart()
            if have != want_rows(so, rd["sln"]):
                raise Violation("wrong-output", "%s: %s" % (when, gen.diff(want_rows(so, rd["sln"]), have)))
            return "solved"
        return "no solution"

    def check_calls(self, calls, data, has_dups, rd, s, when):
        if calls and (has_dups or rd["state"] in ("missing", "odd")):
            raise Violation("solved-bad-input", "%s: solve was called" % when)
        for c in calls:
            if c != want_rows(s, data):
                raise Violation("wrong-data", "%s: solve was given other data than the input's: %s" % (when, gen.diff(want_rows(s, data), c)))

    def read_errors(self, errp, case, when):
        n = max(0 if t in case["schema"].get("generic", ()) else len(p or d) for t, p, d in case["schema"]["tables"])
        flds = ["Field %d" % (i + 1) for i in range(n)]
        f = PanDatFactory(duplicate_rows=[["Table Name"] + flds, []], data_type_failures=[["Table Name", "Field Name"] + flds, []],
                          data_row_failures=[["Table Name", "Predicate Name", "Error Message"] + flds, []],
                          foreign_key_failures=[["Native Table", "Foreign Table", "Mapping"] + flds, []])
        for t in ERR_TABLES:
            for x in f.primary_key_fields[t]:
                f.set_data_type(t, x, number_allowed=True, min=-float("inf"), max=float("inf"), inclusive_max=True, strings_allowed="*",
                                nullable=True)
        fm = F[EXT[True][case["err"]]]
        d = must("%s: reading the errors file" % when, lambda: fm.read(f, errp, DEF[fm.name]))
        W.restart()
        rtn = {}
        idn = {t: 0 if t in case["schema"].get("generic", ()) else len(p or d) for t, p, d in case["schema"]["tables"]}
        for t in ERR_TABLES:
            df = getattr(d, t)
            rows = []
            for row in zip(*[list(df[c]) for c in f.primary_key_fields[t] if c != "Mapping"]):
                head = {"duplicate_rows": 1, "data_type_failures": 2, "foreign_key_failures": 2, "data_row_failures": 3}[t]
                row = [loose(x) for x in row]
                k = head + idn[row[0][1]]
                if any(x is not None for x in row[k:]):
                    raise Violation("wrong-errors", "%s: %s has values for fields that are not there: %s" % (when, t, row))
                rows.append(tuple(row[:k]))
            rtn[t] = sorted(rows, key=repr)
        return rtn

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        for i in range(len(case["rounds"])):
            if len(case["rounds"]) > 1:
                c = copy.deepcopy(case)
                del c["rounds"][i]
                yield c
            for key in ("faults", "spoil", "fail"):
                for cand in shrink_list(case["rounds"][i][key]):
                    c = copy.deepcopy(case)
                    c["rounds"][i][key] = cand
                    yield c
            for key in ("data", "sln"):
                for t in sorted(case["rounds"][i][key]):
                    for cand in shrink_list(case["rounds"][i][key][t]):
                        c = copy.deepcopy(case)
                        c["rounds"][i][key][t] = cand
                        yield c
        for key in ("shuffle", "extra", "cs", "err"):
            if case[key]:
                c = copy.deepcopy(case)
                c[key] = None if key == "err" else False
                yield c
        for cand in shrink_list(case["preds"]):
            c = copy.deepcopy(case)
            c["preds"] = cand
            yield c


def loose2(c):
    """(an already canonical value)"""
    if c is None or not isinstance(c, tuple):
        return loose(c)
    if c[0] == "d":
        return ("s", c[1])
    if c[0] == "b":
        return ("n", float(c[1]))
    return loose(c[1]) if c[0] == "s" else rounded(c)


def hash_of(x):
    import hashlib
    return hashlib.sha256(x.encode()).hexdigest()


def sfx(ext):
    return "put.xlsx" if ext == "xlsx" else "dir" if ext == "dir" else "." + ext if ext else ""


def journal_of(name, p):
    return bool(p) and name == os.path.basename(p) + "-journal"


def exit_call(fn, plan):
    """as call(), but the code under test may leave by SystemExit"""
    def inner():
        try:
            fn()
        except SystemExit as e:
            box.append(e)
    box = []
    o = call(inner, plan)
    if o.ok and box:
        return Outcome("error", error=box[0])
    return o


def wipe(p):
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        world.real_remove(p)


def restore(img):
    cur = file_digest(W.root)
    for k in sorted(cur, reverse=True):
        if k not in img:
            if k.endswith("/"):
                os.rmdir(W.path(k[:-1]))
            else:
                world.real_remove(W.path(k))
    for k in sorted(img):
        b = img[k]
        if b is None:
            if not os.path.isdir(W.path(k[:-1])):
                os.makedirs(W.path(k[:-1]))
        elif cur.get(k) != b:
            with world.real_open(W.path(k), "wb") as g:
                g.write(b)


CHECK = P11()

"""
A frozen data object never changes: seeded histories of direct edits (through the object or through names held from before it
was frozen), factory operations and faulty I/O, by one or several threads under the seeded scheduler.
"""
import operator
import warnings

import pandas

from .common import *
from . import ops as O
from .formats import F
from sim import base as _base
from sim.sched import Sched

warnings.simplefilter("ignore", FutureWarning)     # (pandas: a cell of another type)
FM = O.make_fmt(O.GEN_KINDS)
DICT_MUTS = ["setitem", "setnew", "delitem", "update", "updatekw", "pop", "popitem", "clear", "setdefault", "ior", "read missing",
             "get missing", "setattr", "delattr"]
LIST_MUTS = ["append", "extend", "insert", "setitem", "delitem", "pop", "clear", "iadd", "reverse", "remove"]
ROW_MUTS = ["setitem", "setitem bad", "setattr", "delattr", "update"]
DAT_MUTS = ["set table", "del table", "new attr", "empty table"]
FAC = ["fk remove", "dt replace", "copy", "copy frozen", "refreeze", "pandas", "as dict", "params", "fk", "dt", "rows", "obfu", "good",
       "convert", "row reprs"]
BEFORE = {("table", x) for x in ("setitem", "setnew", "delitem", "pop", "clear", "append", "extend", "insert", "read missing")} | {
    ("row", "setitem"), ("factory", "copy"), ("factory", "fk remove"), ("factory", "dt replace"), ("factory", "pandas")}
SOURCES = ["freeze_me", "freeze_me", "module", "copy", "copy edited", "read sqlite", "read json", "read csv", "read xls", "read xlsx", "obfu"]


class P15(Check):
    ID = "P15"

    def gen(self, rng, r):
        s = FM.gen_case(rng, fk_prob=.85)
        s["generators"] = []
        src = rng.choice([x for x in SOURCES if x != "read json" or not s.get("generic")])
        data = O.clean(FM, rng, s, max_rows=5, min_rows=rng.choice([0, 1, 2]))
        messy = O.spoil(rng, s, data) if rng.random() < .5 and not src.startswith("read") else data
        actors = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            actors.append([self.an_op(rng, s) for _ in range(rng.choice([2, 5, 10]))])
        return {"schema": s, "source": src, "data": messy, "links": rng.random() < .7, "actors": actors,
                "before": [self.an_op(rng, s) for _ in range(rng.choice([0, 0, 1, 3]))],
                "p_line": rng.choice([0, .02, .2]), "p_io": rng.choice([.05, .3])}

    def an_op(self, rng, s):
        t, pks, dfs = rng.choice(s["tables"])
        x = rng.random()
        op = {"t": t, "alias": rng.random() < .4, "row": rng.randrange(6), "v": rng.choice([12345, "zzz", None]),
              "f": rng.choice(dfs) if dfs else "x"}
        if x < .35:
            op.update(on="table", how=rng.choice(DICT_MUTS if pks else LIST_MUTS))
        elif x < .55:
            op.update(on="row", how=rng.choice(ROW_MUTS))
        elif x < .72:
            op.update(on="link", how=rng.choice(DICT_MUTS))
        elif x < .78:
            op.update(on="dat", how=rng.choice(DAT_MUTS))
        elif x < .93:
            op.update(on="factory", how=rng.choice(FAC))
        else:
            op.update(on="write", how=rng.choice(["sqlite", "json", "csv", "xls", "xlsx", "sqltxt"]),
                      fault=rand_faults(rng, 1, ["eio", "full", "perm"])[0] if rng.random() < .4 else None)
        return op

    # ------------------------------------------------------------------------------------------------------------
    def obtain(self, f, case):
        """(frozen object, what was held of it before it was frozen, the containers it was built from)"""
        s, src = case["schema"], case["source"]
        init = {}
        for t, pks, dfs in s["tables"]:
            rows = [[gen.dec(v) for v in r] for r in case["data"].get(t, [])]
            if t in s.get("generic", ()):
                init[t] = pandas.DataFrame(rows, columns=dfs)
            elif pks:
                init[t] = {(r[0] if len(pks) == 1 else tuple(r[:len(pks)])): dict(zip(dfs, r[len(pks):])) for r in rows}
            else:
                init[t] = [dict(zip(dfs, r)) for r in rows]
        d = f.TicDat(**init)
        if src.startswith("read "):
            fm = F[src[5:]]
            p = W.path("src" + fm.suffix)
            fm.write(f, d, p, False, O.OPTS[fm.name])
            return fm.read(f, p, dict(O.OPTS[fm.name], freeze=True)), None, None, init
        if src == "copy":
            return f.copy_tic_dat(d, freeze_it=True), None, None, init
        if src == "obfu":
            return f.obfusimplify(d, freeze_it=True).copy, None, None, init
        if src == "copy edited":
            d = f.copy_tic_dat(d)
        held = self.hold(d, s)
        keep = d
        if not case["links"]:       # (with links the rows are tied to each other: editing is up to the user)
            for op in case["before"]:
                if (op["on"], op["how"]) not in BEFORE:     # (what makes no regular rows is left out)
                    continue
                self.one(f, d, held, op, s, None, 0)
            held = self.hold(d, s)
        snap = self.view(d, s)
        if src == "module":
            from ticdat.ticdatfactory import freeze_me
            d = freeze_me(d)
        else:
            d = f.freeze_me(d)
        return d, held, snap, init if d is keep else init

    def hold(self, d, s):
        rtn = {}
        for t, pks, dfs in s["tables"]:
            tbl = getattr(d, t)
            rows = [] if t in s.get("generic", ()) else list(tbl.values()) if pks else list(tbl)
            rtn[t] = (tbl, rows, [x for r in rows for x in self.links(r)])
        return rtn

    def links(self, row):
        rtn = []
        for n in sorted(vars(row)) if hasattr(row, "__dict__") else []:
            if not n.startswith("_"):
                rtn.append(getattr(row, n))
        return rtn

    def view(self, d, s):
        """everything that can be seen of the object"""
        def row(r, deep=True):
            vals = tuple(sorted(((k, gen.canon(v)) for k, v in r.items()), key=repr))
            if not deep:
                return vals
            ls = []
            for n in sorted(vars(r)) if hasattr(r, "__dict__") else []:
                if not n.startswith("_"):
                    x = getattr(r, n)
                    if isinstance(x, dict) and type(x).__name__ == "TicDatDict":
                        ls.append((n, tuple((O.plain(k), row(v, False)) for k, v in x.items())))
                    else:
                        ls.append((n, row(x, False)))
            return (vals, tuple(ls))
        rtn = {}
        for t, pks, dfs in s["tables"]:
            tbl = getattr(d, t)
            if t in s.get("generic", ()):
                rtn[t] = O.plain(tbl)
            elif pks:
                rtn[t] = tuple((O.plain(k), row(tbl[k])) for k in list(tbl))
            else:
                rtn[t] = tuple(row(r) for r in tbl)
        rtn["-attrs"] = tuple(sorted(n for n in vars(d) if not n.startswith("_")))
        return rtn

    # ------------------------------------------------------------------------------------------------------------
    def one(self, f, d, held, op, s, case, n):
        """perform one operation. returns 'raised' / 'done' / None when it does not apply, and whether it would have changed d"""
        t = op["t"]
        if t in s.get("generic", ()) and op["on"] in ("table", "row", "link"):
            return None, False       # (a data frame: editing it is beyond ticdat's control)
        pks, dfs = [x[1:] for x in s["tables"] if x[0] == t][0]
        alias = op["alias"] and held is not None
        tbl = held[t][0] if alias else getattr(d, t)
        rows = held[t][1] if alias else (list(tbl.values()) if pks else list(tbl))
        how, on = op["how"], op["on"]
        try:
            if on == "table":
                if pks:
                    return self.dict_mut(tbl, how, op)
                if alias and how != "row":
                    self.list_mut(tbl, how, op, dfs)
                    return "done", False
                return self.list_mut(tbl, how, op, dfs)
            if on == "row":
                if not rows or case is None and not dfs:
                    return None, False
                r = rows[op["row"] % len(rows)]
                if how == "setitem":
                    r[op["f"]] = op["v"]
                elif how == "setitem bad":
                    r["no such field"] = 1
                elif how == "setattr":
                    setattr(r, "anything", 1)
                elif how == "delattr":
                    names = [x for x in vars(r) if not x.startswith("_")] if hasattr(r, "__dict__") else []
                    if not names:
                        return None, False
                    delattr(r, names[0])
                elif how == "update":
                    if hasattr(r, "update"):
                        r.update({"x": 1})
                    else:
                        r[op["f"]] = 99
                return "done", True
            if on == "link":
                ls = held[t][2] if alias else [x for r in rows for x in self.links(r)]
                ls = [x for x in ls if type(x).__name__ == "TicDatDict"]
                if not ls:
                    return None, False
                return self.dict_mut(ls[op["row"] % len(ls)], how, op, ls)
            if on == "dat":
                if how == "set table":
                    setattr(d, t, {} if pks else [])
                elif how == "empty table":
                    setattr(d, t, type(getattr(d, t))())
                elif how == "del table":
                    delattr(d, t)
                else:
                    setattr(d, "brand_new", 1)
                return "done", True
        except Exception as e:
            if W.is_dead():
                raise SimCrash()
            return "raised", False
        if on == "factory":
            self.fac_op(f, d, how, s)
            return "done", False
        if on == "write":
            fm = F[how]
            p = W.path("w%s%s" % (n, fm.suffix))
            try:
                fm.write(f, d, p, True, O.OPTS[how])
            except Exception:
                if W.is_dead():
                    raise SimCrash()
                return "raised", False
            return "done", False

    def dict_mut(self, tbl, how, op, others=None):
        k0 = list(tbl)[op["row"] % len(tbl)] if len(tbl) else None
        sample = (others or [tbl])
        key = next((k for x in sample for k in x), None)
        fresh = "brandnew%s" % len(tbl)
        new = tuple([fresh] * len(key)) if isinstance(key, tuple) else fresh
        if how in ("setitem", "delitem", "pop", "popitem", "clear") and k0 is None:
            return None, False
        if key is None:
            return None, False
        val = tbl[k0] if k0 is not None else {}
        if how == "setitem":
            tbl[k0] = dict(val.items())
        elif how == "setnew":
            tbl[new] = dict(val.items())
        elif how == "delitem":
            del tbl[k0]
        elif how == "update":
            tbl.update({new: val})
        elif how == "updatekw":
            if isinstance(new, tuple):
                return None, False
            tbl.update(**{new: val})
        elif how == "pop":
            tbl.pop(k0)
        elif how == "popitem":
            tbl.popitem()
        elif how == "clear":
            tbl.clear()
        elif how == "setdefault":
            tbl.setdefault(new, val)
        elif how == "ior":
            operator.ior(tbl, {new: val})
        elif how == "read missing":
            tbl[new]
        elif how == "get missing":
            tbl.get(new)
            new in tbl
            return "done", False
        elif how == "setattr":
            setattr(tbl, "anything", 1)
        elif how == "delattr":
            names = [x for x in vars(tbl) if not x.startswith("_")]
            if not names:
                return None, False
            delattr(tbl, names[0])
        return "done", True

    def list_mut(self, tbl, how, op, dfs):
        row = {op["f"]: op["v"]}
        if how in ("setitem", "delitem", "pop", "clear", "reverse", "remove") and not len(tbl):
            return None, False
        if how == "append":
            tbl.append(row)
        elif how == "extend":
            tbl.extend([row])
        elif how == "insert":
            tbl.insert(0, row)
        elif how == "setitem":
            tbl[0] = row
        elif how == "delitem":
            del tbl[0]
        elif how == "pop":
            tbl.pop()
        elif how == "clear":
            tbl.clear()
        elif how == "iadd":
            if isinstance(tbl, tuple):
                return None, False
            tbl += [row]
        elif how == "reverse":
            tbl.reverse()
        elif how == "remove":
            tbl.remove(tbl[0])
        return "done", True

    def fac_op(self, f, d, how, s):
        def edit(c):
            for t, pks, dfs in s["tables"]:
                x = getattr(c, t)
                if t in s.get("generic", ()):
                    spoil_frame(x)
                    continue
                for r in list(x.values()) if pks else list(x):
                    for fld in dfs:
                        r[fld] = "edited"
                x.clear()
        try:
            if how == "fk remove":
                f.remove_foreign_key_failures(d)
            elif how == "dt replace":
                f.replace_data_type_failures(d)
            elif how == "copy":
                edit(f.copy_tic_dat(d))
            elif how == "copy frozen":
                f.copy_tic_dat(d, freeze_it=True)
            elif how == "refreeze":
                f.freeze_me(d)
            elif how == "pandas":
                c = f.copy_to_pandas(d, drop_pk_columns=False)
                for t in f.all_tables:
                    df = getattr(c, t)
                    spoil_frame(df)
            elif how == "as dict":
                x = f.as_dict(d)
                for t in list(x):
                    if hasattr(x[t], "clear"):
                        x[t].clear()
            elif how == "params":
                x = f.create_full_parameters_dict(d)
                x.clear()
            elif how == "fk":
                f.find_foreign_key_failures(d)
            elif how == "dt":
                f.find_data_type_failures(d)
            elif how == "rows":
                f.find_data_row_failures(d)
            elif how == "obfu":
                edit(f.obfusimplify(d).copy)
            elif how == "good":
                f.good_tic_dat_object(d)
            elif how == "convert":
                f.TicDat(**{t: getattr(d, t) for t in f.all_tables})
            elif how == "row reprs":
                repr(d)
                [repr(getattr(d, t)) for t in f.all_tables]
        except Exception:
            if W.is_dead():
                raise SimCrash()
            return

    # ------------------------------------------------------------------------------------------------------------
    def run(self, case):
        s = case["schema"]
        f = tdf_of(s)
        if case["links"]:
            f.enable_foreign_key_links()
        try:
            d, held, snap, init = self.obtain(f, case)
        except Violation:
            raise
        except Exception:
            if case["source"] == "obfu" or case["links"]:     # (not every object can be obfuscated, not every key linked)
                return None
            raise
        ref = self.view(d, s)
        if snap is not None and ref != snap:
            raise Violation("freezing-changes", "freezing changed the object: %s" % cut(difference(snap, ref)))
        # what it was built from is the caller's to do with as he likes
        for t, pks, dfs in s["tables"]:
            if t in s.get("generic", ()):
                spoil_frame(init[t])
                continue
            for r in init[t].values() if pks else init[t]:
                for k in list(r):
                    r[k] = "edited"
            init[t].clear()
        if self.view(d, s) != ref:
            raise Violation("frozen-changed", "editing the containers it was built from changed the frozen object: %s" % cut(
                difference(ref, self.view(d, s))))
        done = []

        def actor(i):
            def body():
                for j, op in enumerate(case["actors"][i]):
                    what = {k: op[k] for k in ("on", "how", "t", "alias")}
                    if op["on"] == "write" and op.get("fault") and len(case["actors"]) == 1:
                        call_faulted(lambda: self.one(f, d, held, op, s, case, "%d-%d" % (i, j)), op["fault"])
                        res, eff = "done", False
                    else:
                        res, eff = self.one(f, d, held, op, s, case, "%d-%d" % (i, j))
                    if res == "done" and eff:
                        raise Violation("edit-accepted", "%s on a frozen object raised nothing (source %s)" % (what, case["source"]))
                    now = self.view(d, s)
                    if now != ref:
                        raise Violation("frozen-changed", "after %s (%s) the frozen object differs: %s" % (what, res, cut(difference(ref, now))))
                    W.record("edit", i, sorted((k, repr(v)) for k, v in what.items()), res)
                    if res:
                        done.append((op["on"], op["how"], res))
            return body
        if len(case["actors"]) == 1:
            actor(0)()
        else:
            sched = Sched(W.seed, p_io=case["p_io"], p_line=case["p_line"], is_repo_file=_base.is_repo_file)
            with W.sim():
                tasks = sched.run({"t%d" % i: actor(i) for i in range(len(case["actors"]))})
            for n, t in sorted(tasks.items()):
                if t.status != "ok":
                    if isinstance(t.error, Violation):
                        raise t.error
                    raise Violation("thread-failed", "%s ended %s %s" % (n, t.status, t.error))
        if self.view(d, s) != ref:
            raise Violation("frozen-changed", "at the end the frozen object differs: %s" % cut(difference(ref, self.view(d, s))))
        if not done:
            return None
        return (case["source"], case["links"], len(case["actors"]), frozenset(done))

    def shrink(self, case):
        import copy
        from sim.base import shrink_list, shrink_schema
        for cand in shrink_list(case["actors"]):
            if cand:
                c = copy.deepcopy(case)
                c["actors"] = cand
                yield c
        for i, a in enumerate(case["actors"]):
            for cand in shrink_list(a):
                c = copy.deepcopy(case)
                c["actors"][i] = cand
                yield c
        for cand in shrink_list(case["before"]):
            c = copy.deepcopy(case)
            c["before"] = cand
            yield c
        for t in case["data"]:
            for cand in shrink_list(case["data"][t]):
                c = copy.deepcopy(case)
                c["data"][t] = cand
                yield c


def spoil_frame(df):
    if len(df):
        for i in range(len(df.columns)):
            df.iloc[0, i] = df.iloc[len(df) - 1, i] if len(df) > 1 else 77
        df.iloc[0, 0] = 77
        df.drop(df.index, inplace=True)


def call_faulted(fn, f):
    o = call(fn, [Fault(int(f["frac"] * 40), f["kind"], f.get("cls", "any"), f.get("sticky", 1))])
    o.error = None
    W.restart()
    return o


def difference(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def cut(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


CHECK = P15()

"""
Integrity checks and repairs: what is reported is exactly what breaks the declared types, keys and foreign keys, what is repaired is exactly
what was reported (with everything that follows from it), and a check or repair that an exception breaks off at a seeded line of
ticdat leaves nothing behind but part of its own repairs, which repeating it completes.
"""
import sys

from .common import *
from sim import base as _base

INDEXES = ["default", "default", "dup", "reversed", "text", "sparse"]
POOLS = {"int": [0, 1, 2, 3], "text": ["a", "b", "c", ""], "float": [0.5, 1.5, 2, 3], "mixed": [1, "a", 2.5, "b", 3],
         "dt": [{"$dt": "2020-01-02 00:00:00"}, {"$dt": "2021-05-06 07:08:09"}, "2020-01-02", "May 5 2001", "not a date"],
         "null": [None, None, 1, 2, 7], "wild": [None, 0, 1, 2, -1, 1.5, 1e9, {"$inf": 1}, {"$inf": -1}, "a", "zz", "", True, False]}
EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


class Breaker(object):
    """raises at the n-th line that ticdat executes (n=None only counts them)"""

    def __init__(self, n=None, kind=None):
        self.n, self.kind, self.seen, self.raised, self.where = n, kind, 0, None, None

    def local(self, frame, event, arg):
        if event == "line" and self.raised is None:
            self.seen += 1
            if self.n is not None and self.seen > self.n and not self.guarded(frame):
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.raised = EXC[self.kind]("broken off")
                raise self.raised
        return self.local

    def guarded(self, frame):
        """inside of safe_apply, whose business it is to swallow exceptions"""
        while frame is not None:
            if frame.f_code in SAFE or frame.f_code.co_name == "__call__" and frame.f_code.co_filename.startswith(HERE):
                return True
            frame = frame.f_back
        return False

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if f.startswith(HERE) and os.sep + "testing" not in f else None

    def __call__(self, fn):
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


SAFE = [getattr(ticdat.utils.safe_apply(lambda x: x), "__code__", None)]
HERE = os.path.dirname(os.path.abspath(ticdat.__file__)) + os.sep


def valid(kw, v):
    """may a field so declared hold v? (from the documentation of set_data_type)"""
    v = None if v is None or isinstance(v, float) and v != v or type(v).__name__ == "NaTType" else v
    if v is None:
        return bool(kw.get("nullable"))
    if kw.get("datetime"):
        return isinstance(v, gen.datetime.datetime) or isinstance(v, str) and v in ("2020-01-02", "May 5 2001")
    c = gen.canon(v)
    if c[0] == "n":
        x, lo, hi = c[1], gen.dec(kw.get("min", 0)), gen.dec(kw.get("max", {"$inf": 1}))
        if not kw.get("number_allowed", True):
            return False
        if x < lo or x == lo and not kw.get("inclusive_min", True) or x > hi or x == hi and not kw.get("inclusive_max", False):
            return False
        if kw.get("must_be_int"):
            return x == hi if x == float("inf") else x != -float("inf") and x == int(x)
        return True
    if c[0] == "s":
        s = kw.get("strings_allowed", ())
        return s == "*" or v in s
    return False


def fold(v):
    """what a set of values can tell apart (True is 1 to it)"""
    return gen.canon(int(v) if isinstance(v, bool) else v)


class P17(Check):
    ID = "P17"

    # ---- the case -----------------------------------------------------------------------------------------------------------------
    def gen(self, rng, r):
        pan = rng.random() < .5
        tables, pools = [], {}
        for t in rng.sample(gen.NAMES, rng.choice([1, 2, 2, 3, 3, 4])):
            npk, ndf = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 3, 4])
            flds = rng.sample(gen.FIELDS, npk + (ndf or (0 if npk else 1)))
            tables.append([t, flds[:npk], flds[npk:]])
            for i, f in enumerate(flds):
                pools[t + "|" + f] = rng.choice(["int", "int", "text", "text", "mixed", "float"] if i < npk else
                                                ["int", "int", "text", "text", "mixed", "float", "dt", "null", "wild", "wild"])
        fks = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            n, np_, nd = rng.choice(tables)
            ft, fp, fd = rng.choice(tables)
            fflds = list(fp) if fp and rng.random() < .65 else rng.sample(fp + fd, min(len(fp + fd), rng.choice([1, 1, 2])))
            if rng.random() < .4:
                rng.shuffle(fflds)
            nflds = np_ + nd
            if len(nflds) < len(fflds):
                continue
            m = [[a, b] for a, b in zip(rng.sample(nflds, len(fflds)), fflds)]
            if (n, ft, sorted(m)) in [(a, b, sorted(c)) for a, b, c in fks] or n == ft and any(a == b for a, b in m):
                continue
            fks.append([n, ft, m])
        for n, ft, m in fks:            # native and foreign fields hold alike values, none of them odd ones
            for a, b in m:
                k = [x + "|" + y for x, y in ((n, a), (ft, b))]
                p = pools[k[1]] if pools[k[1]] not in ("dt", "null", "wild") else "int"
                pools[k[1]] = p
                if rng.random() < .85 or pools[k[0]] in ("dt", "null", "wild"):
                    pools[k[0]] = p
        types, defaults = [], []
        for t, p, d in tables:
            for f in p + d:
                if rng.random() < (.35 if f in p else .6):
                    types.append([t, f, self.a_type(rng)])
                if rng.random() < (.6 if f in d else .15):
                    v = rng.choice([0, 1, 2, "a", "dflt", None, 1.5, -7] + POOLS[pools[t + "|" + f]])
                    if not isinstance(v, dict) or "$dt" not in v:
                        defaults.append([t, f, v])
        rng.shuffle(types)
        case = {"pan": pan, "tables": tables, "pools": pools, "fks": fks, "types": types, "defaults": defaults,
                "index": rng.choice(INDEXES), "generic": rng.random() < .15, "data": {}, "hist": [], "long": 0}
        if not pan and rng.random() < .006:
            case["long"] = 1050
        for t, p, d in tables:
            rows = [[rng.choice(POOLS[pools[t + "|" + f]]) for f in p + d] for _ in range(rng.choice([0, 1, 2, 4, 7, 12]))]
            case["data"][t] = rows
        # most references are made good
        for n, ft, m in fks + fks:
            np_, nd = [p + d for t, p, d in tables if t == n][0], [p + d for t, p, d in tables if t == ft][0]
            for row in case["data"][n]:
                if case["data"][ft] and rng.random() < .6:
                    src = rng.choice(case["data"][ft])
                    for a, b in m:
                        row[np_.index(a)] = src[nd.index(b)]
        for t, p, d in tables:
            if not pan and p:
                seen, keep = set(), []
                for row in case["data"][t]:
                    k = repr([gen.canon(gen.dec(x)) for x in row[:len(p)]])
                    if k not in seen:
                        seen.add(k)
                        keep.append(row)
                case["data"][t] = keep
        for _ in range(rng.choice([2, 3, 4, 6])):
            case["hist"].append(self.an_op(rng, case))
        return case

    def a_type(self, rng):
        if rng.random() < .12:
            return {"datetime": True, "nullable": rng.random() < .5}
        lo, hi = rng.choice([({"$inf": -1}, {"$inf": 1}), (0, {"$inf": 1}), (0, 2), (1, 3), (0, 1e6), (2, 2), (-1, {"$inf": 1})])
        kw = {"number_allowed": rng.random() < .7, "inclusive_min": rng.random() < .6, "inclusive_max": rng.random() < .5, "min": lo, "max": hi,
              "must_be_int": rng.random() < .3, "strings_allowed": rng.choice(["*", "*", [], [], ["a"], ["a", "", "c"]]),
              "nullable": rng.random() < .4}
        free = hi == {"$inf": 1} and lo in (0, -1)
        for k in list(kw):
            if rng.random() < .2 and (k not in ("min", "max") or free):
                kw.pop(k)
        return kw

    def an_op(self, rng, case):
        what = rng.choice(["types", "types", "fks", "fks", "remove", "remove", "remove", "replace", "replace", "replace", "edit"] +
                          ["dups"] * 2 * case["pan"])
        o = {"do": what, "max": rng.choice([None, None, 1, 2, 5]) if what in ("types", "fks") else None}
        if what in ("types", "fks", "dups"):
            o["as_table"] = rng.random() < .5
        if what == "fks":
            o["low"] = rng.random() < .3
        if what == "dups":
            o["keep"] = rng.choice(["first", "first", "last", False])
        if what == "remove":
            o["propagate"] = case["pan"] or rng.random() < .8
        if what == "replace":
            o["with"] = []
            for t, p, d in case["tables"]:
                for f in (p + d if case["pan"] else d):
                    if rng.random() < .3:
                        o["with"].append([t, f, rng.choice([0, 1, 2, "a", "c", None, 2.5, -1, "2020-01-02"])])
            if rng.random() < .08:
                o["with"].append(rng.choice([["no_such_table", "x", 1], [case["tables"][0][0], "no such field", 1]]))
        if what == "edit":
            o["at"] = [rng.random() for _ in range(4)]
            o["value"] = rng.choice(["a", 1, 5, "zz"])
        elif rng.random() < .45:
            o["broken"] = [rng.choice(sorted(EXC)), round(rng.random(), 4)]
        return o

    # ---- building -------------------------------------------------------------------------------------------------------------------
    def factory(self, case):
        cls = PanDatFactory if case["pan"] else TicDatFactory
        kw = {t: [list(p), list(d)] for t, p, d in case["tables"]}
        if case["generic"]:
            kw["some_frame"] = "*"
        f = cls(**kw)
        for t, x, k in case["types"]:
            f.set_data_type(t, x, **{a: gen.dec(b) for a, b in k.items()})
        for t, x, v in case["defaults"]:
            f.set_default_value(t, x, gen.dec(v))
        for n, ft, m in case["fks"]:
            f.add_foreign_key(n, ft, [tuple(x) for x in m])
        if case["long"]:
            f = cls(chain=[["k"], ["up"]])
            f.add_foreign_key("chain", "chain", ["up", "k"])
        return f

    def build(self, case, f, rows):
        s = {"tables": case["tables"], "kinds": {}, "types": []}
        data = {t: [list(x) for x in r] for t, r in rows.items()}
        if case["long"]:
            return f.TicDat(chain={i: i - 1 for i in range(case["long"])})
        if not case["pan"]:
            d = gen.build_dat(f, s, data)
        else:
            d = gen.build_pan(f, s, data)
            for t, p, x in case["tables"]:
                df, n = getattr(d, t), len(getattr(d, t))
                if n and case["index"] != "default":
                    df.index = {"dup": [i // 2 for i in range(n)], "reversed": list(range(n))[::-1], "text": ["r%d" % (i % 3) for i in range(n)],
                                "sparse": [i * 7 + 100 for i in range(n)]}[case["index"]]
        if case["generic"]:
            import pandas as pd
            d.some_frame = pd.DataFrame({"u": [1, None], "v": ["x", "y"]})
        return d

    def tabs(self, case):
        return [["chain", ["k"], ["up"]]] if case["long"] else case["tables"]

    def image(self, case, d):
        """{table: [(identification, {field: value})]} in order"""
        rtn = {}
        for t, p, x in self.tabs(case):
            tbl, rows = getattr(d, t), []
            if case["pan"]:
                for f in p + x:
                    if list(tbl.columns).count(f) != 1:
                        raise Violation("wrong-columns", "%s has the columns %s" % (t, list(tbl.columns)))
                if len(tbl.columns) != len(p + x):
                    raise Violation("wrong-columns", "%s has the columns %s" % (t, list(tbl.columns)))
                cols = [list(tbl[f]) for f in p + x]
                for i, lab in enumerate(tbl.index):
                    rows.append((repr(lab), {f: c[i] for f, c in zip(p + x, cols)}))
            elif p:
                for k, row in tbl.items():
                    ks = (k,) if len(p) == 1 else k
                    rows.append((tuple(map(gen.canon, ks)), dict(zip(p, ks), **row)))
            else:
                for i, row in enumerate(tbl):
                    rows.append((None, dict(row)))
            rtn[t] = rows
        return rtn

    def frozen(self, img):
        return {t: [(i, tuple((f, gen.canon(v)) for f, v in sorted(row.items()))) for i, row in rows] for t, rows in img.items()}

    # ---- the model ------------------------------------------------------------------------------------------------------------------
    def m_types(self, case, img):
        """{(table, field): positions of the failing rows}"""
        kws = {(t, f): kw for t, f, kw in case["types"]} if not case["long"] else {}
        anything = {"number_allowed": True, "min": {"$inf": -1}, "inclusive_max": True, "strings_allowed": "*"}
        rtn = {}
        for t, p, d in self.tabs(case):
            for f in p + d:
                kw = kws.get((t, f)) or (anything if f in p else None)
                if kw is not None:
                    bad = [i for i, (_, row) in enumerate(img[t]) if not valid(kw, row[f])]
                    if bad:
                        rtn[t, f] = bad
        return rtn

    def fks(self, case):
        return [["chain", "chain", [["up", "k"]]]] if case["long"] else case["fks"]

    def m_fks(self, case, img):
        rtn = {}
        for n, ft, m in self.fks(case):
            pool = {tuple(gen.canon(row[b]) for a, b in m) for _, row in img[ft]}
            bad = [i for i, (_, row) in enumerate(img[n]) if tuple(gen.canon(row[a]) for a, b in m) not in pool]
            if bad:
                rtn[n, ft, frozenset((a, b) for a, b in m)] = bad
        return rtn

    def m_remove(self, case, img, propagate):
        if case["long"]:                # (every row follows from the first one)
            return {"chain": [] if propagate else img["chain"][1:]}
        img = {t: list(r) for t, r in img.items()}
        while True:
            bad = {}
            for (n, ft, m), rows in self.m_fks(case, img).items():
                bad.setdefault(n, set()).update(rows)
            if not bad:
                return img
            img = {t: [x for i, x in enumerate(r) if i not in bad.get(t, ())] for t, r in img.items()}
            if not propagate:
                return img

    def m_replace(self, case, img, given):
        """(image, whether it has to be refused)"""
        kws = {(t, f): kw for t, f, kw in case["types"]}
        dflt = {(t, f): v for t, f, v in case["defaults"]}
        fields = {t: p + d for t, p, d in case["tables"]}
        if any(f not in fields.get(t, ()) for t, f, v in given):
            return img, True
        given = {(t, f): v for t, f, v in given}
        rtn = {t: [(i, dict(row)) for i, row in r] for t, r in img.items()}
        anything = {"number_allowed": True, "min": {"$inf": -1}, "inclusive_max": True, "strings_allowed": "*"}
        for (t, f), bad in self.m_types(case, img).items():
            p, d = [(p, d) for x, p, d in case["tables"] if x == t][0]
            if f in p and not case["pan"]:
                continue
            if (t, f) in given:
                v = given[t, f]
            elif f in d or (t, f) in dflt:
                v = gen.dec(dflt.get((t, f), 0))
            else:
                continue
            if not valid(kws.get((t, f)) or anything, v):
                return img, True
            for i in bad:
                rtn[t][i][1][f] = v
        return rtn, False

    # ---- the run --------------------------------------------------------------------------------------------------------------------
    def run(self, case):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            return self.run_(case)

    def run_(self, case):
        f = self.factory(case)
        d = self.build(case, f, case["data"])
        feats = [case["pan"], len(case["fks"]), case["index"] if case["pan"] else None, case["long"]]
        hist = [{"do": "remove", "max": None, "propagate": True}] if case["long"] else case["hist"]
        for n, op in enumerate(hist):
            img = self.image(case, d)
            when = "operation %d %s" % (n, {k: v for k, v in op.items() if k not in ("at",)})
            if op["do"] == "edit":
                self.edit(case, d, op)
                continue
            broken = op.get("broken")
            if broken:
                # the length of the operation, from doing it to a copy
                twin = self.copy_of(case, f, d)
                b = Breaker()
                try:
                    b(lambda: self.do(case, f, twin, op))
                except Exception:
                    pass
                b = Breaker(int(b.seen * broken[1]), broken[0])
                W.nstep += 1
                try:
                    v = b(lambda: self.do(case, f, d, op))
                except Violation:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    if b.raised is None:        # (refused)
                        if isinstance(e, KeyboardInterrupt):
                            raise
                        err = e

                        def again():
                            raise err
                        self.judge(case, op, f, d, img, again, when, feats)
                        continue
                    # (as itself, or as the TicDatError that reading a row makes of anything)
                    W.count("faults: " + broken[0])
                    W.record("broken", op["do"], b.where[0], b.where[1])
                    e.__traceback__ = None
                    self.broken(case, op, img, self.image(case, d), "%s, broken off by %s at %s:%d" % ((when, broken[0]) + b.where))
                    feats.append((op["do"], "broken"))
                    img = self.image(case, d) if op["do"] != "remove" or op["propagate"] else img
                    if op["do"] == "remove" and not op["propagate"]:
                        continue        # (where a single round stops is not defined any more)
                    when += " (repeated)"
                    self.judge(case, op, f, d, img, lambda: self.do(case, f, d, op), when, feats)
                    continue
                self.judge(case, op, f, d, img, lambda: v, when, feats)
                continue
            self.judge(case, op, f, d, img, lambda: self.do(case, f, d, op), when, feats)
        return tuple(feats)

    def do(self, case, f, d, op):
        kw = {}
        if op["max"] is not None:
            kw["max_failures"] = op["max"]
        if case["pan"] and "as_table" in op:
            kw["as_table"] = op["as_table"]
        if op["do"] == "types":
            return f.find_data_type_failures(d, **kw)
        if op["do"] == "fks":
            return f.find_foreign_key_failures(d, **dict(kw, verbosity="Low" if op["low"] else "High"))
        if op["do"] == "dups":
            return f.find_duplicates(d, keep=op["keep"], as_table=op["as_table"])
        if op["do"] == "remove":
            return f.remove_foreign_key_failures(d, **({} if case["pan"] else {"propagate": op["propagate"]}))
        return f.replace_data_type_failures(d, {(t, x): v for t, x, v in op["with"]})

    def copy_of(self, case, f, d):
        rtn = f.copy_pan_dat(d) if case["pan"] else f.copy_tic_dat(d)
        return rtn

    def broken(self, case, op, before, now, when):
        """what a check or repair may leave behind when it is broken off"""
        b, a = self.frozen(before), self.frozen(now)
        if op["do"] not in ("remove", "replace"):
            if a != b:
                raise Violation("data-changed", "%s: the data changed" % when)
            return
        if op["do"] == "remove":
            end = self.frozen(self.m_remove(case, before, op["propagate"]))
            for t in b:
                if not (sub(end[t], a[t]) and sub(a[t], b[t])):
                    raise Violation("lost-rows", "%s: %s holds %s. It held %s, of which %s have to stay" % (when, t, a[t][:6], b[t][:6], end[t][:6]))
            return
        want, refused = self.m_replace(case, before, op["with"])
        end = self.frozen(want)
        for t in b:
            ok = len(a[t]) == len(b[t])
            for x, y, z in zip(a[t], b[t], end[t]) if ok else ():
                ok = ok and x[0] == y[0] and all(u == v or u == w and not refused for u, v, w in zip(x[1], y[1], z[1]))
            if not ok:
                raise Violation("wrong-cells", "%s: %s holds %s. It held %s, to become %s" % (when, t, a[t][:6], b[t][:6], end[t][:6]))

    def judge(self, case, op, f, d, img, fn, when, feats):
        W.nstep += 1
        refused = op["do"] == "replace" and self.m_replace(case, img, op["with"])[1]
        try:
            got = fn()
        except Violation:
            raise
        except Exception as e:
            if refused and isinstance(e, ticdat.utils.TicDatError):
                if self.frozen(self.image(case, d)) != self.frozen(img):
                    raise Violation("data-changed", "%s was refused, but changed the data" % when)
                W.record("refused", op["do"])
                feats.append("refused")
                return
            raise Violation("unexpected-exception", "%s raised %s" % (when, short(e)))
        if refused:
            raise Violation("not-refused", "%s accepted a replacement that is not valid itself" % when)
        now = self.frozen(self.image(case, d))
        if op["do"] in ("remove", "replace"):
            if got is not d:
                raise Violation("wrong-result", "%s returned something else than the object it was given" % when)
            want = self.frozen(self.m_remove(case, img, op["propagate"]) if op["do"] == "remove" else self.m_replace(case, img, op["with"])[0])
            for t in want:
                if now[t] != want[t]:
                    x = [(a, b) for a, b in zip(now[t], want[t]) if a != b][:2]
                    raise Violation("wrong-repair", "%s: %s holds %d rows, expected %d; first differences %s" % (when, t, len(now[t]), len(want[t]), x))
            W.record(op["do"], sum(map(len, want.values())))
            feats.append((op["do"], want != self.frozen(img)))
            return
        if now != self.frozen(img):
            raise Violation("data-changed", "%s changed the data" % when)
        want = self.m_types(case, img) if op["do"] == "types" else self.m_fks(case, img) if op["do"] == "fks" else self.m_dups(case, img, op["keep"])
        have = self.normalise(case, op, got, d, img, when)
        total = sum(map(len, want.values()))
        for k, v in have.items():
            extra = [x for x in v if x not in want.get(k, ())]
            if extra:
                raise Violation("wrong-failures", "%s reports for %s the rows %s, which did not fail (those that did are %s): %s" % (
                    when, k, extra[:3], want.get(k, [])[:6], img[k if isinstance(k, str) else k[0]][extra[0]]))
        n = sum(map(len, have.values()))
        if n != (total if op["max"] is None else min(total, op["max"])):
            raise Violation("missing-failures", "%s reports %d failures, there are %d: %s, expected %s" % (when, n, total, have, want))
        W.record(op["do"], total)
        feats.append((op["do"], min(total, 3), op["max"]))

    def m_dups(self, case, img, keep):
        rtn = {}
        for t, p, d in case["tables"]:
            if not p:
                continue
            by = {}
            for i, (_, row) in enumerate(img[t]):
                by.setdefault(tuple(gen.canon(row[f]) for f in p), []).append(i)
            bad = sorted(i for v in by.values() if len(v) > 1 for i in (v[1:] if keep == "first" else v[:-1] if keep == "last" else v))
            if bad:
                rtn[t] = bad
        return rtn

    def normalise(self, case, op, got, d, img, when):
        """{what: positions of the rows}"""
        rtn = {}
        for k, v in got.items():
            if op["do"] == "fks":
                ms = k[2]
                ms = [ms] if hasattr(ms, "native_field") or len(ms) == 2 and isinstance(ms[0], str) else list(ms)
                pairs = frozenset(tuple(m) for m in ms)
                if op["low"] == hasattr(k, "cardinality"):
                    raise Violation("wrong-keys", "%s: the key %s" % (when, k))
                key = (k[0], k[1], pairs)
                t = k[0]
            elif op["do"] == "types":
                key, t = (k.table, k.field), k.table
            else:
                key = t = k
            if key in rtn:
                raise Violation("wrong-keys", "%s has %s twice" % (when, key))
            if case["pan"]:
                rtn[key] = self.positions(case, op, v, t, img, when)
            else:
                p = [p for x, p, _ in self.tabs(case) if x == t][0]
                vals, pks = (v[0], v[1]) if op["do"] == "fks" else (v.bad_values, v.pks)
                if p:
                    ids = {i: n for n, (i, _) in enumerate(img[t])}
                    pos = [ids.get(tuple(map(gen.canon, (x,) if len(p) == 1 else x)), -1) for x in pks]
                else:
                    pos = list(pks)
                if len(set(pos)) != len(pos) or any(x not in range(len(img[t])) for x in pos):
                    raise Violation("wrong-rows", "%s: %s lists the rows %s" % (when, key, pks))
                rtn[key] = sorted(pos)
                if op["do"] == "types":
                    want = {fold(img[t][i][1][k.field]) for i in pos}
                    have = [fold(x) for x in vals]
                else:
                    flds = [m[0] for m in ms]
                    want = {tuple(fold(img[t][i][1][x]) for x in flds) for i in pos}
                    have = [tuple(map(fold, x)) if not (hasattr(k[2], "native_field") or op["low"] and len(ms) == 1) else (fold(x),)
                            for x in vals]
                if set(have) != want or len(set(have)) != len(have):
                    raise Violation("wrong-values", "%s: %s lists the values %s, expected %s" % (when, key, vals, want))
        return rtn

    def positions(self, case, op, v, t, img, when):
        import pandas as pd
        rows = self.frozen({t: img[t]})[t]
        if not op["as_table"]:
            mask = [bool(x) for x in v]
            if len(mask) != len(rows):
                raise Violation("wrong-mask", "%s: %d values for the %d rows of %s" % (when, len(mask), len(rows), t))
            return [i for i, x in enumerate(mask) if x]
        if not isinstance(v, pd.DataFrame):
            raise Violation("wrong-result", "%s: %s" % (when, type(v)))
        cols = [f for x, p, d in case["tables"] if x == t for f in p + d]
        if list(v.columns) != list(cols):
            raise Violation("wrong-columns", "%s: the rows of %s have the columns %s" % (when, t, list(v.columns)))
        have = [(repr(lab), tuple(sorted((f, gen.canon(c)) for f, c in zip(cols, row))))
                for lab, row in zip(v.index, zip(*[list(v[f]) for f in cols]))]
        # rows that are alike (label and all) are as good as each other, in order
        kinds = self.alike(case, op, t, img)
        pos, used = [], set()
        for x in have:
            i = next((i for i in kinds + [j for j in range(len(rows)) if j not in kinds] if i not in used and rows[i][0] == x[0] and
                      tuple(sorted(rows[i][1])) == x[1]), None)
            if i is None:
                raise Violation("wrong-rows", "%s: %s does not have the row %s" % (when, t, x))
            used.add(i)
            pos.append(i)
        return pos

    def alike(self, case, op, t, img):
        """the positions to be preferred when alike rows have to be told apart"""
        if op["do"] != "dups":
            return []
        return self.m_dups(case, img, op["keep"]).get(t, [])

    def edit(self, case, d, op):
        a, b, c, _ = op["at"]
        t, p, x = case["tables"][int(a * len(case["tables"]))]
        tbl = getattr(d, t)
        if not len(tbl):
            return
        i = int(b * len(tbl))
        if not x or _ < .3:
            if case["pan"]:
                setattr(d, t, tbl[[j != i for j in range(len(tbl))]].copy())
            elif p:
                del tbl[list(tbl)[i]]
            else:
                tbl.pop(i)
            return
        f = x[int(c * len(x))]
        if case["pan"]:
            vals = list(tbl[f])
            vals[i] = op["value"]
            tbl[f] = vals
        else:
            (list(tbl.values()) if p else tbl)[i][f] = op["value"]

    def shrink(self, case):
        import copy
        for cand in _base.shrink_list(case["hist"]):
            yield dict(case, hist=cand)
        for i, o in enumerate(case["hist"]):
            if o.get("broken"):
                c = copy.deepcopy(case)
                c["hist"][i].pop("broken")
                yield c
            if o.get("with"):
                for cand in _base.shrink_list(o["with"]):
                    c = copy.deepcopy(case)
                    c["hist"][i]["with"] = cand
                    yield c
        for key in ("fks", "types", "defaults"):
            for cand in _base.shrink_list(case[key]):
                yield dict(case, **{key: cand})
        for t, p, d in case["tables"]:
            if len(case["tables"]) > 1 and not any(t in x[:2] for x in case["fks"]):
                yield dict(case, tables=[x for x in case["tables"] if x[0] != t], types=[x for x in case["types"] if x[0] != t],
                           defaults=[x for x in case["defaults"] if x[0] != t], data={k: v for k, v in case["data"].items() if k != t},
                           hist=[dict(o, **{"with": [w for w in o["with"] if w[0] != t]}) if "with" in o else o for o in case["hist"]])
            for cand in _base.shrink_list(case["data"][t]):
                yield dict(case, data=dict(case["data"], **{t: cand}))
        for key in ("generic",):
            if case[key]:
                yield dict(case, **{key: False})
        if case["index"] != "default":
            yield dict(case, index="default")


def sub(a, b):
    """is a part of b, in order?"""
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


CHECK = P17()

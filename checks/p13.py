"""
Data row checks report exactly the failing rows, whatever the callbacks do: predicates, argument makers and converters that
raise, or return things they should not, at seeded (callback, row, check) points, against an executable model.
"""
from .common import *
from . import ops as O

FM = O.make_fmt()
HOW = ["Handled as Failure", "Handled as Failure", "Unhandled", "__debug__"]
GOOD = [True, True, 1, "yes", [0], 2.5]
BAD = [False, False, 0, None, "", 0.0, []]
INDEXES = ["default", "default", "dup", "reversed", "text", "sparse"]


class Token:
    """what a converter makes of the data"""

    def __init__(self, image):
        self.image = image


class CallbackBoom(Exception):
    pass


EXC = [ValueError, KeyError, CallbackBoom, ZeroDivisionError, AttributeError, TypeError, StopIteration, AssertionError]


def draw(*key):
    return random.Random("|".join(map(str, key)))


class P13(Check):
    ID = "P13"

    def gen(self, rng, r):
        s = FM.gen_case(rng)
        s["generators"] = []
        pan = rng.random() < .5
        data = O.spoil(rng, s, O.clean(FM, rng, s, max_rows=rng.choice([3, 8, 20]), min_rows=rng.choice([0, 1, 3])))
        if s["params"]:
            for row in data["parameters"]:
                if rng.random() < .3:
                    row[1] = rng.choice([-4, "text", 7, None])
            if rng.random() < .3:
                data["parameters"].append(["Unknown Name", 3])
        makers = [{"seed": rng.randrange(10 ** 6), "p_raise": rng.choice([0, 0, .5, 1]), "p_odd": rng.choice([0, 0, 0, .5])}
                  for _ in range(rng.choice([0, 1, 1, 2]))]
        preds = []
        for t, pks, dfs in s["tables"]:
            for i in range(rng.choice([0, 1, 1, 2, 3])):
                preds.append({"t": t, "name": rng.choice(["p%d" % i, i, "Good Name/Value Check" if t == "parameters" else "check %d" % i]),
                              "seed": rng.randrange(10 ** 6), "msg": rng.random() < .4, "p_bad": rng.choice([0, .1, .4, 1]),
                              "p_raise": rng.choice([0, 0, .15, .5]),
                              "maker": rng.randrange(len(makers)) if makers and rng.random() < .5 else None})
        rng.shuffle(preds)
        seen, keep = set(), []
        for p in preds:
            if (p["t"], str(p["name"])) not in seen:
                seen.add((p["t"], str(p["name"])))
                keep.append(p)
        checks = []
        for i in range(rng.choice([1, 2, 3])):
            checks.append({"how": rng.choice(HOW), "max": rng.choice([None, None, None, 1, 2, 3, 7]), "faulty": rng.random() < .7,
                           "as_table": rng.random() < .6, "convert_raise": rng.random() < .25,
                           "edit": [rng.choice(s["tables"])[0], rng.randrange(9), rng.randrange(9), rng.choice([11, "edited", None])]
                           if rng.random() < .5 else None})
        checks.append({"how": rng.choice(HOW), "max": None, "faulty": False, "as_table": rng.random() < .5, "convert_raise": False})
        return {"schema": s, "pan": pan, "data": data, "makers": makers, "preds": keep, "checks": checks,
                "convert": bool(makers) and rng.random() < .35, "late": rng.random() < .3, "index": rng.choice(INDEXES),
                "frozen": rng.random() < .3}

    # -- what the callbacks do: a function of (callback, row, arguments, number of the check), not of the order of calls -------------
    def maker_does(self, m, n, faulty, image):
        d = draw("maker", m["seed"], image)
        limit = d.randrange(1000)
        f = draw("maker fault", m["seed"], n)
        if faulty and f.random() < m["p_raise"]:
            return "raise", f.choice(EXC), "maker broke %d" % f.randrange(100)
        if faulty and f.random() < m["p_odd"]:
            return "odd", f.choice([None, 5, [("limit", 1)], "a text", ()]), None
        return "ok", {"limit": limit}, None

    def pred_does(self, p, key, limit, n, faulty):
        d = draw("pred", p["seed"], key, limit)
        bad = d.random() < p["p_bad"]
        val = ("wrong: %d" % d.randrange(50) if bad else True) if p["msg"] else d.choice(BAD if bad else GOOD)
        f = draw("pred fault", p["seed"], key, n)
        if faulty and f.random() < p["p_raise"]:
            return "raise", f.choice(EXC), "predicate broke %d" % f.randrange(100)
        return ("bad" if bad else "good"), val, None

    def step(self, what, kind, *more):
        W.nstep += 1
        W.record("callback." + what, kind, *more)
        if kind in ("raise", "odd"):
            W.count("fault:%s:callback.%s" % (kind, what))

    def key_of(self, t, row):
        return repr([gen.canon(row[f]) for f in self.fields[t]])

    def run(self, case):
        s, pan = case["schema"], case["pan"]
        self.fields = {t: p + d for t, p, d in s["tables"]}
        now = {"n": 0, "faulty": False, "convert_raise": False}
        raised, calls, wrong = [], [], []

        def boom(cls, text):
            e = cls(text)
            raised.append(e)
            raise e

        def make_maker(i, m):
            def maker(dat):
                calls.append(("maker", i, dat))
                kind, v, text = self.maker_does(m, now["n"], now["faulty"], dat.image if isinstance(dat, Token) else repr(self.image(dat, s, pan)))
                self.step("maker", kind, i)
                if kind == "raise":
                    boom(v, text)
                return v
            return maker

        def make_pred(p):
            def predicate(row, **kw):
                # (what is wrong with the call is noted, since raising it here would be just one more exception to be handled)
                if p["maker"] is None and kw or p["maker"] is not None and set(kw) != {"limit"}:
                    wrong.append("a predicate of %s was called with the arguments %s" % (p["t"], kw))
                if set(row) != set(self.fields[p["t"]]):
                    wrong.append("a predicate of %s was called with a row of fields %s" % (p["t"], sorted(map(str, row))))
                    return False
                kind, v, text = self.pred_does(p, self.key_of(p["t"], row), kw.get("limit"), now["n"], now["faulty"])
                self.step("predicate", kind, p["t"], p["name"])
                if kind == "raise":
                    boom(v, text)
                return v
            return predicate
        makers = [make_maker(i, m) for i, m in enumerate(case["makers"])]
        src = (tdf_of if case["convert"] and pan or not case["convert"] and not pan else pdf_of)(s)

        def add(f, p):
            f.add_data_row_predicate(p["t"], make_pred(p), p["name"],
                                     predicate_kwargs_maker=None if p["maker"] is None else makers[p["maker"]],
                                     predicate_failure_response="Error Message" if p["msg"] else "Boolean")
        early = [p for p in case["preds"] if not (case["convert"] and case["late"] and p["maker"] is None)]
        for p in early:
            add(src, p)
        if case["convert"]:
            def convert(dat):
                calls.append(("convert", None, dat))
                self.step("converter", "raise" if now["convert_raise"] else "ok")
                if now["convert_raise"]:
                    boom(RuntimeError, "converter broke")
                return Token(repr(self.image(dat, s, pan)))
            f = must("cloning with a converter", lambda: src.clone(clone_factory=PanDatFactory if pan else TicDatFactory, convert_dat=convert))
        else:
            f = src
        for p in case["preds"]:
            if p not in early:
                add(f, p)
        dat = self.build(f, s, case)
        before = self.image(dat, s, pan)
        feats = []
        for n, c in enumerate(case["checks"]):
            if c.get("edit"):
                self.edit(dat, case, *c["edit"])
                before = self.image(dat, s, pan)
            now.update(n=n, faulty=c["faulty"], convert_raise=case["convert"] and c["convert_raise"])
            del raised[:], calls[:]
            want, raising = self.model(case, dat, n, c, now)
            kw = {"exception_handling": c["how"]}
            if pan:
                kw["as_table"] = c["as_table"]
            if c["max"] is not None:
                kw["max_failures"] = c["max"]
            when = "check %d %s" % (n, kw)
            handled = c["how"] == "Handled as Failure"
            try:
                got = f.find_data_row_failures(dat, **kw)
            except Violation:
                raise
            except Exception as e:
                if not any(e is x for x in raised):
                    raise Violation("unexpected-exception", "%s raised %s" % (when, short(e)))
                if handled:
                    raise Violation("not-handled", "%s let the exception of a callback escape: %s" % (when, short(e)))
                feats.append((c["how"], "raised"))
                continue
            finally:
                if wrong:
                    raise Violation("wrong-call", "%s: %s" % (when, wrong[0]))
                if self.image(dat, s, pan) != before:
                    raise Violation("data-changed", "%s changed the data" % when)
            total = sum(len(v) for v in want.values())
            if not handled and raised:
                raise Violation("swallowed", "%s returned although a callback raised %s" % (when, short(raised[0])))
            if not handled and raising and c["max"] is None:
                raise Violation("not-called", "%s did not call a callback that would have raised" % when)
            for i in range(len(makers)):
                k = [x for x in calls if x[:2] == ("maker", i)]
                if len(k) > 1:
                    raise Violation("maker-calls", "%s called one argument maker %d times" % (when, len(k)))
                if c["max"] is None and not k and any(p["maker"] == i for p in case["preds"]) and not now["convert_raise"]:
                    raise Violation("maker-calls", "%s never called an argument maker in use" % when)
                if k and (not isinstance(k[0][2], Token) if case["convert"] else k[0][2] is not dat):
                    raise Violation("maker-argument", "%s called an argument maker with something else than the %s data" % (
                        when, "converted" if case["convert"] else "given"))
            have = self.normalise(got, case, dat, c, when)
            n_have = sum(len(v) for v in have.values())
            for k, v in have.items():
                extra = [x for x in v if not any(self.same(x, y) for y in want.get(k, []))]
                if extra:
                    raise Violation("wrong-failures", "%s reports for %s rows that did not fail: %s (expected %s)" % (
                        when, k, extra[:3], want.get(k, [])[:5]))
            if n_have != (total if c["max"] is None else min(total, c["max"])):
                raise Violation("missing-failures", "%s reports %d failures, there are %d: %s, expected %s" % (
                    when, n_have, total, {k: len(v) for k, v in have.items()}, {k: len(v) for k, v in want.items()}))
            feats.append((c["how"], c["max"] is not None and total > c["max"], bool(raised), bool(total)))
        if not case["preds"]:
            return None
        return (pan, case["convert"], case["index"] if pan else case["frozen"], len(case["preds"]), tuple(feats))

    def build(self, f, s, case):
        if not case["pan"]:
            dat = gen.build_dat(f, s, case["data"], [])
            return f.freeze_me(dat) if case["frozen"] else dat
        dat = gen.build_pan(f, s, case["data"])
        for t, pks, dfs in s["tables"]:
            df = getattr(dat, t)
            n = len(df)
            how = case["index"]
            if how != "default" and n:
                df.index = {"dup": [i // 2 for i in range(n)], "reversed": list(range(n))[::-1], "text": ["r%d" % (i % 3) for i in range(n)],
                            "sparse": [i * 7 + 100 for i in range(n)]}[how]
        return dat

    def edit(self, dat, case, t, i, j, v):
        """the caller changes the data between two checks"""
        dfs = [d for x, p, d in case["schema"]["tables"] if x == t][0]
        tbl = getattr(dat, t)
        if case["pan"]:
            if dfs and len(tbl):
                vals = list(tbl[dfs[j % len(dfs)]])
                vals[i % len(vals)] = v
                tbl[dfs[j % len(dfs)]] = vals
        elif dfs and len(tbl) and not case["frozen"]:
            row = list(tbl.values())[i % len(tbl)] if isinstance(tbl, dict) else tbl[i % len(tbl)]
            row[dfs[j % len(dfs)]] = v

    def image(self, dat, s, pan):
        if pan:
            return {t: (list(getattr(dat, t).columns), list(getattr(dat, t).index), [str(x) for x in getattr(dat, t).dtypes],
                        gen.rows_of_pan(dat, s)[t]) for t, _, _ in s["tables"]}
        return gen.rows_of_dat(dat, s)

    def rows(self, dat, t, pks, pan):
        """(identification of the row, the row) for each row"""
        if pan:
            df = getattr(dat, t)
            for i, r in enumerate(df.itertuples(index=False)):
                yield i, dict(zip(self.fields[t], r))
        elif pks:
            for k, r in getattr(dat, t).items():
                row = dict(zip(pks, k if len(pks) > 1 else (k,)))
                row.update(r)
                yield repr(k), row
        else:
            for i, r in enumerate(getattr(dat, t)):
                yield repr(i), r

    def model(self, case, dat, n, c, now):
        """{(table, predicate): [(row, message)]} and whether some callback raises"""
        want, raising = {}, False
        s = case["schema"]
        pk = {t: p for t, p, d in s["tables"]}
        for p in case["preds"]:
            limit = None
            if p["maker"] is not None:
                self.step("converter", "raise" if now["convert_raise"] else "ok")
                if now["convert_raise"]:
                    want[p["t"], str(p["name"])] = [("*", "converter broke")]
                    raising = True
                    continue
                kind, v, text = self.maker_does(case["makers"][p["maker"]], n, c["faulty"], repr(self.image(dat, s, case["pan"])))
                if kind != "ok":
                    raising = raising or kind == "raise"
                    want[p["t"], str(p["name"])] = [("*", text)]
                    continue
                limit = v["limit"]
            bad = []
            for i, row in self.rows(dat, p["t"], pk[p["t"]], case["pan"]):
                kind, v, text = self.pred_does(p, self.key_of(p["t"], row), limit, n, c["faulty"])
                if kind == "raise":
                    raising = True
                    bad.append((i, text if p["msg"] else None))
                elif kind == "bad":
                    bad.append((i, v if p["msg"] else None))
            if bad:
                want[p["t"], str(p["name"])] = bad
        if s["params"]:
            name, i = "Good Name/Value Check", 0
            taken = [str(p["name"]) for p in case["preds"] if p["t"] == "parameters"]
            name = "(parameters)"
            bad = []
            for i, row in self.rows(dat, "parameters", pk["parameters"], case["pan"]):
                k, v = (row[x] for x in self.fields["parameters"])
                kw = {x[0]: x[2] for x in s["params"]}.get(k)
                v = None if v != v else v
                num = isinstance(v, (int, float)) and not isinstance(v, bool)
                ok = kw is not None and (v is not None) and (kw["number_allowed"] and num and v >= 0 or
                                                             kw.get("strings_allowed") == "*" and isinstance(v, str))
                if not ok:
                    bad.append((i, None))
            if bad:
                want["parameters", name] = bad
        return want, raising

    def same(self, have, want):
        """the text of an exception is wrapped in wording of ticdat's own"""
        if have[0] != want[0]:
            return False
        if want[1] is None:
            return want[0] == "*" or have[1] is None
        return have[1] == want[1] or ("broke" in want[1] and want[1] in str(have[1]))

    def normalise(self, got, case, dat, c, when):
        s, pan = case["schema"], case["pan"]
        by = {(p["t"], str(p["name"])): p for p in case["preds"]}
        rtn = {}
        for k, v in got.items():
            t, name = k.table, k.predicate_name
            p = by.get((t, str(name)))
            key = (t, str(name))
            if p is None:
                if t != "parameters" or not s["params"]:
                    raise Violation("wrong-key", "%s reports %s" % (when, k))
                key = (t, "(parameters)")
            if type(v).__name__ == "PrimaryKeyErrorMessage":
                rtn[key] = [(v.primary_key, v.error_message)]
                continue
            msg = p is not None and p["msg"]
            if not pan:
                rtn[key] = [(repr(x.primary_key), x.error_message) if msg else (repr(x), None) for x in v]
            else:
                rtn[key] = self.pan_rows(t, v, dat, c, msg, when, case)
            if len(set(map(repr, rtn[key]))) != len(rtn[key]):
                raise Violation("repeated-failures", "%s lists a row of %s twice" % (when, t))
        return rtn

    def pan_rows(self, t, v, dat, c, msg, when, case):
        df = getattr(dat, t)
        cols = self.fields[t]
        if not c["as_table"]:
            if list(v.index) != list(df.index) or not all(x in (True, False) for x in v):
                raise Violation("wrong-series", "%s: the series for %s does not fit the table" % (when, t))
            want = {}
            return [(i, ANY if msg else None) for i, x in enumerate(v) if x]
        extra = [x for x in v.columns if x not in cols]
        if [x for x in v.columns if x in cols] != list(df.columns) or len(extra) != (1 if msg else 0):
            raise Violation("wrong-columns", "%s: the failed rows of %s have the columns %s" % (when, t, list(v.columns)))
        # rows of the table, in order, identified by label and content; equal rows are told apart by their order
        rtn, pos = [], 0
        all_rows = [(repr(ix), repr([gen.canon(x) for x in r])) for ix, r in zip(df.index, zip(*[list(df[x]) for x in cols]))]
        # (each predicate's verdict is a function of the row's content: all equal rows fail, or the check stopped early)
        for ix, r in zip(v.index, zip(*[list(v[x]) for x in cols + extra])):
            me = (repr(ix), repr([gen.canon(x) for x in r[:len(cols)]]))
            while pos < len(all_rows) and all_rows[pos] != me:
                pos += 1
            if pos >= len(all_rows):
                raise Violation("wrong-rows", "%s: the failed rows of %s are not rows of the table, in order: %s" % (when, t, me))
            rtn.append((pos, r[-1] if msg else None))
            pos += 1
        return rtn

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        for key in ("preds", "checks"):
            for cand in shrink_list(case[key]):
                if key == "preds" or cand:
                    c = copy.deepcopy(case)
                    c[key] = cand
                    yield c
        for t in case["data"]:
            for cand in shrink_list(case["data"][t]):
                c = copy.deepcopy(case)
                c["data"][t] = cand
                yield c


class _Any(str):
    def __eq__(self, o):
        return True

    def __contains__(self, o):
        return True
    __hash__ = str.__hash__

    def __str__(self):
        return self


ANY = _Any("(any)")
CHECK = P13()

"""
Copies, conversions, constructions and obfuscations: every derived object holds exactly what its source held (renamed one-to-one by an
obfuscation) and shares nothing with it or with the containers it was made from, whatever history of derivations, edits, refused
edits and freezes follows; one that an exception breaks off at a seeded line of ticdat leaves every object as it was.
"""
import copy
import re

from .common import *
from .p17 import EXC, Breaker
from sim import base as _base

import numpy as np
import pandas as pd

POOL = {"int": [0, 1, 2, 3, 4, 5], "text": ["a", "b", "c", "d", "", "x y"]}
WILD = [None, 0, 1, -1, 2.5, "a", "zz", "", True, False, {"$inf": 1}, {"$dt": "2020-01-02 00:00:00"}, 7]


class P18(Check):
    ID = "P18"

    # ---- the case -----------------------------------------------------------------------------------------------------------------
    def gen(self, rng, r):
        tables, kinds = [], {}
        chain = rng.random() < .1
        for t in rng.sample(gen.NAMES, rng.choice([1, 2, 3, 3, 4]) if not chain else rng.choice([5, 6])):
            npk, ndf = rng.choice([0, 1, 1, 1, 2, 3]) if not chain else 1, rng.choice([0, 1, 1, 2, 3])
            flds = rng.sample([x for x in gen.FIELDS if x != "name"], npk + (ndf or (0 if npk else 1)))
            tables.append([t, flds[:npk], flds[npk:]])
            for i, f in enumerate(flds):
                kinds[t + "|" + f] = rng.choice(["int", "text"]) if i < npk else rng.choice(["int", "text", "wild"])
        fks = []
        if chain:
            for (ft, fp, fd), (n, np_, nd) in zip(tables, tables[1:]):
                fks.append([n, ft, [[rng.choice(np_ + np_ + nd), fp[0]]]])
        for _ in range(rng.choice([0, 1, 2, 3, 4]) if not chain else 0):
            i, j = rng.randrange(len(tables)), rng.randrange(len(tables))
            (n, np_, nd), (ft, fp, fd) = tables[max(i, j)], tables[min(i, j)]
            if n == ft or rng.random() < .06:
                ft, fp, fd = rng.choice(tables)
            fflds = list(fp) if fp and rng.random() < .9 else rng.sample(fp + fd, 1)
            if n == ft or len(np_ + nd) < len(fflds):
                continue
            nflds = np_ + nd if rng.random() < .7 else nd + np_
            m = [[a, b] for a, b in zip(rng.sample(nflds, len(fflds)), fflds)]
            if any(a == n and b == ft and {x for x, _ in c} & {x for x, _ in m} for a, b, c in fks):
                continue
            fks.append([n, ft, m])
        for _ in range(len(tables)):
            for n, ft, m in fks:
                for a, b in m:
                    if kinds[ft + "|" + b] == "wild":
                        kinds[ft + "|" + b] = "int"
                    kinds[n + "|" + a] = kinds[ft + "|" + b]
        dirty = rng.random() < .25
        data = {}
        order = {t: i for i, (t, _, _) in enumerate(tables)}
        for t, p, d in tables:
            data[t] = self.rows(rng, kinds, t, p, d, rng.choice([0, 1, 3, 5, 8]))
        for _ in range(2):
            for n, ft, m in sorted(fks, key=lambda x: order[x[0]]):
                np_, nd = [p + d for t, p, d in tables if t == n][0], [p + d for t, p, d in tables if t == ft][0]
                for row in data[n]:
                    if data[ft] and not (dirty and rng.random() < .2):
                        src = rng.choice(data[ft])
                        for a, b in m:
                            row[np_.index(a)] = src[nd.index(b)]
        fm = {"tables": tables, "fks": fks}
        if not dirty:
            self.cleanse(fm, data)
        dflt = [[t, f, rng.choice([0, 1, "dflt", None, 2.5])] for t, p, d in tables for f in d if rng.random() < .3]
        case = {"pan": rng.random() < .4, "tables": tables, "kinds": kinds, "fks": fks, "data": data, "defaults": dflt,
                "links": rng.random() < .4 and not self.complex(fm), "generic": rng.random() < .2,
                "dups": rng.choice(["assert", "assert", "warn", "ignore"]), "hist": []}
        if not case["pan"] or rng.random() < .8:
            for t, p, d in tables:
                data[t] = self.unique(data[t], len(p))
        for _ in range(rng.choice([3, 5, 8, 12])):
            case["hist"].append(self.an_op(rng, case))
        return case

    def rows(self, rng, kinds, t, p, d, n):
        return [[rng.choice(POOL.get(kinds[t + "|" + f], WILD)) for f in p + d] for _ in range(n)]

    def unique(self, rows, npk):
        seen, keep = set(), []
        for row in rows:
            k = repr(row[:npk])
            if not npk or k not in seen:
                seen.add(k)
                keep.append(row)
        return keep

    def cleanse(self, s, data):
        """without foreign key failures"""
        for t, p, d in s["tables"]:
            data[t][:] = self.unique(data[t], len(p))
        flds = {t: p + d for t, p, d in s["tables"]}
        more = True
        while more:
            more = False
            for n, ft, m in s["fks"]:
                have = {tuple(gen.canon(gen.dec(x[flds[ft].index(b)])) for a, b in m) for x in data[ft]}
                keep = [x for x in data[n] if tuple(gen.canon(gen.dec(x[flds[n].index(a)])) for a, b in m) in have]
                if len(keep) < len(data[n]):
                    data[n][:] = keep
                    more = True

    def complex(self, s):
        pk = {t: set(p) for t, p, d in s["tables"]}
        return any({b for a, b in m} != pk[ft] for n, ft, m in s["fks"])

    def an_op(self, rng, case):
        o = {"do": rng.choice(["derive"] * 5 + ["edit"] * 6 + ["freeze", "construct", "construct", "obfu", "obfu", "source"]),
             "on": rng.random(), "at": [rng.random() for _ in range(5)], "how": rng.random()}
        if o["do"] in ("edit", "construct", "source"):
            t, p, d = rng.choice(case["tables"])
            o["table"] = t
            o["row"] = self.rows(rng, case["kinds"], t, p, d, 1)[0]
        if o["do"] == "construct":
            o["forms"] = {t: rng.random() for t, p, d in case["tables"]}
            o["drop"] = {t: rng.random() < .4 for t, p, d in case["tables"]}
        if rng.random() < .35:
            o["broken"] = [rng.choice(sorted(EXC)), round(rng.random(), 4)]
        return o

    # ---- the run --------------------------------------------------------------------------------------------------------------------
    def factory(self, case, pan):
        f = (PanDatFactory if pan else TicDatFactory)(**dict({t: [list(p), list(d)] for t, p, d in case["tables"]},
                                                             **({"some_frame": "*"} if case["generic"] else {})))
        for n, ft, m in case["fks"]:
            f.add_foreign_key(n, ft, [tuple(x) for x in m])
        for t, x, v in case["defaults"]:
            f.set_default_value(t, x, gen.dec(v))
        f.set_duplicates_ticdat_init(case["dups"])
        if case["links"] and not pan:
            f.enable_foreign_key_links()
        return f

    def run(self, case):
        import contextlib
        import io
        import warnings
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.run_(case)

    def run_(self, case):
        self.case = case
        self.flds = {t: (list(p), list(d)) for t, p, d in case["tables"]}
        self.dflt = {t: {f: 0 for f in d} for t, p, d in case["tables"]}
        for t, f, v in case["defaults"]:
            self.dflt[t][f] = gen.dec(v)
        self.f = {pan: self.factory(case, pan) for pan in (False, True)}
        self.live, self.sources = [], []            # [object, kind, image, frozen], [container, image]
        feats = [case["pan"], len(case["fks"]), case["links"]]
        s = {"tables": case["tables"], "kinds": {}, "types": []}
        rows = {t: [list(x) for x in case["data"][t]] for t in self.flds}
        first = (gen.build_pan if case["pan"] else gen.build_dat)(self.f[case["pan"]], s, rows)
        if case["generic"]:
            first.some_frame = pd.DataFrame({"u": [1.5, None, 3], "v": ["x", "y", "z"]})
        self.add(first, "pan" if case["pan"] else "tic", self.image(first), False, "the first object")
        for n, op in enumerate(case["hist"]):
            W.nstep += 1
            when = "operation %d %s" % (n, {k: v for k, v in op.items() if k not in ("at", "on")})
            entry = self.live[int(op["on"] * len(self.live))]
            what = getattr(self, "do_" + op["do"])(op, entry, when)
            self.check_all(when)
            W.record(op["do"], str(what), len(self.live))
            feats.append((op["do"], what))
        return tuple(feats)

    def add(self, obj, kind, want, frozen, when, dflt=None):
        have = self.image(obj, kind)
        self.same(have, want, "%s: the result" % when)
        self.live.append([obj, kind, have, frozen, dflt or self.dflt])
        if kind == "tic" and self.case["links"] and len(self.live) > 1:
            self.check_links(obj, when)
        if frozen:
            self.check_frozen(obj, when)

    def guarded(self, op, fn, when, after=None):
        """the outcome of fn(), which is perhaps broken off once before it is repeated; ("ok", value) or ("error", exception)"""
        b = op.get("broken")
        if b:
            # the length is unknown beforehand, so the seed picks among the first lines, most often few
            br = Breaker(int(3 * 400 ** b[1]) - 3, b[0])
            try:
                v = br(fn)
                if br.raised is None:
                    return "ok", v
                self.broken_result = v
            except (Exception, KeyboardInterrupt) as e:
                if br.raised is None:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    return "error", e
                e.__traceback__ = None
            W.count("faults: " + b[0])
            W.record("broken", op["do"], *br.where)
            self.check_all("%s, broken off by %s at %s:%d" % ((when, b[0]) + br.where), after)
        try:
            return "ok", fn()
        except Violation:
            raise
        except Exception as e:
            return "error", e

    # ---- images ---------------------------------------------------------------------------------------------------------------------
    def image(self, obj, kind=None):
        """{table: {key: row} or [rows]} in canonical values"""
        rtn = {}
        for t, (p, d) in self.flds.items():
            tbl = getattr(obj, t, None)
            if isinstance(tbl, pd.DataFrame):
                df = tbl
                if any(f not in df.columns for f in p + d):
                    df = df.reset_index()
                rtn[t] = [tuple(map(gen.canon, x)) for x in zip(*[list(df[f]) for f in p + d])]
            elif tbl is None:
                continue
            elif p:
                rtn[t] = [tuple(map(gen.canon, ((k,) if len(p) == 1 else k) + tuple(row[f] for f in d))) for k, row in tbl.items()]
            else:
                rtn[t] = [tuple(gen.canon(row[f]) for f in d) for row in tbl]
        if self.case["generic"] and isinstance(getattr(obj, "some_frame", None), pd.DataFrame):
            rtn["some_frame"] = [tuple(map(gen.canon, x)) for x in obj.some_frame.itertuples(index=False)]
        return rtn

    def same(self, have, want, what):
        for t in sorted(set(have) | set(want)):
            if t not in have or t not in want or sorted(map(repr, have[t])) != sorted(map(repr, want[t])):
                raise Violation("differs", "%s: %s holds %s, expected %s" % (what, t, have.get(t), want.get(t)))

    def check_all(self, when, but=None):
        for i, (obj, kind, img, _, _) in enumerate(self.live):
            if obj is not but and self.image(obj) != img:
                have = self.image(obj)
                t = [t for t in img if have.get(t) != img[t]][0]
                raise Violation("shared", "%s changed the table %s of object %d (%s), which it has nothing to do with: %s, was %s" % (
                    when, t, i, kind, have.get(t), img[t]))
        for i, (src, img) in enumerate(self.sources):
            if self.source_image(src) != img:
                raise Violation("shared", "%s changed the containers that an object was made from: %s, were %s" % (when, self.source_image(src), img))

    def source_image(self, src):
        def im(v):
            if isinstance(v, pd.DataFrame):
                return ("df", tuple(v.columns), tuple(map(repr, v.index)), tuple(tuple(map(gen.canon, x)) for x in v.itertuples(index=False)))
            if isinstance(v, dict):
                return ("d", tuple((repr(k), im(x)) for k, x in v.items()))
            if isinstance(v, (list, tuple)):
                return ("l", tuple(im(x) for x in v))
            if isinstance(v, np.ndarray):
                return ("a", tuple(tuple(map(gen.canon, x)) for x in v))
            return gen.canon(v)
        return im(src)

    def check_links(self, obj, when):
        own = {}
        for t, (p, d) in self.flds.items():
            if p:
                own.update({id(row): t for row in getattr(obj, t).values()})
        simple = {}
        for n, ft, m in self.case["fks"]:
            simple.setdefault((n, ft), []).append(m)
        for t, (p, d) in self.flds.items():
            if not p:
                continue
            for k, row in getattr(obj, t).items():
                for a, v in list(vars(row).items()):
                    if a.startswith("_"):
                        continue
                    for x in ([v] if id(v) in own or not isinstance(v, dict) else v.values()):
                        if id(x) not in own:
                            raise Violation("foreign-link", "%s: the link %s of %s[%s] leads to %s, which is no row of the object" % (when, a, t, k, x))
        for (n, ft), ms in simple.items():
            if len(ms) != 1 or not self.flds[n][0] or not self.flds[ft][0]:
                continue
            np_, fp = self.flds[n][0], self.flds[ft][0]
            back = {b: a for a, b in ms[0]}
            want = {}
            for k, row in getattr(obj, n).items():
                full = dict(zip(np_, (k,) if len(np_) == 1 else k), **{f: row[f] for f in self.flds[n][1]})
                want.setdefault(tuple(gen.canon(full[back[b]]) for b in fp), set()).add(id(row))
            for k, row in getattr(obj, ft).items():
                v = getattr(row, n, None)
                have = set() if v is None else {id(v)} if id(v) in own else set(map(id, v.values()))
                exp = want.get(tuple(map(gen.canon, (k,) if len(fp) == 1 else k)), set())
                if have != exp:
                    raise Violation("wrong-links", "%s: %s[%s] is linked to %d rows of %s, expected %d" % (when, ft, k, len(have), n, len(exp)))

    def check_frozen(self, obj, when):
        for t, (p, d) in self.flds.items():
            tbl = getattr(obj, t)
            tries = []
            if p:
                key = "zz9" if len(p) == 1 else ("zz9",) * len(p)
                tries.append(lambda: tbl.__setitem__(key, {}))
                tries += [lambda k=k: tbl.__delitem__(k) for k in list(tbl)[:1]]
                tries += [lambda r=r: r.__setitem__(f, 99) for r in tbl.values() for f in d[:1]]
            else:
                tries.append(lambda: tbl.append({}))
                tries += [lambda r=r: r.__setitem__(d[0], 99) for r in tbl]
            tries.append(lambda: setattr(obj, t, {}))
            for x in tries:
                try:
                    x()
                except Exception:
                    continue
                raise Violation("not-frozen", "%s: %s of the frozen object could be edited" % (when, t))

    # ---- operations -----------------------------------------------------------------------------------------------------------------
    def has_dups(self, img):
        return any(len({x[:len(p)] for x in img[t]}) < len(img[t]) for t, (p, d) in self.flds.items() if p and t in img)

    def as_tic(self, img):
        """what is left of a data frame's rows in a dictionary"""
        rtn = dict(img)
        for t, (p, d) in self.flds.items():
            if p:
                rtn[t] = list({x[:len(p)]: x for x in img[t]}.values())
        return rtn

    def layout(self, frames, want, shape, when):
        """which of the fields are columns of the data frames, and which make up the index"""
        for t, (pks, dfs) in self.flds.items():
            if t not in want or not pks or not len(getattr(frames, t)):
                continue
            df = getattr(frames, t)
            flat = shape in ("reset", "some")
            cols = list(dfs) if shape == "drop" or (shape == "default" and dfs) else list(pks) + list(dfs)
            index = [None] if flat else list(pks)
            if list(df.columns) != cols or list(df.index.names) != index or flat and list(df.index) != list(range(len(df))):
                raise Violation("wrong-layout", "%s: table %s has the columns %s and the index %s (%s), not %s and %s" % (
                    when, t, list(df.columns), list(df.index.names), list(df.index)[:4], cols, index))
            if shape == "keep":
                ks = [k if len(pks) > 1 else (k,) for k in df.index]
                if [tuple(map(gen.canon, k)) for k in ks] != [tuple(map(gen.canon, k)) for k in zip(*[list(df[p]) for p in pks])]:
                    raise Violation("wrong-layout", "%s: the index of table %s is not its primary key: %s" % (when, t, ks[:4]))

    def do_derive(self, op, entry, when):
        obj, kind, img = entry[:3]
        a = op["at"]
        tic, pan = self.f[False], self.f[True]
        # by the factory itself or by a clone of it
        tic, pan = (tic.clone(), pan.clone()) if a[4] < .15 else (tic, pan)
        freeze = a[0] < .25
        want, new, may = img, kind, None
        if kind == "tic":
            how = ["copy", "reset", "keep", "default", "some"][int(op["how"] * 5)]
            if how == "copy":
                fn = lambda: tic.copy_tic_dat(obj, freeze_it=freeze)
            else:
                some = sorted(t for i, t in enumerate(sorted(self.flds)) if a[i % 5] < .6) if how == "some" else None
                kw = {"reset_index": True} if how in ("reset", "some") else {"drop_pk_columns": False} if how == "keep" else {}
                if how == "default" and a[1] < .5:
                    kw = {"drop_pk_columns": True}
                fn = lambda: tic.copy_to_pandas(obj, table_restrictions=some, **kw)
                new, freeze = "pan" if how in ("reset", "keep") else "frames", False
                if some:
                    want = {t: v for t, v in img.items() if t in some}
                shape = "drop" if kw.get("drop_pk_columns") else how
        elif kind == "pan":
            how = ["copy", "convert"][int(op["how"] * 2)]
            if how == "copy":
                fn, freeze = lambda: pan.copy_pan_dat(obj), False
            else:
                fn = lambda: pan.copy_to_tic_dat(obj, freeze_it=freeze)
                new, want = "tic", self.as_tic(img)
                if self.has_dups(img) and self.case["dups"] == "assert":
                    may = AssertionError
                # (the copy is an object of a factory without links and defaults)
        else:
            return "frames"
        st, v = self.guarded(op, fn, when)
        if st == "error":
            if may and isinstance(v, may):
                return "refused"
            raise Violation("unexpected-exception", "%s (%s) raised %s" % (when, how, short(v)))
        if may:
            raise Violation("not-refused", "%s (%s) was done although rows are duplicated" % (when, how))
        if new != "tic" and kind == "tic":
            self.layout(v, want, shape, "%s (%s)" % (when, how))
        links = self.case["links"]
        if kind == "pan":
            self.case["links"] = False
        try:
            self.add(v, new, want, freeze, "%s (%s)" % (when, how),
                     {t: {f: 0 for f in d} for t, (p, d) in self.flds.items()} if how == "convert" else None)
        finally:
            self.case["links"] = links
        return how

    def do_freeze(self, op, entry, when):
        obj, kind, img, frozen, dflt = entry
        if kind != "tic":
            return "not"
        st, v = self.guarded(op, lambda: self.f[False].freeze_me(obj), when)
        if st == "error" or v is not obj:
            raise Violation("unexpected-exception", "%s gave %s" % (when, short(v) if st == "error" else v))
        entry[3] = True
        self.same(self.image(obj), img, when)
        entry[2] = self.image(obj)
        self.check_frozen(obj, when)
        return "frozen"

    def do_construct(self, op, entry, when):
        """a new object from containers, which are the user's"""
        pan = op["how"] < .45
        a = op["at"]
        args, want = {}, {}
        img = {t: [list(x) for x in self.case["data"][t]] for t in self.flds}
        t0, row0 = op["table"], op["row"]
        img[t0].append(row0)
        for t, (p, d) in self.flds.items():
            rows = [[gen.dec(v) for v in x] for x in self.unique(img[t], len(p))]
            form = op["forms"][t]
            fields = p + d
            drop = d[-1] if op["drop"][t] and d else None            # (a data field that is left to its default)
            kept = [f for f in fields if f != drop]
            exp = [[self.dflt[t][f] if f == drop else v for f, v in zip(fields, x)] for x in rows]
            full = [list(x) for x in rows]
            cut = [[v for f, v in zip(fields, x) if f != drop] for x in rows]
            if pan:
                kinds = ["frame", "frame index", "lists", "dicts", "columns", "array"]
                k = kinds[int(form * 6)]
                if k == "frame index" and not p:
                    k = "frame"
                if not rows and k in ("lists", "dicts", "array"):
                    k = "frame"
                if k in ("frame", "frame index"):
                    df = pd.DataFrame(cut, columns=kept)
                    v = df.set_index(p) if k == "frame index" and len(kept) > len(p) else df
                elif k == "lists":
                    v, exp = full, rows
                elif k == "array":
                    v, exp = array_of(full), rows
                elif k == "dicts":
                    v = [dict(zip(kept, x)) for x in cut]
                else:
                    v = {f: [x[i] for x in cut] for i, f in enumerate(kept)}
                if not kept:
                    v, exp = pd.DataFrame(full, columns=fields), rows
            else:
                kinds = ["dict", "list", "scalar", "frame", "frame index", "keys", "array"]
                k = kinds[int(form * 7)]
                if k == "array" and not (rows and d):
                    k = "list"
                if k == "scalar" and len(d) != 1:
                    k = "list"
                if k == "keys" and (d or not p):
                    k = "dict"
                if k == "frame index" and not p:
                    k = "frame"
                key = lambda x: x[0] if len(p) == 1 else tuple(x[:len(p)])
                if k == "dict":
                    items = [(key(x), dict(list(zip(kept, y))[len(p):])) for x, y in zip(full, cut)]
                    v = dict(items) if p else [y for _, y in items]
                elif k == "list":
                    exp, items = rows, [(key(x) if p else None, x[len(p):]) for x in full]
                    v = dict(items) if p else [y for _, y in items]
                elif k == "scalar":
                    exp, items = rows, [(key(x) if p else None, x[-1]) for x in full]
                    v = dict(items) if p else [y for _, y in items]
                elif k == "keys":
                    v = [key(x) for x in full]
                elif k == "array":
                    v, exp = array_of(full), rows
                else:
                    df = pd.DataFrame(cut, columns=kept)
                    v = df.set_index(p) if k == "frame index" else df
                    if not kept:
                        v, exp = pd.DataFrame(full, columns=fields), rows
            args[t] = v
            want[t] = [tuple(map(gen.canon, x)) for x in exp]
        if self.case["generic"]:
            args["some_frame"] = pd.DataFrame({"u": [9.5], "v": ["w"]})
            want["some_frame"] = [(gen.canon(9.5), gen.canon("w"))]
        f = self.f[pan]
        before = self.source_image(args)
        st, v = self.guarded(op, lambda: (f.PanDat if pan else f.TicDat)(**args), when)
        if st == "error":
            raise Violation("unexpected-exception", "%s raised %s" % (when, short(v)))
        if self.source_image(args) != before:
            raise Violation("shared", "%s changed the containers it was given" % when)
        self.add(v, "pan" if pan else "tic", want, False, when)
        self.sources.append([args, before])
        return "pan" if pan else "tic"

    def do_source(self, op, entry, when):
        """the user goes on using the containers"""
        if not self.sources:
            return "none"
        src = self.sources[int(op["on"] * len(self.sources))]
        for t, v in src[0].items():
            if isinstance(v, pd.DataFrame):
                if len(v) and len(v.columns):
                    try:
                        v.to_numpy()[0, 0] = 77
                        v.iloc[0, 0] = 77
                    except Exception:
                        pass
                    v.drop(v.index[-1:], inplace=True)
            elif isinstance(v, np.ndarray):
                v[int(op["at"][0] * len(v)), -1] = 77
            elif isinstance(v, dict):
                for x in v.values():
                    if isinstance(x, dict):
                        for f in x:
                            x[f] = 77
                    elif isinstance(x, list):
                        x[:] = [77] * len(x)
                v.pop(next(iter(v)), None) if v else None
            else:
                for x in v:
                    if isinstance(x, dict):
                        for f in x:
                            x[f] = 77
                    elif isinstance(x, list):
                        x[:] = [77] * len(x)
                del v[:1]
        src[1] = self.source_image(src[0])
        return "used"

    def do_edit(self, op, entry, when):
        obj, kind, img, frozen, dflt = entry
        t, a = op["table"], op["at"]
        p, d = self.flds[t]
        row = [gen.dec(x) for x in op["row"]]
        tbl = getattr(obj, t, None)
        if a[4] < .3 and len(getattr(obj, "some_frame", ())):
            df = obj.some_frame
            i = int(a[0] * len(df))
            if a[1] < .4:
                df.iloc[i, 0] = a[2]
            elif a[1] < .7:
                df["u"].to_numpy()[i] = a[2]
            else:
                df.drop(df.index[i], inplace=True)
            entry[2] = self.image(obj)
            return "generic"
        if tbl is None:
            return "none"
        if isinstance(tbl, pd.DataFrame):
            cols = [f for f in d if f in tbl.columns]
            if not len(tbl) or not cols:
                return "none"
            i, f = int(a[0] * len(tbl)), cols[int(a[1] * len(cols))]
            v = row[(p + d).index(f)]
            how = ["iloc", "numpy", "drop", "column", "append"][int(op["how"] * 5)]
            if how == "iloc":
                tbl.iloc[i, list(tbl.columns).index(f)] = v
            elif how == "numpy":
                try:
                    tbl[f].to_numpy()[i] = v
                except (TypeError, ValueError, OverflowError):
                    pass
            elif how == "drop":
                tbl.drop(tbl.index[i], inplace=True)
            elif how == "column":
                x = list(tbl[f])
                x[i] = v
                tbl[f] = x
            elif all(x in tbl.columns for x in p + d):
                setattr(obj, t, pd.concat([tbl, pd.DataFrame([row], columns=p + d)], ignore_index=True))
            entry[2] = self.image(obj)
            return how
        rows = [x for x in img[t]]
        if p and rows and a[3] < .6:            # an entry that is there
            k = list(tbl)[int(a[0] * len(rows))]
            row[:len(p)] = [k] if len(p) == 1 else k
        key = (row[0] if len(p) == 1 else tuple(row[:len(p)])) if p else None
        ck = tuple(map(gen.canon, row[:len(p)]))
        pos = next((i for i, x in enumerate(rows) if x[:len(p)] == ck), None) if p else int(a[0] * len(rows)) if rows else None
        full = tuple(map(gen.canon, row))
        dd = tuple(gen.canon(dflt[t][f]) for f in d)
        vals = dict(zip(d, row[len(p):]))
        part = {f: v for i, (f, v) in enumerate(vals.items()) if a[i % 5] < .5}
        how = (["dict", "dict", "list", "scalar", "touch", "del", "bad field", "bad length", "bad key", "delete missing"] + ["cell"] * 5)[int(op["how"] * 15)]
        put = lambda v: tbl.__setitem__(key, v) if p else tbl.append(v) if a[1] < .5 or pos is None else tbl.__setitem__(pos, v)

        def placed(x):
            if p:
                return [x if i == pos else y for i, y in enumerate(rows)] if pos is not None else rows + [x]
            return rows + [x] if a[1] < .5 or pos is None else [x if i == pos else y for i, y in enumerate(rows)]
        want = rows
        bad = frozen
        if how == "dict":
            fn = lambda: put(dict(part))
            want = placed(ck + tuple(gen.canon(part[f]) if f in part else x for f, x in zip(d, dd)))
        elif how == "list":
            fn, want = lambda: put(list(row[len(p):])), placed(full)
        elif how == "scalar":
            if len(d) != 1:
                return "none"
            fn, want = lambda: put(row[-1]), placed(full)
        elif how == "touch":
            if not p:
                return "none"
            fn = lambda: tbl[key]
            want = rows if pos is not None else rows + [ck + dd]
            if pos is not None:
                bad = False
        elif how == "cell":
            if pos is None or not d:
                return "none"
            f = d[int(a[2] * len(d))]
            fn = lambda: (tbl[key] if p else tbl[pos]).__setitem__(f, vals[f])
            x = list(rows[pos])
            x[len(p) + d.index(f)] = gen.canon(vals[f])
            want = [tuple(x) if i == pos else y for i, y in enumerate(rows)]
        elif how == "del":
            if pos is None:
                return "none"
            fn = lambda: tbl.__delitem__(key if p else pos)
            want = [y for i, y in enumerate(rows) if i != pos]
        elif how == "delete missing":
            if not p or pos is not None:
                return "none"
            fn, bad = lambda: tbl.__delitem__(key), True
        elif how == "bad field":
            fn, bad = lambda: put(dict(part, **{"no such field": 1})), True
        elif how == "bad length":
            fn, bad = lambda: put(list(row[len(p):]) + [1]), True
        else:
            if not p:
                return "none"
            fn, bad = lambda: tbl.__setitem__(("x",) * (len(p) + 1), {}), True
        br = Breaker(int(12 * op["broken"][1]), op["broken"][0]) if op.get("broken") else None
        try:
            br(fn) if br else fn()
            if br and br.raised is not None:
                br = None
            ok = True
        except (Exception, KeyboardInterrupt) as e:
            ok = False
            if br is None or br.raised is None:
                if not bad:
                    raise Violation("unexpected-exception", "%s (%s) raised %s" % (when, how, short(e)))
        if ok and bad:
            raise Violation("not-refused", "%s (%s) was accepted%s" % (when, how, " by a frozen object" if frozen else ""))
        have = self.image(obj)
        if not ok and br is not None and br.raised is not None and not bad:
            W.count("faults: " + op["broken"][0])
            if have[t] not in (want, rows) and not (how == "touch" and have[t] == rows + [ck + dd]):
                raise Violation("half-edit", "%s (%s), broken off at %s:%d, left %s; it was %s, to become %s" % ((when, how) + br.where + (have[t], rows, want)))
        elif have[t] != (want if ok else rows):
            raise Violation("wrong-edit", "%s (%s): %s holds %s, expected %s" % (when, how, t, have[t], want if ok else rows))
        img = dict(img, **{t: have[t]})
        if have != img:
            raise Violation("wrong-edit", "%s (%s) changed other tables" % (when, how))
        entry[2] = have
        return how if ok else "refused " + how

    # ---- obfuscation ------------------------------------------------------------------------------------------------------------------
    def closure(self):
        pk = {t: set(p) for t, (p, d) in self.flds.items()}
        all_ = {(n, ft, frozenset(map(tuple, m))) for n, ft, m in self.case["fks"]}
        while True:
            new = set()
            for n, b, m in all_:
                back = {y: x for x, y in m}
                for b2, f, m2 in all_:
                    if b2 == b:
                        x = frozenset((back[u], v) for u, v in m2 if u in back)
                        if x and {v for _, v in x} == pk[f] and n != f:
                            new.add((n, f, x))
            if new <= all_:
                return all_
            all_ |= new

    def do_obfu(self, op, entry, when):
        obj, kind, img = entry[:3]
        if kind not in ("tic", "pan"):
            return "not"
        a = op["at"]
        pan = kind == "pan"
        f = self.f[pan]
        fks = self.closure()
        single = {t for t, (p, d) in self.flds.items() if len(p) == 1}
        entity = {t for t in single if not any(n == t and set(self.flds[t][0]) <= {x for x, _ in m} and set(self.flds[ft][0]) <= {y for _, y in m}
                                               for n, ft, m in fks)}
        order = sorted(entity)
        skip = [t for i, t in enumerate(order) if a[i % 5] < .2]
        prep = {t: "QXZVB"[i % 5] * (1 + i // 5) for i, t in enumerate(order) if a[i % 5] > .8}
        every = set(entity)
        entity -= set(skip)
        kw = {"table_prepends": prep, "skip_tables": skip}
        fn = lambda: f.obfusimplify(obj, **kw)
        st, v = self.guarded(op, fn, when)
        # what may be refused
        flds = {t: p + d for t, (p, d) in self.flds.items()}
        tic = self.as_tic(img)
        fails = False
        for n, ft, m in fks:
            have = {tuple(x[flds[ft].index(y)] for _, y in sorted(m)) for x in tic[ft]}
            fails = fails or any(tuple(x[flds[n].index(u)] for u, _ in sorted(m)) not in have for x in tic[n])
        dup = pan and self.has_dups(img) and self.case["dups"] == "assert"
        to, to_any = {}, {}
        for n, ft, m in fks:
            for u, _ in m:
                if ft in entity:
                    to.setdefault((n, u), set()).add(ft)
                if ft in every:
                    to_any.setdefault((n, u), set()).add(ft)
        # names that would have to be two things at once
        hard = self.complex(self.case) or any(len(x) > 1 for x in to_any.values()) or any(n == ft for n, ft, _ in fks) or any(
            (t, self.flds[t][0][0]) in to_any for t in every)
        kind_of = {**{(t, self.flds[t][0][0]): {t} for t in every}, **to_any}
        hard = hard or any(kind_of.get((n, u)) != kind_of.get((ft, w)) for n, ft, m in fks for u, w in m)
        mixed = any(len({x[0][0] for x in tic[t]}) > 1 for t in entity)
        if st == "error":
            if (fails or dup or hard or mixed) and isinstance(v, (ticdat.utils.TicDatError, AssertionError, KeyError, TypeError)):
                return "refused"
            raise Violation("unexpected-exception", "%s raised %s" % (when, short(v)))
        if fails or dup:
            raise Violation("not-refused", "%s was done although the data has %s" % (when, "failures" if fails else "duplicates"))
        copy_, ren = v.copy, dict(v.renamings)
        got = self.image(copy_)
        dec = {gen.canon(k): (t, gen.canon(x)) for k, (t, x) in ren.items()}
        want = {(t, x[0]) for t in entity for x in tic[t]}
        if not hard and set(dec.values()) != want:
            raise Violation("wrong-renamings", "%s: the renamings are %s, expected those of %s" % (when, ren, sorted(want)))
        if len(set(dec.values())) != len(dec):
            raise Violation("wrong-renamings", "%s: two new names stand for the same entity: %s" % (when, ren))
        for k, (t, x) in ren.items():
            if not re.match(r"^[A-Z]+[0-9]+$", str(k)) or t in prep and not re.match("^%s[0-9]+$" % prep[t], str(k)):
                raise Violation("wrong-renamings", "%s: %s[%s] is renamed to %s (prepends %s)" % (when, t, x, k, prep))
        new = {}
        for t, p, d in self.case["tables"]:
            rows = []
            for x in got[t]:
                y = []
                for fld, c in zip(p + d, x):
                    target = ({t} if t in entity and fld == p[0] else set()) | to.get((t, fld), set()) if p else to.get((t, fld), set())
                    if not hard:
                        if not target:
                            y.append(c)     # (has to be the value itself)
                            continue
                        if c not in dec or dec[c][0] not in target:
                            raise Violation("wrong-renaming", "%s: %s.%s holds %s, which stands for %s; expected %s" % (
                                when, t, fld, c, dec.get(c), "an entry of %s" % target))
                    y.append(dec[c][1] if c in dec else c)
                rows.append(tuple(y))
            new[t] = rows
        if "some_frame" in got:
            new["some_frame"] = got["some_frame"]
        if hard and any(x and x[0] == "s" and re.match(r"^[A-Z]+[0-9]+$", str(x[1])) for t in self.flds for row in tic[t] for x in row):
            return "ambiguous"
        self.same(new, tic, "%s: the copy with its names replaced by the old ones" % when)
        links = self.case["links"]
        self.case["links"] = False
        try:
            self.add(copy_, kind, got, False, when)
        finally:
            self.case["links"] = links
        return "done"

    def shrink(self, case):
        for cand in _base.shrink_list(case["hist"]):
            yield dict(case, hist=cand)
        for i, o in enumerate(case["hist"]):
            if o.get("broken"):
                c = copy.deepcopy(case)
                c["hist"][i].pop("broken")
                yield c
        for key in ("fks", "defaults"):
            for cand in _base.shrink_list(case[key]):
                yield dict(case, **{key: cand})
        for t, p, d in case["tables"]:
            if len(case["tables"]) > 1 and not any(t in x[:2] for x in case["fks"]):
                hist = [o for o in case["hist"] if o.get("table") != t]
                yield dict(case, tables=[x for x in case["tables"] if x[0] != t], defaults=[x for x in case["defaults"] if x[0] != t],
                           data={k: v for k, v in case["data"].items() if k != t}, hist=hist)
            for cand in _base.shrink_list(case["data"][t]):
                yield dict(case, data=dict(case["data"], **{t: cand}))
        for key in ("generic", "links"):
            if case[key]:
                yield dict(case, **{key: False})


def array_of(rows):
    """(numbers only: an array of numbers)"""
    dtype = float if all(type(v) is float for x in rows for v in x) else object
    rtn = np.empty((len(rows), len(rows[0])), dtype=dtype)
    for i, x in enumerate(rows):
        for j, v in enumerate(x):
            rtn[i, j] = v
    return rtn


CHECK = P18()

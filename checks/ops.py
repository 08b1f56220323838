"""Public operations of TicDat / PanDat factories as named functions with comparable results (used by several checks)."""
from .common import *
from .formats import F, GEN_KINDS, Fmt

OP_KINDS = ("int", "float", "text", "zip", "null", "inf", "dt", "mixed")


def make_fmt(generic=()):
    f = Fmt(**{k: v for k, v in F["sqlite"].__dict__.items() if k not in ("prof", "self", "kinds", "pk_kinds", "flags", "generators", "texts", "generic")},
            kinds=OP_KINDS, pk_kinds=("int", "text", "zip"), flags=("N/A", "N/A", 999999999, None),
            texts=[t for t in gen.TEXTS if ";" not in t], generic=generic)
    return f


def clean(fm, rng, s, **kw):
    d = fm.gen_data(rng, s, **kw)
    for t, pks, dfs in s["tables"]:
        if not pks:
            d[t] = [r for r in d[t] if not all(v is None or isinstance(v, dict) and "$inf" in v for v in r)]
        d[t] = [[.25 if v == 1 / 3. else v for v in r] for r in d[t]]
    return d


BAD = ["bad", -7777777, None, 2.5, {"$inf": 1}, "", 0]


def spoil(rng, s, data):
    """data with values of the wrong type and keys without a match, as plain JSON values"""
    rtn = {}
    for t, pks, dfs in s["tables"]:
        rows, seen = [], set()
        for r in data[t]:
            r = list(r)
            if t != "parameters":
                for i in range(len(r)):
                    if rng.random() < .25:
                        r[i] = rng.choice(BAD if i >= len(pks) else ["zz", 31337, "qq"])
            k = repr(r[:len(pks)])
            if pks and k in seen:
                continue
            seen.add(k)
            rows.append(r)
        rtn[t] = rows
    return rtn


def gen_predicates(rng, s):
    rtn = []
    for t, pks, dfs in s["tables"]:
        if t == "parameters" or t in s.get("generic", ()):
            continue
        for f in pks + dfs:
            if rng.random() < .3:
                rtn.append([t, "p_%s_%s" % (t, f), f, rng.choice(["nonneg", "short", "msg", "boom", "kw"])])
    return rtn


class PredicateBoom(Exception):
    pass


def make_predicate(f, how):
    def nonneg(row):
        v = row[f]
        return not (isinstance(v, (int, float)) and v < 0)

    def shrt(row):
        return not isinstance(row[f], str) or len(row[f]) < 6

    def msg(row):
        v = row[f]
        return True if not isinstance(v, str) else "a string: %s" % v

    def boom(row):
        if row[f] == "bad" or row[f] is None:
            raise PredicateBoom("cannot handle %r" % row[f])
        return True

    def kw(row, limit=0):
        return not (isinstance(row[f], (int, float)) and row[f] > limit)
    return {"nonneg": nonneg, "short": shrt, "msg": msg, "boom": boom, "kw": kw}[how]


def add_predicates(fac, preds):
    for t, name, f, how in preds:
        kw = {}
        if how == "msg":
            kw["predicate_failure_response"] = "Error Message"
        if how == "kw":
            kw["predicate_kwargs_maker"] = lambda dat: {"limit": 50}
        fac.add_data_row_predicate(t, make_predicate(f, how), name, **kw)


def plain(v):
    """a comparable form of whatever an operation returns"""
    tn = type(v).__name__
    if tn == "DataFrame":
        return ("df", tuple(map(str, v.columns)), tuple(tuple(plain(x) for x in r) for r in v.values.tolist()),
                tuple(plain(i) for i in v.index.tolist()))
    if tn == "Series":
        return ("series", tuple((plain(i), plain(x)) for i, x in v.items()))
    if hasattr(v, "_fields") and isinstance(v, tuple):
        return (tn,) + tuple((k, plain(x)) for k, x in zip(v._fields, v))
    if isinstance(v, dict):
        return ("map",) + tuple(sorted(((plain(k), plain(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((plain(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if callable(v):
        return ("callable",)
    if hasattr(v, "data_fields") and hasattr(v, "schema"):
        return plain(v.schema(include_ancillary_info=True))
    return canon_or_repr(v)


def canon_or_repr(v):
    c = gen.canon(v)
    return ("?", type(v).__name__) if isinstance(c, tuple) and c[0] == "?" else c


class Ctx:
    """what an operation works on: a factory, the schema, a data object to read, data for making one's own, a directory"""

    def __init__(self, fac, s, dat, data, messy, root, pan):
        self.fac, self.s, self.dat, self.data, self.messy, self.root, self.pan = fac, s, dat, data, messy, root, pan

    def build(self, data):
        return gen.build_pan(self.fac, self.s, data) if self.pan else gen.build_dat(self.fac, self.s, data, [])

    def rows(self, d):
        return plain({t: r for t, r in (pan_rows if self.pan else tic_rows)(d, self.s).items()})

    def path(self, stem, fm):
        return os.path.join(self.root, stem + fm.suffix)


def _sorted_df_map(m):
    return {k: v for k, v in m.items()}


def _io(fmt, opts):
    def fn(c, i):
        fm = F[fmt]
        d = c.build(c.data)
        p = c.path("w%d" % i, fm)
        fm.write(c.fac, d, p, False, opts)
        return c.rows(fm.read(c.fac, p, opts))
    return fn


def _rewrite(fmt, opts):
    """writing over what an earlier operation of the same client left"""
    def fn(c, i):
        fm = F[fmt]
        p = c.path("over", fm)
        fm.write(c.fac, c.build(c.data), p, True, opts)
        return c.rows(fm.read(c.fac, p, opts))
    return fn


def _dups(fmt, opts):
    def fn(c, i):
        fm = F[fmt]
        p = c.path("d%d" % i, fm)
        fm.write(c.fac, c.build(c.data), p, False, opts)
        return plain(fm.dups(c.fac, p, opts))
    return fn


def _refused(fmt, opts):
    def fn(c, i):
        fm = F[fmt]
        p = c.path("r%d" % i, fm)
        fm.write(c.fac, c.build(c.data), p, False, opts)
        try:
            fm.write(c.fac, c.build(c.data), p, False, opts)
        except Exception as e:
            return type(e).__name__
        return "accepted"
    return fn


def _mut(how):
    def fn(c, i):
        d = c.build(c.messy)
        r = getattr(c.fac, how)(d)
        return c.rows(r if r is not None else d)
    return fn


def _links(c, i):
    d = c.build(c.data)
    out = []
    for t, pks, dfs in c.s["tables"]:
        if pks:
            for k, row in getattr(d, t).items():
                for n, ft, m in c.s["fks"]:
                    if ft == t and len(m) == 1:
                        names = sorted(a for a in dir(row) if a.startswith(n))
                        out.append((t, plain(k), tuple((a, len(getattr(row, a))) for a in names)))
    return tuple(sorted(out, key=repr))


def _rowfail(handling):
    def fn(c, i):
        d = c.dat if c.dat is not None else c.build(c.messy)
        kw = {"as_table": False} if c.pan else {}
        return plain(c.fac.find_data_row_failures(d, exception_handling=handling, **kw))
    return fn


def _on(fnx):
    def fn(c, i):
        return plain(fnx(c.fac, c.dat if c.dat is not None else c.build(c.messy), c))
    return fn


OPTS = {"sqlite": {}, "json": {}, "json_pd": {}, "csv": {"dialect": "excel", "header": True, "case_space": False},
        "xls": {"case_space": False}, "xlsx": {"case_space": False}, "sqltxt": {"schema": True},
        "psqlite": {"case_space": False}, "pjson": {}, "pjson_pd": {"case_space": False, "indent": 2, "sort": False},
        "pcsv": {"case_space": False, "sep": ","}, "pxlsx": {"case_space": False}}
NOFLAG = lambda r: r

TIC = {
    "make": lambda c, i: c.rows(c.build(c.data)),
    "make messy": lambda c, i: c.rows(c.build(c.messy)),
    "fk": _on(lambda f, d, c: f.find_foreign_key_failures(d)),
    "fk low": _on(lambda f, d, c: f.find_foreign_key_failures(d, verbosity="Low")),
    "dt": _on(lambda f, d, c: f.find_data_type_failures(d)),
    "rows as failure": _rowfail("Handled as Failure"),
    "rows unhandled": _rowfail("Unhandled"),
    "fk remove": _mut("remove_foreign_key_failures"),
    "dt replace": _mut("replace_data_type_failures"),
    "copy": lambda c, i: c.rows(c.fac.copy_tic_dat(c.dat if c.dat is not None else c.build(c.messy))),
    "freeze": lambda c, i: c.rows(c.fac.freeze_me(c.build(c.messy))),
    "pandas": lambda c, i: plain({t: getattr(c.fac.copy_to_pandas(c.build(c.data), drop_pk_columns=False), t).reset_index(drop=True)
                                  for t in c.fac.all_tables}),
    "params": _on(lambda f, d, c: f.create_full_parameters_dict(d) if f.parameters else None),
    "schema": _on(lambda f, d, c: f.schema(include_ancillary_info=True)),
    "clone": lambda c, i: plain(c.fac.clone().schema(include_ancillary_info=True)),
    "full schema": lambda c, i: plain(type(c.fac).create_from_full_schema(c.fac.schema(include_ancillary_info=True)).schema(
        include_ancillary_info=True)),
    "as dict": _on(lambda f, d, c: f.as_dict(d)),
    "good": _on(lambda f, d, c: f.good_tic_dat_object(d)),
    "types": _on(lambda f, d, c: [f.data_types, f.default_values, f.foreign_keys, f.parameters, f.generator_tables]),
    "links": _links,
}
PAN = {
    "make": TIC["make"], "make messy": TIC["make messy"], "dt replace": TIC["dt replace"], "fk remove": TIC["fk remove"],
    "rows as failure": TIC["rows as failure"], "rows unhandled": TIC["rows unhandled"], "schema": TIC["schema"], "clone": TIC["clone"],
    "full schema": TIC["full schema"], "params": TIC["params"],
    "fk": _on(lambda f, d, c: f.find_foreign_key_failures(d)),
    "dt": _on(lambda f, d, c: f.find_data_type_failures(d)),
    "dt bool": _on(lambda f, d, c: f.find_data_type_failures(d, as_table=False)),
    "duplicates": _on(lambda f, d, c: f.find_duplicates(d)),
    "copy": lambda c, i: c.rows(c.fac.copy_pan_dat(c.dat if c.dat is not None else c.build(c.messy))),
    "good": _on(lambda f, d, c: f.good_pan_dat_object(d)),
    "to tic": lambda c, i: plain(tic_rows(c.fac.copy_to_tic_dat(c.build(c.data)), c.s)),
    "types": _on(lambda f, d, c: [f.data_types, f.default_values, f.foreign_keys, f.parameters]),
}
for _n, _f in F.items():
    _d = PAN if _f.pan else TIC
    _d["io " + _n] = _io(_n, OPTS[_n])
    if _n != "sqltxt":
        _d["rewrite " + _n] = _rewrite(_n, OPTS[_n])
    if _f.dups:
        _d["dups " + _n] = _dups(_n, OPTS[_n])
    if _f.overwrite and not _f.pan:
        _d["refused " + _n] = _refused(_n, OPTS[_n])
_d = None


def perform(c, op, i):
    try:
        return ("ok", (PAN if c.pan else TIC)[op](c, i))
    except Violation:
        raise
    except Exception as e:
        if W.is_dead():
            raise SimCrash()
        return ("error", type(e).__name__, str(e)[:160] if type(e).__name__ == "PredicateBoom" else "")

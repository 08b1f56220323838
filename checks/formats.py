"""
The storage formats behind one interface: how each is written and read through ticdat's public API, and the data each one
is documented to carry faithfully.
"""
import json

from .common import *

NUM_OK = ("int", "float", "null", "ntext")
CSV_OK = ("int", "float", "ntext")     # (a number in a csv field without type and numeric default is text)
FLAGS = ("N/A", "N/A", "N/A", 999999999, None)
SQL_TEXTS = [t for t in gen.TEXTS if ";" not in t]
# (a mixed value is typed, an infinity is typed when it travels as a null)
GEN_KINDS = ("int", "float", "text", "text")
KINDS = ("int", "float", "inf", "null", "text", "zip", "dt", "mixed", "ntext")


class Fmt:
    def __init__(self, name, pan, suffix, write, read, opts=None, kinds=KINDS, pk_kinds=("int", "text", "zip", "float"),
                 texts=gen.TEXTS, flags=FLAGS, overwrite=True, dups=None, all_none=True, thirds=True, generators=False,
                 untyped_pk=("text",), detects_torn=False, family=None, untyped=NUM_OK, generic=(), bare=False,
                 no_name=False):
        self.__dict__.update(locals())
        self.prof = gen.Profile(kinds=kinds, pk_kinds=pk_kinds, flags=flags, texts=texts, untyped=untyped, untyped_pk=untyped_pk,
                                generators=generators, generic=generic, bare=bare)

    def gen_opts(self, rng, s=None):
        o = {k: rng.choice(v) for k, v in (self.opts or {}).items()}
        if "header" in o and s and s.get("generic"):
            o["header"] = True
        return o

    def gen_case(self, rng, max_rows=None, **kw):
        s = gen.gen_schema(rng, self.prof, **kw)
        if self.no_name:
            s = json.loads(json.dumps(s).replace('"name"', '"a name"').replace('|name"', '|a name"'))
        self.fix_schema(s)
        return s

    def fix_schema(self, s):
        """a field whose infinities travel as nulls needs its data type declared"""
        if s["flag"] is None:
            typed = {(x[0], x[1]) for x in s["types"]}
            for k, kind in s["kinds"].items():
                t, f = k.split("|")
                if kind.replace("fk:", "") == "inf" and (t, f) not in typed:
                    s["types"].append([t, f, gen.type_kwargs(None, "inf", None)])

    def gen_data(self, rng, s, max_rows=None, min_rows=0):
        data = gen.gen_data(rng, s, self.prof, max_rows=max_rows, min_rows=min_rows)
        for t, pks, dfs in s["tables"]:
            if not pks and not self.all_none:
                data[t] = [r for r in data[t] if not all(v is None or (s["flag"] is None and isinstance(v, dict) and "$inf" in v)
                                                         for v in r)]
            if not self.thirds:
                data[t] = [[.25 if v == 1 / 3. else v for v in r] for r in data[t]]
        return data

    @property
    def empty(self):
        return self.family in ("json", "sql") or self.name == "csv"

    def carries(self, s):
        """a schema made for another format: are its untyped fields ones this format keeps"""
        typed = {(x[0], x[1]) for x in s["types"]}
        return all((t, f) in typed or s["kinds"][t + "|" + f].split(":")[-1] in self.prof.untyped + self.prof.untyped_pk
                   for t, pks, dfs in s["tables"] for f in pks + dfs)

    def some_empty(self, rng, s, data):
        """empty texts, in formats that tell them from nulls"""
        typed = {(x[0], x[1]) for x in s["types"]}
        for t, pks, dfs in s["tables"]:
            for i, f in enumerate(dfs):
                if s["kinds"][t + "|" + f] == "text" and (t, f) in typed:
                    for r in data[t]:
                        if rng.random() < .2:
                            r[len(pks) + i] = ""

    def factory(self, s):
        return pdf_of(s) if self.pan else tdf_of(s)

    def build(self, f, s, data, gens=None):
        return gen.build_pan(f, s, data) if self.pan else gen.build_dat(f, s, data, gens)

    def rows(self, dat, s):
        return pan_rows(dat, s) if self.pan else tic_rows(dat, s)

    def path(self, stem):
        return W.path(stem + self.suffix)


def _o(o, *names):
    return {n: o[n] for n in names if n in o}


def _fill(o):
    return {"fill_missing_fields": True} if o.get("fill") else {}


F = {}


def _add(*a, **k):
    f = Fmt(*a, **k)
    F[f.name] = f


_add("sqlite", False, ".db",
     lambda f, d, p, ow, o: f.sql.write_db_data(d, p, allow_overwrite=ow),
     lambda f, p, o: f.sql.create_tic_dat(p, freeze_it=o.get("freeze", False)),
     opts={"freeze": [False, False, True]}, kinds=KINDS + ("bool",), dups=lambda f, p, o: f.sql.find_duplicates(p),
     generators=True, family="sql", generic=GEN_KINDS + ("bool", "null"))
_add("json", False, ".json",
     lambda f, d, p, ow, o: f.json.write_file(d, p, allow_overwrite=ow, verbose=o.get("verbose", False)),
     lambda f, p, o: f.json.create_tic_dat(p, freeze_it=o.get("freeze", False)),
     opts={"verbose": [False, True], "freeze": [False, False, True]}, kinds=KINDS + ("bool",),
     dups=lambda f, p, o: f.json.find_duplicates(p), detects_torn=True, family="json")
_add("json_pd", False, ".json",
     lambda f, d, p, ow, o: f.json.write_file(d, p, allow_overwrite=ow, to_pandas=True),
     lambda f, p, o: f.json.create_tic_dat(p, freeze_it=o.get("freeze", False)),
     opts={"freeze": [False, False, True]}, dups=lambda f, p, o: f.json.find_duplicates(p), detects_torn=True, family="json")
_add("csv", False, ".d",
     lambda f, d, p, ow, o: f.csv.write_directory(d, p, allow_overwrite=ow, dialect=o["dialect"], write_header=o["header"],
                                                  case_space_table_names=o["case_space"]),
     lambda f, p, o: f.csv.create_tic_dat(p, dialect=o["dialect"], headers_present=o["header"], freeze_it=o.get("freeze", False)),
     opts={"dialect": ["excel", "excel", "excel-tab", "unix"], "header": [True, True, False], "case_space": [False, False, True],
           "freeze": [False, False, True]},
     dups=lambda f, p, o: f.csv.find_duplicates(p, dialect=o["dialect"], headers_present=o["header"]),
     generators=True, generic=GEN_KINDS, bare=True, untyped=CSV_OK,
     pk_kinds=("text", "zip", "int", "float"), family="csv")
_add("xls", False, ".xls",
     lambda f, d, p, ow, o: f.xls.write_file(d, p, allow_overwrite=ow, case_space_sheet_names=o["case_space"]),
     lambda f, p, o: f.xls.create_tic_dat(p, freeze_it=o.get("freeze", False)),
     opts={"case_space": [False, False, True], "freeze": [False, False, True]}, all_none=False,
     dups=lambda f, p, o: f.xls.find_duplicates(p), family="xls", generic=GEN_KINDS, bare=True)
_add("xlsx", False, ".xlsx",
     lambda f, d, p, ow, o: f.xls.write_file(d, p, allow_overwrite=ow, case_space_sheet_names=o["case_space"]),
     lambda f, p, o: f.xls.create_tic_dat(p, freeze_it=o.get("freeze", False)),
     opts={"case_space": [False, False, True], "freeze": [False, False, True]}, all_none=False,
     dups=lambda f, p, o: f.xls.find_duplicates(p), detects_torn=True, family="xls", generic=GEN_KINDS, bare=True)
_add("sqltxt", False, ".sql",
     lambda f, d, p, ow, o: f.sql.write_sql_file(d, p, allow_overwrite=ow, include_schema=o["schema"]),
     lambda f, p, o: f.sql.create_tic_dat_from_sql(p, includes_schema=o["schema"], freeze_it=o.get("freeze", False)),
     opts={"schema": [False, True], "freeze": [False, False, True]}, kinds=KINDS + ("bool",), texts=SQL_TEXTS, family="sql",
     generic=GEN_KINDS, bare=True)

_add("psqlite", True, ".db",
     lambda f, d, p, ow, o: f.sql.write_file(d, p, case_space_table_names=o["case_space"]),
     lambda f, p, o: f.sql.create_pan_dat(p, **_fill(o)), opts={"case_space": [False, False, True]}, overwrite=None, family="sql",
     generic=GEN_KINDS)
_add("pjson", True, ".json",
     lambda f, d, p, ow, o: f.json.write_file(d, p),
     lambda f, p, o: f.json.create_pan_dat(p), overwrite=None, detects_torn=True, family="json")
_add("pjson_pd", True, ".json",
     lambda f, d, p, ow, o: f.json.write_file_pd(d, p, case_space_table_names=o["case_space"], indent=o["indent"],
                                                 sort_keys=o["sort"]),
     lambda f, p, o: f.json.create_pan_dat(p, **_fill(o)), opts={"case_space": [False, True], "indent": [2, None], "sort": [False, True]},
     overwrite=None, thirds=False, detects_torn=True, family="json", generic=GEN_KINDS)
_add("pcsv", True, ".d",
     lambda f, d, p, ow, o: f.csv.write_directory(d, p, case_space_table_names=o["case_space"], sep=o["sep"]),
     lambda f, p, o: f.csv.create_pan_dat(p, sep=o["sep"], **_fill(o)), opts={"case_space": [False, True], "sep": [",", ",", "\t", ";"]},
     overwrite=None, family="csv", generic=GEN_KINDS)
_add("pxlsx", True, ".xlsx",
     lambda f, d, p, ow, o: f.xls.write_file(d, p, case_space_sheet_names=o["case_space"]),
     lambda f, p, o: f.xls.create_pan_dat(p, **_fill(o)), opts={"case_space": [False, True]}, overwrite=None, all_none=False,
     detects_torn=True, family="xls", generic=GEN_KINDS)


# ---- one kind of factory reads what the other wrote ------------------------------------------------------------------
def to_pan(f, d):
    """the same data for a PanDatFactory of the same schema"""
    pf = PanDatFactory.create_from_full_schema(f.schema(include_ancillary_info=True))
    frames = f.copy_to_pandas(d, drop_pk_columns=False)
    return pf, pf.PanDat(**{t: getattr(frames, t).reset_index(drop=True) for t in f.all_tables})


def to_tic(pf, d):
    import pandas as pd
    f = TicDatFactory.create_from_full_schema(pf.schema(include_ancillary_info=True))

    def cell(v):
        if isinstance(v, pd.Timestamp):
            return v.to_pydatetime()
        return None if v is None or v != v else v
    tables = {}
    for t in pf.all_tables:
        n = len(f.primary_key_fields.get(t, ()))
        rows = [[cell(v) for v in r] for r in getattr(d, t).astype(object).itertuples(index=False)]
        tables[t] = {(r[0] if n == 1 else tuple(r[:n])): r[n:] for r in rows} if n else rows
    return f, f.TicDat(**tables)


def _cross(name, writer, reader, **kw):
    w, r = F[writer], F[reader]
    conv = to_tic if r.pan else to_pan
    wo = {k: v[0] for k, v in (w.opts or {}).items()}

    def write(f, d, p, ow, o):
        f2, d2 = conv(f, d)
        w.write(f2, d2, p, True, dict(wo, **{k: v for k, v in o.items() if k in wo}))

    def read(f, p, o):
        return r.read(f, p, dict({k: v[0] for k, v in (r.opts or {}).items()}, **o))
    args = dict(opts={k: v for k, v in (r.opts or {}).items() if k in ("freeze", "case_space", "sep")},
                overwrite=None, all_none=w.all_none and r.all_none, thirds=w.thirds and r.thirds, detects_torn=r.detects_torn,
                family=r.family, untyped=[u for u in w.untyped if u in r.untyped], kinds=[k for k in w.kinds if k in r.kinds], pk_kinds=[k for k in w.pk_kinds if k in r.pk_kinds],
                texts=[t for t in w.texts if t in r.texts])
    args.update(kw)
    f = Fmt(name, r.pan, w.suffix, write, read, **args)
    X[f.name] = f


X = {}
_cross("pjson_pd>json", "pjson_pd", "json", no_name=True, dups=F["json"].dups)
_cross("pjson>json", "pjson", "json", dups=F["json"].dups)
_cross("psqlite>sqlite", "psqlite", "sqlite", dups=F["sqlite"].dups)
_cross("pcsv>csv", "pcsv", "csv", opts={"freeze": [False, True]}, dups=lambda f, p, o: f.csv.find_duplicates(p))
_cross("pxlsx>xlsx", "pxlsx", "xlsx", dups=F["xlsx"].dups)
_cross("json>pjson", "json", "pjson")
_cross("sqlite>psqlite", "sqlite", "psqlite")
_cross("csv>pcsv", "csv", "pcsv", opts={})
_cross("xlsx>pxlsx", "xlsx", "pxlsx")
ALL = dict(F, **X)

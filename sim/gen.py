"""
Seeded generation of schemas and data, as plain JSON values (so that a case can be stored, shrunk and replayed), and
the builders that turn them into ticdat factories and objects.

Field kinds decide both the declared data type and the values:
  int, float, inf (floats incl. +-infinity), null (nullable number), text, zip (digit strings in a text-only field),
  bool, dt (datetimes), mixed (numbers or strings), ntext (nullable text)
"""
import datetime
import math

NAMES = ["cats", "foods", "nutrition_quantities", "buy_food", "Arcs", "t1", "cost_per_unit_of_x", "inflow", "Zed_Yx",
         "nodes", "a_table_with_quite_a_long_nm"]
FIELDS = ["name", "Food Name", "amount", "Max Nutrition", "cost", "qty", "from", "To", "x1", "the_value", "Order",
          "unit cost", "group", "Flag"]
TEXTS = ["a", "b", "chicken", "hot dog", "milk, 2%", "O'Neil", "'quoted'", 'say "hi"', "naïve", "東京", "semi;colon", " padded ",
         "tab\there", "back\\slash", "x" * 40, "N/A-ish", "per%cent", "[br]", "a=b", "#hash", "under_score", "Mixed CASE",
         "ünï", "line one", "{}", "p.q"]
PLAIN = ["a", "b", "c", "apple", "pear", "kiwi", "node_1", "node_2", "Boston", "New York", "x-ray", "yy", "zz top",
         "delta", "echo"]
ZIPS = ["02139", "0007", "10001", "99", "00", "123456789", "94110", "0420", "1e5", "007"]


def enc(v):
    if isinstance(v, datetime.datetime):
        return {"$dt": v.strftime("%Y-%m-%d %H:%M:%S")}
    if isinstance(v, float) and math.isinf(v):
        return {"$inf": 1 if v > 0 else -1}
    return v


def dec(v):
    if isinstance(v, dict):
        if "$dt" in v:
            return datetime.datetime.strptime(v["$dt"], "%Y-%m-%d %H:%M:%S")
        if "$inf" in v:
            return v["$inf"] * float("inf")
        raise ValueError(v)
    return v


ALL_KINDS = ("int", "float", "inf", "null", "text", "zip", "bool", "dt", "mixed", "ntext")
PK_KINDS = ("int", "text", "zip", "dt", "float")


class Profile:
    """what one storage format is used for: which kinds it is given, and whether untyped fields are"""

    def __init__(self, kinds, pk_kinds=("int", "text", "zip"), untyped=("int", "float"), untyped_pk=("text",),
                 generators=False, generic=False, params=True, flags=("N/A",), texts=TEXTS, empty_text=True,
                 max_rows=12, no_pk=True, long_names=True, bare=False):
        self.__dict__.update(locals())


def gen_schema(rng, prof, n_tables=None, fk_prob=.5, chain=False):
    n = n_tables or rng.choice([1, 1, 2, 2, 3, 4])
    names = rng.sample([x for x in NAMES], n)
    tables, types, defaults, kinds, fks = [], [], [], {}, []
    flag = rng.choice(list(prof.flags))
    generators = []
    for t in names:
        npk = rng.choice([0, 1, 1, 1, 2, 2, 3] if prof.no_pk else [1, 1, 2, 2, 3]) if not chain else 1
        ndf = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if npk == 0:
            ndf = max(ndf, 1)
        fields = rng.sample(FIELDS, npk + ndf)
        pks, dfs = fields[:npk], fields[npk:]
        # some pks are foreign keys into an earlier table with a single primary key
        targets = [x for x in tables if len(x[1]) == 1][-1 if chain else 0:]
        cand = pks + dfs
        fk_used = set()
        fk_kind = {}
        if targets and rng.random() < fk_prob:
            for _ in range(rng.choice([1, 1, 2])):
                ft = rng.choice(targets)
                nf = rng.choice(cand)
                if nf in fk_used:
                    continue
                fk_used.add(nf)
                fks.append([t, ft[0], [[nf, ft[1][0]]]])
                fk_kind[nf] = (ft[0], ft[1][0])
        targets = [x for x in tables if len(x[1]) > 1]
        if targets and rng.random() < fk_prob * .6:
            ft = rng.choice(targets)
            free = [x for x in cand if x not in fk_used]
            if len(free) >= len(ft[1]):
                nfs = rng.sample(free, len(ft[1]))
                pairs = [[a, b] for a, b in zip(nfs, ft[1])]
                if rng.random() < .5:
                    rng.shuffle(pairs)
                fks.append([t, ft[0], pairs])
                fk_used.update(nfs)
                for a, b in pairs:
                    fk_kind[a] = (ft[0], b)
        for f in fields:
            is_pk = f in pks
            if f in fk_kind:
                kinds[t + "|" + f] = "fk"
                src = kinds[fk_kind[f][0] + "|" + fk_kind[f][1]]
                typed = any(x[0] == fk_kind[f][0] and x[1] == fk_kind[f][1] for x in types)
                seen = {fk_kind[f]}
                real = src
                cur = fk_kind[f]
                while real == "fk":
                    nxt = [(x[1], b) for x in fks for a, b in x[2] if (x[0], a) == cur][0]
                    if nxt in seen:
                        break
                    seen.add(nxt)
                    cur = nxt
                    real = kinds[cur[0] + "|" + cur[1]]
                kinds[t + "|" + f] = "fk:" + (real if not real.startswith("fk:") else real[3:])
                kind = kinds[t + "|" + f][3:]
                if not typed and not is_pk:
                    typed = True
            else:
                kind = rng.choice(list(prof.pk_kinds if is_pk else prof.kinds))
                kinds[t + "|" + f] = kind
                typed = not (kind in (prof.untyped_pk if is_pk else prof.untyped) and rng.random() < .4)
            if typed:
                kw = type_kwargs(rng, kind, flag)
                if kw is not None:
                    types.append([t, f, kw])
            if not is_pk:
                dv = default_for(rng, kind, typed)
                if dv is not _NO:
                    defaults.append([t, f, dv])
        tables.append([t, pks, dfs])
        if prof.generators and not npk and rng.random() < .5:
            generators.append(t)
    params = []
    if prof.params and rng.random() < .3:
        tables.append(["parameters", ["Key"], ["Value"]])
        kinds["parameters|Key"] = "param"
        kinds["parameters|Value"] = "param"
        defaults.append(["parameters", "Value", ""])
        # string-only parameters keep number-like strings, numeric ones are read back as numbers
        params = [["Solve Time", 10, {"number_allowed": True, "strings_allowed": []}],
                  ["Mode", "fast", {"number_allowed": False, "strings_allowed": "*"}],
                  ["Zip", "00", {"number_allowed": False, "strings_allowed": "*"}],
                  ["Limit", 5, {"number_allowed": True, "max": {"$inf": 1}, "inclusive_max": True}]]
        params = rng.sample(params, rng.randrange(1, 5))
    s = {"tables": tables, "fks": fks, "types": types, "defaults": defaults, "kinds": kinds, "flag": flag,
         "generators": generators, "params": params}
    if prof.generic and rng.random() < .25:
        # a generic table: its columns are those of whatever data frame it is given
        t = rng.choice([x for x in NAMES if x not in [y[0] for y in tables]])
        cols = rng.sample([x for x in FIELDS if x != "name"], rng.choice([1, 2, 2, 3]))    # ("name" collides with pandas)
        s["generic"] = [t]
        for f in cols:
            kinds[t + "|" + f] = rng.choice(list(prof.generic))
        tables.insert(rng.randrange(len(tables) + 1), [t, [], cols])
        s["bare"] = prof.bare and rng.random() < .5     # given as a frame without columns when there are no rows
    return s


_NO = object()


def default_for(rng, kind, typed):
    if kind in ("text", "zip") and typed and rng.random() < .25:
        return _NO
    if kind in ("text", "zip", "mixed", "ntext"):
        return rng.choice(["", "dflt"]) if kind != "ntext" else None
    if kind in ("dt",):
        return None
    if kind == "null":
        return None
    if kind == "bool":
        return False
    if kind == "inf":
        return 0
    return rng.choice([_NO, _NO, 0, 1, 2.5]) if kind != "int" else rng.choice([_NO, 0, 7])


def type_kwargs(rng, kind, flag):
    if kind == "int":
        return {"number_allowed": True, "must_be_int": True, "min": -1000000, "max": 1000000, "strings_allowed": []}
    if kind == "float":
        return {"number_allowed": True, "min": -1000000, "max": 1000000, "strings_allowed": []}
    if kind == "inf":
        if flag is None:
            return {"number_allowed": True, "min": 0, "max": {"$inf": 1}, "inclusive_max": True, "strings_allowed": []}
        return {"number_allowed": True, "min": {"$inf": -1}, "max": {"$inf": 1}, "inclusive_max": True,
                "inclusive_min": True, "strings_allowed": []}
    if kind == "null":
        return {"number_allowed": True, "min": -1000000, "max": 1000000, "nullable": True, "strings_allowed": []}
    if kind in ("text", "zip"):
        return {"number_allowed": False, "strings_allowed": "*"}
    if kind == "ntext":
        return {"number_allowed": False, "strings_allowed": "*", "nullable": True}
    if kind == "mixed":
        return {"number_allowed": True, "min": -1000000, "max": 1000000, "strings_allowed": "*"}
    if kind == "dt":
        return {"datetime": True, "nullable": True}
    return None


def gen_value(rng, kind, prof, flag="N/A", typed=True):
    if kind == "int":
        return rng.choice([0, 1, 2, 3, 7, 10, 42, 100, 999, -1, -5, 123456])
    if kind == "float":
        return rng.choice([0.5, 1.5, -2.25, 3.0, 0.1, 1e-3, 123.456, 99999.5, 7, 1 / 3.])
    if kind == "inf":
        if rng.random() < .5:
            return enc(float("inf")) if flag is None or rng.random() < .6 else enc(-float("inf"))
        return rng.choice([0.5, 2, 3.25, 100])
    if kind == "null":
        return None if rng.random() < .4 else rng.choice([1, 2.5, -3, 0])
    if kind == "text":
        return rng.choice(prof.texts)
    if kind == "ntext":
        return None if rng.random() < .4 else rng.choice(PLAIN)
    if kind == "zip":
        return rng.choice(ZIPS)
    if kind == "bool":
        return rng.choice([True, False])
    if kind == "dt":
        return enc(datetime.datetime(rng.randrange(1990, 2030), rng.randrange(1, 13), rng.randrange(1, 28),
                                     rng.randrange(0, 24), rng.randrange(0, 60), rng.randrange(0, 60)))
    if kind == "mixed":
        return rng.choice([1, 2.5, "apple", "pear", -3])
    raise ValueError(kind)


def gen_data(rng, schema, prof, max_rows=None, good_fk=True, min_rows=0):
    data = {}
    maxr = max_rows if max_rows is not None else prof.max_rows
    kinds = schema["kinds"]
    typed = {(x[0], x[1]) for x in schema["types"]}
    for t, pks, dfs in schema["tables"]:
        if t == "parameters" and schema["params"]:
            rows = []
            for name, dv, kw in schema["params"]:
                if rng.random() < .7:
                    rows.append([name, {"Solve Time": rng.choice([1, 20, 3.5]), "Mode": rng.choice(PLAIN),
                                        "Zip": rng.choice(ZIPS), "Limit": rng.choice([1, 7])}[name]])
            data[t] = rows
            continue
        n = rng.choice([0, 1, 2, 3, maxr, rng.randrange(0, maxr + 1)])
        n = max(n, min_rows)
        rows, seen = [], set()
        for _ in range(n):
            row, parents = [], {}
            for f in pks + dfs:
                k = kinds[t + "|" + f]
                if k.startswith("fk"):
                    [(i, ft, ff)] = [(i, x[1], b) for i, x in enumerate(schema["fks"]) for a, b in x[2] if (x[0], a) == (t, f)]
                    pool = data.get(ft, [])
                    if pool and good_fk:
                        if i not in parents:
                            parents[i] = rng.choice(pool)
                        row.append(parents[i][[p for x, p, d in schema["tables"] if x == ft][0].index(ff)])
                        continue
                    if good_fk:
                        row = None
                        break
                    k = k[3:]
                row.append(gen_value(rng, k, prof, schema["flag"], (t, f) in typed))
            if row is None:
                break
            key = repr(row[:len(pks)])
            if pks:
                # keys are compared as Python does: 1 == 1.0 == True
                if key in seen:
                    continue
                seen.add(key)
            rows.append(row)
        data[t] = rows
    return data


def build_factory(schema, cls, io=True):
    f = cls(**{t: "*" if t in schema.get("generic", ()) else [list(p), list(d)] for t, p, d in schema["tables"]})
    apply_config(schema, f, cls)
    return f


def apply_config(schema, f, cls):
    for t, fld, kw in schema["types"]:
        f.set_data_type(t, fld, **{k: dec(v) for k, v in kw.items()})
    for t, fld, v in schema["defaults"]:
        f.set_default_value(t, fld, dec(v))
    for n, ft, m in schema["fks"]:
        f.add_foreign_key(n, ft, [tuple(x) for x in m])
    for name, dv, kw in schema["params"]:
        f.add_parameter(name, dv, **{k: dec(v) for k, v in kw.items()})
    if schema["flag"] != "N/A":
        f.set_infinity_io_flag(schema["flag"])
    if schema.get("generators") and hasattr(f, "set_generator_tables"):
        f.set_generator_tables(schema["generators"])


def stamp(v):
    """datetimes as pandas hands them out"""
    v = dec(v)
    if isinstance(v, datetime.datetime):
        import pandas as pd
        return pd.Timestamp(v)
    return v


def build_dat(tdf, schema, data, gens=None):
    kw = {}
    dec_ = stamp if schema.get("stamps") else dec
    for t, pks, dfs in schema["tables"]:
        rows = [[dec_(v) for v in r] for r in data.get(t, [])]
        if t in schema.get("generators", []):
            kw[t] = (gens or plain_gen)(rows)
        elif t in schema.get("generic", ()):
            import pandas as pd
            kw[t] = pd.DataFrame(rows, columns=dfs) if rows or not schema.get("bare") else pd.DataFrame()
        elif pks:
            d = {}
            for r in rows:
                k, v = r[:len(pks)], r[len(pks):]
                d[k[0] if len(k) == 1 else tuple(k)] = v
            kw[t] = d
        else:
            kw[t] = rows
    return tdf.TicDat(**kw)


def plain_gen(rows):
    def g():
        for r in rows:
            yield r
    return g


def build_pan(pdf, schema, data):
    import pandas as pd
    kw = {}
    for t, pks, dfs in schema["tables"]:
        cols = pks + dfs
        rows = [[dec(v) for v in r] for r in data.get(t, [])]
        df = pd.DataFrame(rows, columns=cols)
        for i, c in enumerate(cols):
            vals = [r[i] for r in rows]
            if any(v is None for v in vals) or len({type(v) for v in vals}) > 1:
                if not all(isinstance(v, (int, float)) and not isinstance(v, bool) or v is None for v in vals):
                    df[c] = pd.Series(vals, dtype=object)
        kw[t] = df
    return pdf.PanDat(**kw)


def canon(v):
    """values as the user compares them"""
    if v is None:
        return None
    if isinstance(v, (bool,)):
        return ("b", v)
    if type(v).__name__ == "bool_":
        return ("b", bool(v))
    if isinstance(v, datetime.datetime):
        if v != v:
            return None
        return ("d", v.strftime("%Y-%m-%d %H:%M:%S") + (".%06d" % v.microsecond if v.microsecond else ""))
    if isinstance(v, str):
        return ("s", v)
    if type(v).__name__ == "NaTType":
        return None
    try:
        f = float(v)
    except (TypeError, ValueError):
        return ("?", repr(v))
    if f != f:
        return None
    return ("n", f)


def rows_of_dat(dat, schema):
    """a TicDat as {table: sorted list of canonical rows}"""
    rtn = {}
    for t, pks, dfs in schema["tables"]:
        tbl = getattr(dat, t)
        rows = []
        if pks:
            for k, r in tbl.items():
                kk = k if len(pks) > 1 else (k,)
                rows.append(tuple(canon(x) for x in kk) + tuple(canon(r[f]) for f in dfs))
        elif t in schema.get("generic", ()):
            rows = [tuple(canon(x) for x in r) for r in zip(*[list(tbl[c]) for c in dfs])] if len(tbl) else []
        else:
            it = tbl() if callable(tbl) else tbl
            for r in it:
                rows.append(tuple(canon(r[f]) for f in dfs))
        rtn[t] = rows
    return rtn


def rows_of_pan(dat, schema):
    rtn = {}
    for t, pks, dfs in schema["tables"]:
        df = getattr(dat, t)
        rtn[t] = [tuple(canon(x) for x in r) for r in zip(*[list(df[c]) for c in pks + dfs])] \
            if len(df) else []
    return rtn


def rows_of_data(schema, data):
    return {t: [tuple(canon(dec(v)) for v in r) for r in data.get(t, [])] for t, pks, dfs in schema["tables"]}


def _key(r):
    return repr(r)


def norm(rows, schema, ordered_nopk=True):
    """what must agree: keyed tables as sets of rows, tables without primary key as sequences"""
    pk = {t: bool(p) for t, p, d in schema["tables"]}
    return {t: (sorted(r, key=_key) if pk.get(t, True) or not ordered_nopk else list(r)) for t, r in rows.items()}


def diff(a, b, limit=3):
    """human readable difference of two {table: rows}"""
    out = []
    for t in sorted(set(a) | set(b)):
        x, y = a.get(t, []), b.get(t, [])
        if x == y:
            continue
        only_x = [r for r in x if r not in y]
        only_y = [r for r in y if r not in x]
        out.append("%s: %d rows vs %d rows; missing %s; unexpected %s" %
                   (t, len(x), len(y), only_x[:limit], only_y[:limit]))
    return " | ".join(out) or "same"


def features(schema, data):
    """the coverage class of a case"""
    ks = sorted({k if not k.startswith("fk") else "fk" for k in schema["kinds"].values()})
    return (len(schema["tables"]), tuple(ks), bool(schema["fks"]), str(schema["flag"]), bool(schema["params"]), bool(schema.get("generic")),
            min(6, sum(map(len, data.values()))))

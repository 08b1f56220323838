"""
A factory is exactly the configuration it accepted: histories of accepted and refused configuration calls mixed with any use
of the factory (also uses broken off by faults) are compared, call by call, with a fresh factory given the accepted calls only.
"""
from .common import *
from . import ops as O
from .formats import F

FM = O.make_fmt(generic=("int", "text"))
LOCKED = {"set_data_type", "clear_data_type", "set_default_value", "set_default_values", "add_foreign_key", "clear_foreign_keys",
          "add_implied_foreign_keys", "add_parameter", "set_generator_tables", "add_data_row_predicate"}
READERS = {False: ["sqlite", "json", "csv", "xls", "xlsx"], True: ["psqlite", "pjson", "pcsv", "pxlsx"]}


class P14(Check):
    ID = "P14"

    def gen(self, rng, r):
        s = FM.gen_case(rng, fk_prob=.6)
        s["generators"] = []
        pan = rng.random() < .4
        if rng.random() < .5 and not any(t[0] == "parameters" for t in s["tables"]):
            s["tables"].append(["parameters", ["Key"], ["Value"]])
            s["kinds"].update({"parameters|Key": "text", "parameters|Value": "mixed"})
        data = O.clean(FM, rng, s, max_rows=5)
        hist = []
        for _ in range(rng.choice([4, 8, 12, 18])):
            x = rng.random()
            if x < .62:
                hist.append({"do": "config", "call": self.config(rng, s, pan)})
            elif x < .80:
                hist.append({"do": "unbound", "op": rng.choice(["dups", "dups", "dups", "schema", "refused", "broken read", "tamper", "clone", "clone"]),
                             "fmt": rng.choice(READERS[pan])})
                if hist[-1]["op"] == "clone":
                    hist[-1]["edit"] = self.an_edit(rng, s, hist)
            else:
                hist.append({"do": "use", "op": self.an_op(rng, pan),
                             "fault": rand_faults(rng, 1, ["eio", "eio", "full", "perm"])[0] if rng.random() < .3 else None})
        for _ in range(rng.choice([0, 1, 2, 3])):
            hist.append({"do": "unbound", "op": "clone", "fmt": READERS[pan][0], "edit": self.an_edit(rng, s, hist)})
        # most of the configuration happens before the first use
        if rng.random() < .6:
            hist.sort(key=lambda h: h["do"] == "use")
        return {"schema": s, "pan": pan, "hist": hist, "data": data, "messy": O.spoil(rng, s, data),
                "probes": [self.an_op(rng, pan) for _ in range(3)] + ["read " + rng.choice(READERS[pan])], "base": rng.random() < .5}

    def an_edit(self, rng, s, hist):
        """how the clone is to differ"""
        tabs = s["tables"]
        t, pks, dfs = rng.choice(tabs)
        f, new = rng.choice(pks + dfs), "Brand New"
        # often about a field that a foreign key mentions
        keyed = [(x, y) for h in hist if h["do"] == "config" and h["call"][0] == "add_foreign_key"
                 for m in h["call"][3] if len(m) == 2 for x, y in zip(h["call"][1:3], m)]
        keyed = [(x, pd, y) for x, y in keyed for pd in tabs if pd[0] == x and y in pd[1] + pd[2]]
        if keyed and rng.random() < .5:
            t, (_, pks, dfs), f = rng.choice(keyed)
        what = rng.choice(["none", "none", "restrict", "restrict", "kind", "kind", "schema", "json", "add table", "add column", "add column",
                           "remove column", "remove column", "rename column", "rename column"])
        if what == "restrict":
            return [what, sorted(x[0] for x in rng.sample(tabs, rng.randrange(1, len(tabs) + 1)))]
        if what == "kind":
            return [what, rng.random() < .5, sorted(x[0] for x in rng.sample(tabs, rng.randrange(1, len(tabs) + 1))) if rng.random() < .4 else None]
        if what == "add table":
            return [what, rng.choice(["brand_new", "brand_new", "brand_new", t]), rng.choice([["A"], ["A", "B"], []]), rng.choice([["C"], ["C", "D"], []])]
        if what == "add column":
            typ = rng.choice(["primary key", "data", "data"])
            n = len(pks if typ == "primary key" else dfs)
            return [what, t, rng.choice([new, new, new, new, f]), typ, rng.choice(["append", "append", rng.randrange(0, n + 1), n + 1])]
        if what == "remove column":
            return [what, t, rng.choice([f, f, f, f, f, "no such field"])]
        if what == "rename column":
            return [what, t, rng.choice([f, f, f, f, f, "no such field"]), rng.choice([new, new, new, rng.choice(pks + dfs)])]
        return [what]

    def an_op(self, rng, pan):
        cat = sorted(O.PAN if pan else O.TIC)
        op = rng.choice(cat)
        return op if rng.random() < .7 or "io" not in op else "make"

    def config(self, rng, s, pan):
        tabs = [t for t in s["tables"]]
        t, pks, dfs = rng.choice(tabs)
        f = rng.choice(pks + dfs)
        bad = rng.random() < .3
        what = rng.choice(["set_data_type"] * 5 + ["clear_data_type"] * 2 + ["set_default_value"] * 3 + ["set_default_values"] * 2 +
                          ["add_foreign_key"] * 3 + ["clear_foreign_keys", "add_implied_foreign_keys"] +
                          ["add_parameter"] * 3 + ["remove_parameter"] * 2 + ["set_generator_tables"] * 2 + ["add_data_row_predicate"] * 4 +
                          ["set_tooltip", "set_infinity_io_flag", "set_infinity_io_flag", "set_duplicates_ticdat_init",
                           "set_xlsx_trailing_empty_rows", "set_automunge_multitype_fields", "enable_foreign_key_links"])
        if pan and what in ("add_implied_foreign_keys", "set_generator_tables", "enable_foreign_key_links"):
            what = "set_data_type"
        if what == "set_data_type":
            kw = rng.choice([gen.type_kwargs(rng, k, "N/A") for k in ("int", "float", "null", "text", "mixed", "dt", "inf")])
            if bad:
                return rng.choice([[what, "no_such_table", f, kw], [what, t, "no such field", kw], [what, t, f, {"min": 5, "max": 1}],
                                   [what, t, f, {"number_allowed": True, "strings_allowed": 7}], [what, t, f, {"min": "x"}]])
            return [what, t, f, kw]
        if what == "clear_data_type":
            return [what, t, f] if not bad else [what, "no_such_table", f]
        if what == "set_default_value":
            v = rng.choice([0, 1, 2.5, "dflt", None, ""])
            return [what, t, f, v] if not bad else rng.choice([[what, t, "no such field", v], [what, "no_such", f, v], [what, t, f, [1, 2]]])
        if what == "set_default_values":
            m = {}
            for t2, p2, d2 in rng.sample(tabs, min(len(tabs), rng.choice([1, 2, 3]))):
                m[t2] = {x: rng.choice([0, 3, "dd", None]) for x in rng.sample(p2 + d2, rng.randrange(1, len(p2 + d2) + 1))}
            if bad:
                k = rng.choice([0, 1, 2])
                if k == 0:
                    m["no_such_table"] = {"x": 1}
                else:
                    last = list(m)[-1]
                    m[last] = dict(m[last], **({"no such field": 1} if k == 1 else {list(m[last])[0]: [1]}))
            return [what, m]
        if what == "add_foreign_key":
            t2, p2, d2 = rng.choice(tabs)
            if bad:
                return rng.choice([[what, t, "no_such_table", [[f, p2[0] if p2 else d2[0]]]], [what, t, t2, [[f, "no such field"]]],
                                   [what, t, t2, []], [what, t, t2, [["no such field", (p2 + d2)[0]]]], [what, t, t2, [[f]]]])
            cand = p2 or d2
            m = [[f, cand[0]]] if len(cand) == 1 or rng.random() < .25 else [[a, b] for a, b in zip(pks + dfs, cand)]
            return [what, t, t2, m]
        if what == "clear_foreign_keys":
            return [what, rng.choice([None, t])] if not bad else [what, "no_such_table"]
        if what == "add_parameter":
            name = rng.choice(["A", "B", "Solve Time"])
            if bad:
                return [what, name, "text", {"number_allowed": True, "strings_allowed": []}]
            return [what, name] + rng.choice([[5, {"number_allowed": True}], ["x", {"number_allowed": False, "strings_allowed": "*"}],
                                              [3, {"enforce_type_rules": False}]])
        if what == "remove_parameter":
            return [what, rng.choice(["A", "B", "Solve Time", "nope"])]
        if what == "set_generator_tables":
            nopk = [x[0] for x in tabs if not x[1]]
            return [what, rng.sample(nopk, rng.randrange(0, len(nopk) + 1)) if not bad else rng.choice([[t, "no_such"], [t], 7])]
        if what == "add_data_row_predicate":
            if bad:
                return rng.choice([[what, "no_such_table", f, "nonneg", "pp"], [what, t, f, "not callable", "pp"],
                                   [what, t, f, "bad response", "pp"], [what, t, f, "bad maker", "pp"]])
            return [what, t, f, rng.choice(["nonneg", "short", "msg", "boom", "kw", "none"]), rng.choice(["pp", "qq", None])]
        if what == "set_tooltip":
            return [what, t, f, rng.choice(["a tip", "another", ""])] if not bad else [what, t, "no such field", "tip"]
        if what == "set_infinity_io_flag":
            return [what, rng.choice([None, "N/A", 999999, 1e6])] if not bad else [what, rng.choice(["x", -5, 0])]
        if what == "set_duplicates_ticdat_init":
            return [what, rng.choice(["assert", "warn", "ignore"])] if not bad else [what, "maybe"]
        if what == "set_xlsx_trailing_empty_rows":
            return [what, rng.choice(["prune", "ignore"])] if not bad else [what, "maybe"]
        if what == "set_automunge_multitype_fields":
            return [what, rng.choice([True, False])] if not bad else [what, "maybe"]
        return [what]

    def apply(self, fac, call):
        """'accepted' or the refusal"""
        what, a = call[0], call[1:]
        try:
            if what in ("set_data_type",):
                fac.set_data_type(a[0], a[1], **{k: gen.dec(v) for k, v in a[2].items()})
            elif what == "set_default_values":
                fac.set_default_values(**{t: dict(v) for t, v in a[0].items()})
            elif what == "add_foreign_key":
                fac.add_foreign_key(a[0], a[1], [tuple(x) for x in a[2]])
            elif what == "add_parameter":
                fac.add_parameter(a[0], a[1], **a[2])
            elif what == "add_data_row_predicate":
                t, f, how, name = a
                kw = {}
                pred = None if how == "none" else 17 if how == "not callable" else O.make_predicate(f, how if how[:3] != "bad" else "short")
                if how == "msg":
                    kw["predicate_failure_response"] = "Error Message"
                if how == "bad response":
                    kw["predicate_failure_response"] = "Loud"
                if how == "bad maker":
                    kw["predicate_kwargs_maker"] = 17
                if how == "kw":
                    kw["predicate_kwargs_maker"] = lambda dat: {"limit": 50}
                fac.add_data_row_predicate(t, pred, name, **kw)
            else:
                getattr(fac, what)(*a)
        except Exception as e:
            return type(e).__name__
        return "accepted"

    def fresh(self, case, accepted):
        import ticdat
        s = case["schema"]
        cls = ticdat.PanDatFactory if case["pan"] else ticdat.TicDatFactory
        f = cls(**{t: "*" if t in s.get("generic", ()) else [list(p), list(d)] for t, p, d in s["tables"]})
        if case["base"]:
            gen.apply_config(s, f, cls)
        for c in accepted:
            if self.apply(f, c) != "accepted":
                raise Violation("order-dependence", "%s is refused by a fresh factory that accepted %s" % (c, accepted[:accepted.index(c)]))
        return f

    def describe(self, f):
        d = {"schema": f.schema(include_ancillary_info=True), "types": f.data_types, "defaults": f.default_values,
             "fks": frozenset(f.foreign_keys), "params": f.parameters, "flag": f.infinity_io_flag, "dups": f.duplicates_ticdat_init,
             "trail": f.xlsx_trailing_empty_rows, "munge": f.automunge_multitype_fields,
             "preds": {t: sorted(map(str, f.get_row_predicates(t))) for t in f.all_tables}}
        if hasattr(f, "generator_tables"):
            d["gens"] = list(f.generator_tables)
        return O.plain(d)

    def run(self, case):
        s, pan = case["schema"], case["pan"]
        # files that exist beforehand
        plain_s = dict(s, types=[], defaults=[], fks=[], params=[], flag="N/A", generators=[])
        w = pdf_of(plain_s) if pan else tdf_of(plain_s)
        d = gen.build_pan(w, s, case["data"]) if pan else gen.build_dat(w, s, case["data"], [])
        for fmt in READERS[pan]:
            if fmt in ("pjson", "json") and s.get("generic"):      # (not supported)
                with open(W.path("src" + F[fmt].suffix), "w") as fp:
                    fp.write("{}")
                continue
            F[fmt].write(w, d, W.path("src" + F[fmt].suffix if not F[fmt].suffix == ".db" else "src.db"), False, O.OPTS[fmt])
        f = self.fresh(case, [])
        accepted, used, unsure, refused_n, faults_n, kinds = [], False, False, 0, 0, []
        step = [0]

        def ctx(fac, stem):
            root = W.path("%s%d" % (stem, step[0]))
            os.mkdir(root)
            return O.Ctx(fac, s, None, case["data"], case["messy"], root, pan)

        def perform(fac, op, stem):
            if op.startswith("read "):
                fm = F[op[5:]]
                try:
                    dat = fm.read(fac, W.path("src" + fm.suffix), O.OPTS[fm.name])
                    return ("ok", O.plain((pan_rows if pan else tic_rows)(dat, s)))
                except Exception as e:
                    return ("error", type(e).__name__)
            return O.perform(ctx(fac, stem), op, 0)[:2]

        def compare(op, when):
            step[0] += 1
            g = self.fresh(case, accepted)
            a = perform(f, op, "hist")
            b = perform(g, op, "fresh")
            W.record("use", op, a[0])
            if a != b:
                raise Violation("history-dependent", "%s: %s gives %s, while a fresh factory that accepted the same configuration gives %s" % (
                    when, op, cut(a), cut(b)))
            return a
        for i, h in enumerate(case["hist"]):
            when = "after %s" % [x.get("call") or [x.get("op"), x.get("fmt") or x.get("fault")] for x in case["hist"][:i + 1]]
            if h["do"] == "config":
                call = h["call"]
                exp = self.apply(self.fresh(case, accepted), call)
                no_type = call[0] == "clear_data_type" and call[2] not in f.data_types.get(call[1], {})
                before = self.describe(f)
                got = self.apply(f, call)
                if used and call[0] in LOCKED and not no_type:
                    if got == "accepted":
                        raise Violation("not-locked", "%s: %s was accepted although the factory has been used" % (when, call))
                elif (got == "accepted") != (exp == "accepted") and not (unsure and call[0] in LOCKED and got != "accepted"):
                    raise Violation("history-dependent", "%s: %s is %s, by a fresh factory that accepted the same configuration %s" % (
                        when, call, got, exp))
                W.record("config", call[0], str(call[1:])[:60], got == "accepted", used)
                if got == "accepted":
                    accepted.append(call)
                else:
                    refused_n += 1
                    if self.describe(f) != before:
                        raise Violation("changed-by-refusal", "%s: the refused call %s changed the factory: %s" % (
                            when, call, [(a, b) for a, b in zip(before, self.describe(f)) if a != b]))
                kinds.append((call[0], got == "accepted", used))
            elif h["do"] == "unbound":
                self.unbound(f, h, case, s, w, d, when, accepted)
                kinds.append((h["op"],))
                if h["op"] == "broken read":
                    faults_n += 1
            elif h["fault"]:
                step[0] += 1
                c = ctx(f, "flt")
                o = call_faulted(lambda: O.perform(c, h["op"], 0), h["fault"])
                faults_n += bool(W.fired)
                kinds.append((h["op"], "faulted"))
                # (whether it got as far as using the factory is for the next use to settle)
                unsure = True
            else:
                a = compare(h["op"], when)
                used = used or a[0] == "ok" and h["op"] in MAKES
                unsure = True
                kinds.append((h["op"], a[0]))
        if self.describe(f) != self.describe(self.fresh(case, accepted)):
            raise Violation("history-dependent", "the factory describes itself differently from a fresh one: %s" % [
                (a, b) for a, b in zip(self.describe(f), self.describe(self.fresh(case, accepted))) if a != b][:2])
        for p in case["probes"]:
            compare(p, "at the end of %s" % [x.get("call") or [x.get("op"), x.get("fmt") or x.get("fault")] for x in case["hist"]])
        W.count("refusals", refused_n)
        if not kinds:
            return None
        return (pan, tuple(kinds))

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        for key in ("hist", "probes"):
            for cand in shrink_list(case[key]):
                c = copy.deepcopy(case)
                c[key] = cand
                yield c
        if case["base"]:
            c = copy.deepcopy(case)
            c["base"] = False
            yield c
        for key in ("data", "messy"):
            for t in case[key]:
                for cand in shrink_list(case[key][t]):
                    c = copy.deepcopy(case)
                    c[key][t] = cand
                    yield c

    def config_of(self, f):
        """everything a factory was told, in a form that can be edited"""
        pairs = lambda m: frozenset((x.native_field, x.foreign_field) for x in ([m] if hasattr(m, "native_field") else m))
        for k in f.foreign_keys:
            if not hasattr(k.mapping, "native_field") and len(k.mapping) < 2:
                raise Violation("odd-description", "a foreign key of one field is described as one of several: %s" % (k,))
        full = f.schema(include_ancillary_info=True)
        return {"tables": {t: "*" if v == "*" else [list(v[0]), list(v[1])] for t, v in full["tables_fields"].items()},
                "types": {(t, x): tuple(v) for t, d in f.data_types.items() for x, v in d.items()},
                "defaults": {(t, x): v for t, d in f.default_values.items() for x, v in d.items()},
                "tips": {(k, "") if isinstance(k, str) else tuple(k): v for k, v in f.tooltips.items()},
                "fks": {(k.native_table, k.foreign_table, pairs(k.mapping)) for k in f.foreign_keys},
                "params": {k: tuple(v) for k, v in f.parameters.items()},
                "flag": f.infinity_io_flag, "dups": f.duplicates_ticdat_init, "trail": f.xlsx_trailing_empty_rows,
                "munge": f.automunge_multitype_fields,
                "preds": {(t, str(n)): (str(p.predicate_failure_response), bool(p.predicate_kwargs_maker))
                          for t in f.all_tables for n, p in f.get_row_predicates(t).items()},
                "gens": sorted(getattr(f, "generator_tables", ()))}

    def clone(self, f, edit, case, s, when, accepted):
        import json
        import ticdat
        cls = type(f)
        other = ticdat.TicDatFactory if case["pan"] else ticdat.PanDatFactory
        what, a = edit[0], edit[1:]
        before = self.config_of(f)
        if what == "none":
            o = call(lambda: f.clone())
        elif what == "restrict":
            o = call(lambda: f.clone(table_restrictions=a[0]))
        elif what == "kind":
            kw = {"convert_dat": lambda dat: dat} if a[0] else {}
            if a[1]:
                kw["table_restrictions"] = a[1]
            o = call(lambda: f.clone(clone_factory=other, **kw))
        elif what == "schema":
            o = call(lambda: cls.create_from_full_schema(f.schema(include_ancillary_info=True)))
        elif what == "json":
            o = call(lambda: cls.create_from_full_schema(json.loads(json.dumps(f.schema(include_ancillary_info=True)))))
        else:
            o = call(lambda: getattr(f, "clone_%s_a_%s" % tuple(what.split()))(*a))
        if self.config_of(f) != before:
            raise Violation("changed-by-clone", "%s: making a clone %s changed the factory" % (when, edit))
        exp = self.edited(before, edit, case["pan"])
        if exp is None:
            if o.ok:
                raise Violation("accepted-nonsense", "%s: a clone %s of %s was made" % (when, edit, before["tables"]))
            return None
        if not o.ok:
            if exp == "maybe":
                return None
            raise Violation("not-cloned", "%s: a clone %s of %s cannot be made: %s" % (when, edit, before, o))
        got = self.config_of(o.value)
        if exp != "maybe":
            for k in exp:
                if got[k] != exp[k]:
                    raise Violation("wrong-clone", "%s: the %s of a clone %s are %s, expected %s" % (when, k, edit, got[k], exp[k]))
        W.count("clones: " + what)
        if what == "none":
            # it also behaves like the original
            root = W.path("clone%d" % len(os.listdir(W.path(""))))
            os.mkdir(root)
            os.mkdir(root + "/a"), os.mkdir(root + "/b")
            for op in case["probes"][:1]:
                if not op.startswith("read ") and op not in ("types", "schema"):      # (empty entries do not matter)
                    x = O.perform(O.Ctx(o.value.clone(), s, None, case["data"], case["messy"], root + "/a", case["pan"]), op, 0)[:2]
                    y = O.perform(O.Ctx(self.fresh(case, accepted), s, None, case["data"], case["messy"], root + "/b", case["pan"]), op, 0)[:2]
                    if x != y:
                        raise Violation("wrong-clone", "%s: %s with a clone gives %s, with the factory itself %s" % (when, op, cut(x), cut(y)))
        return o.value

    def edited(self, c, edit, pan):
        """the configuration a clone has to have; None: the edit makes no sense; "maybe": it may be refused"""
        import copy
        c = copy.deepcopy(c)
        what, a = edit[0], edit[1:]
        keep = None
        if what == "restrict":
            keep = set(a[0])
        if what == "kind":
            keep = a[1] and set(a[1])
            c["gens"] = []
            if not a[0]:
                c["preds"] = {k: v for k, v in c["preds"].items() if not v[1]}
            if pan and any(c["tables"][k[0]] == "*" for k in c["preds"]):
                return "maybe"        # (a TicDatFactory has none for generic tables)
        if what in ("schema", "json"):
            c["preds"], c["gens"] = {}, []
        if keep:
            for k in ("types", "defaults", "tips", "preds"):
                c[k] = {x: v for x, v in c[k].items() if x[0] in keep}
            c["tables"] = {t: v for t, v in c["tables"].items() if t in keep}
            c["gens"] = [t for t in c["gens"] if t in keep]
            c["fks"] = {x for x in c["fks"] if x[0] in keep and x[1] in keep}
            if "parameters" not in keep:
                c["params"] = {}
        if what == "add table":
            if a[0] in c["tables"] or not a[1] + a[2]:
                return None
            c["tables"][a[0]] = [a[1], a[2]]
            c["defaults"].update({(a[0], x): 0 for x in a[2]})
        if what[-6:] == "column":
            t, x = a[:2]
            if c["tables"][t] == "*":
                return None
            pks, dfs = c["tables"][t]
        if what == "add column":
            fields = pks if a[2] == "primary key" else dfs
            i = len(fields) if a[3] == "append" else a[3]
            if x in pks + dfs or i > len(fields):
                return None
            fields.insert(i, x)
            if a[2] == "data":
                c["defaults"][t, x] = 0
            if t in c["gens"] and pks or t == "parameters" and c["params"]:
                return "maybe"
        if what == "remove column":
            if x not in pks + dfs:
                return None
            (pks if x in pks else dfs).remove(x)
            for k in ("types", "defaults", "tips"):
                c[k].pop((t, x), None)
            c["fks"] = {(n, ft, m) for n, ft, m in c["fks"] if not any((n, p) == (t, x) or (ft, q) == (t, x) for p, q in m)}
            if not pks + dfs or t == "parameters" and c["params"]:
                return "maybe"
        if what == "rename column":
            y = a[2]
            if x not in pks + dfs or y in pks + dfs:
                return None
            for fields in (pks, dfs):
                if x in fields:
                    fields[fields.index(x)] = y
            for k in ("types", "defaults", "tips"):
                if (t, x) in c[k]:
                    c[k][t, y] = c[k].pop((t, x))
            r = lambda tt, ff: y if (tt, ff) == (t, x) else ff
            c["fks"] = {(n, ft, frozenset((r(n, p), r(ft, q)) for p, q in m)) for n, ft, m in c["fks"]}
            if t == "parameters" and c["params"]:
                return "maybe"
        return c

    def unbound(self, f, h, case, s, w, d, when, accepted):
        pan, fm = case["pan"], F[h["fmt"]]
        p = W.path("src" + fm.suffix)
        if h["op"] == "dups" and fm.dups:
            a = call(lambda: fm.dups(f, p, O.OPTS[fm.name]))
            b = call(lambda: fm.dups(self.fresh(case, accepted), p, O.OPTS[fm.name]))
            if a.status != b.status or a.ok and O.plain(a.value) != O.plain(b.value):
                raise Violation("history-dependent", "%s: a duplicate scan of %s gives %s, for a fresh factory %s" % (when, fm.name, a, b))
        elif h["op"] == "refused":
            o = call(lambda: fm.write(f, object(), W.path("never" + fm.suffix), False, O.OPTS[fm.name]))
            if o.ok:
                raise Violation("accepted-nonsense", "%s: writing an arbitrary object as %s succeeded" % (when, fm.name))
        elif h["op"] == "broken read":
            call_faulted(lambda: fm.read(f, p, O.OPTS[fm.name]), {"frac": 0, "kind": "eio", "cls": "any", "sticky": 50})
        elif h["op"] == "schema":
            f.schema(include_ancillary_info=True)
        elif h["op"] == "clone":
            g = self.clone(f, h["edit"], case, s, when, accepted)
            if g is None:
                return
            t0 = sorted(g.all_tables)[0]
            for c in (["set_data_type", s["tables"][0][0], (s["tables"][0][1] + s["tables"][0][2])[0], {"number_allowed": True}],
                      ["set_infinity_io_flag", 12345], ["add_parameter", "Zzz", 1, {}], ["set_tooltip", t0, "", "of the clone"],
                      ["clear_foreign_keys", None], ["remove_parameter", "A"], ["set_duplicates_ticdat_init", "ignore"],
                      ["set_default_value", s["tables"][0][0], (s["tables"][0][1] + s["tables"][0][2])[0], 77]):
                self.apply(g, c)     # what is done to a clone is none of the original's business
        elif h["op"] == "tamper":
            x = f.schema(include_ancillary_info=True)
            scramble(x)
            for t in f.all_tables:
                f.get_row_predicates(t).clear()
            for y in (f.data_types, f.default_values, f.parameters, f.tooltips, f.foreign_keys):
                scramble(y)


MAKES = {"make", "make messy", "copy", "freeze", "fk", "dt"}


def scramble(x, depth=0):
    """a caller modifying what it was handed"""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth + 1)
        try:
            for k in list(x):
                del x[k]
        except Exception:
            pass
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1)


def call_faulted(fn, f):
    o = call(fn, [Fault(int(f["frac"] * 40), f["kind"], f.get("cls", "any"), f.get("sticky", 1))])
    o.error = None
    W.restart()
    return o


def cut(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


CHECK = P14()

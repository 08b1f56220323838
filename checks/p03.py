"""An acknowledged file write (JSON, CSV, Excel, SQL text) can be read back whole; a failed one is never taken for data."""
from .formats import *

NAMES = ["json", "json", "json_pd", "csv", "csv", "xls", "xlsx", "xlsx", "sqltxt", "pjson", "pjson", "pjson_pd", "pcsv", "pcsv",
         "pxlsx"] + sorted(X)


class P03(Check):
    ID = "P03"

    def gen(self, rng, r):
        name = NAMES[r % len(NAMES)]
        fm = ALL[name]
        s = fm.gen_case(rng)
        big = rng.random() < .25
        case = {"fmt": name, "schema": s, "opts": fm.gen_opts(rng, s), "dataA": fm.gen_data(rng, s),
                "dataB": fm.gen_data(rng, s, max_rows=60 if big else None, min_rows=10 if big else 0),
                "initial": rng.choice(["absent", "A", "A"]),
                "bufsize": rng.choice([16, 64, 300, 1024]),
                "faults": rand_faults(rng, 6, ["eio", "eio", "full", "full", "torn", "short", "short", "perm", "nofile", "crash",
                                               "crash"], cls=("w", "w", "w", "any"), sticky=(1, 1, 2, 500))}
        # (some of what is written was itself read from a file of another kind)
        via = rng.choice((["pxlsx", "psqlite", "pjson", "pcsv"] if fm.pan else ["xls", "xlsx", "sqlite", "json", "csv"]) if not s.get("generic")
                         else ["pxlsx", "psqlite", "pcsv"] if fm.pan else ["xls", "xlsx", "sqlite", "csv"])
        case["via"] = via if rng.random() < .35 and not s["generators"] and (fm.pan or "bool" not in [k.split(":")[-1] for k in s["kinds"].values()]) else None
        if case["via"] and not F[via].carries(s):
            case["via"] = None
        if case["via"] and "xls" in via:
            for k in ("dataA", "dataB"):
                for t, pks, dfs in s["tables"]:
                    if not pks:
                        case[k][t] = [x for x in case[k][t] if not all(v is None or isinstance(v, dict) and "$inf" in v for v in x)]
        if fm.empty and (not case["via"] or F[case["via"]].empty) and not s.get("generic") and rng.random() < .5:
            for k in ("dataA", "dataB"):
                fm.some_empty(rng, s, case[k])
        for f in case["faults"]:
            if f["kind"] == "crash":
                f["sticky"] = 1
            if f["kind"] in ("perm", "nofile"):
                f["only"] = ["file.openw"]
                f["frac"] = round(f["frac"] / 4, 4)
            if rng.random() < .3:     # the end of the operation: the last write, the close
                f["frac"] = round(1 - rng.random() ** 2 * .2, 4)
        return case

    def run(self, case):
        fm, s, o = ALL[case["fmt"]], case["schema"], case["opts"]
        f = fm.factory(s)
        datA, datB = fm.build(f, s, case["dataA"]), fm.build(f, s, case["dataB"])
        wantA, wantB = want_rows(s, case["dataA"]), want_rows(s, case["dataB"])
        if case.get("via"):
            via = F[case["via"]]
            vo = via.gen_opts(random.Random(repr(case["opts"])), s)
            must("writing the source in another format", lambda: via.write(f, datB, via.path("via"), True, vo))
            datB = must("reading the source in another format", lambda: via.read(f, via.path("via"), vo))
            if fm.rows(datB, s) != wantB:
                raise Violation("lost-data", "[%s] written and read: %s" % (via.name, gen.diff(wantB, fm.rows(datB, s))))
            W.restart()
        src = fm.path("src")
        if case["initial"] == "A":
            must("the first write", lambda: fm.write(f, datA, src, False, o))
            self.whole("after the first write", fm, f, s, src, o, wantA)

        def go(p):
            return lambda: fm.write(f, datB, p, True, o)
        p = fm.path("ok")
        copy_any(src, p)
        n0 = len(W.events)
        _, n = count_steps(go(p), "the write")
        kinds = steps_since(n0)
        W.restart()
        self.whole("after a fault-free write", fm, f, s, p, o, wantB)
        if fm.family == "json":     # (files and strings are interchangeable)
            for what, text in (("the text of the file", lambda: file_text(p)), ("the text written in place of a file", lambda: fm.write(
                    f, datB, "", False, o))):
                text = must("having " + what, text)
                if not isinstance(text, str):
                    if ">" in fm.name:
                        continue
                    raise Violation("lost-data", "[%s] without a file name, writing returned %r" % (fm.name, text))
                self.whole("from " + what, fm, f, s, text, o, wantB)
        if fm.dups:
            d = must("find_duplicates on a file written from a data set", lambda: fm.dups(f, p, o))
            if d:
                raise Violation("phantom-duplicates", "find_duplicates reports %s in a file written from a data set" % (d,))
        if fm.rows(datB, s) != wantB:
            raise Violation("argument-changed", "writing changed the data object: %s" % gen.diff(wantB, fm.rows(datB, s)))
        reached = []
        for i, flt in enumerate(case["faults"]):
            # a fault is placed among the steps it can hit
            probe = world.Fault(0, flt["kind"], flt.get("cls", "any"), 1, flt.get("only"))
            m = sum(1 for k in kinds if probe.match(k))
            if not m:
                continue
            fl = faults_of({"faults": [flt]}, m)[0]
            p = fm.path("f%d" % i)
            copy_any(src, p)
            out = call(go(p), [fl])
            step = W.fired[-1][1] if fl.fired else None
            W.restart()
            when = "after %s at step %d of %d (%s), the call ended %s" % (fl.kind, fl.at, m, step, out)
            if out.ok:
                self.whole(when, fm, f, s, p, o, wantB)
            elif fm.detects_torn and os.path.exists(p) and (fm.family == "json" or out.status == "crashed"):
                # (after an error the zip library may itself still complete an .xlsx archive; after a crash it cannot)
                back = call(lambda: fm.read(f, p, o))
                if back.ok:
                    got = fm.rows(back.value, s)
                    if got != wantB and not (case["initial"] == "A" and got == wantA):
                        raise Violation("torn-accepted", "%s: the file reads as a data set that is neither the old nor the new one: "
                                        "%s" % (when, gen.diff(wantB, got)))
                    W.count("torn:readable")
                else:
                    W.count("torn:refused")
            if not out.ok:
                must("writing again once the faults are gone", go(p))
                self.whole("after writing again (%s)" % when, fm, f, s, p, o, wantB)
            W.count("after:" + out.status)
            if fl.fired:
                reached.append((fl.kind, step, out.status))
        if not reached:
            return None
        return (case["fmt"], case.get("via"), case["initial"], tuple(sorted(o.items(), key=str)), tuple(sorted(map(repr, reached))))

    def whole(self, when, fm, f, s, p, o, want):
        got = fm.rows(must("reading %s" % when, lambda: fm.read(f, p, o)), s)
        if got != want:
            raise Violation("lost-data", "%s %s: %s" % (case_name(fm), when, gen.diff(want, got)))


def file_text(p):
    with world.real_open(p) as f:
        return f.read()


def case_name(fm):
    return "[%s]" % fm.name


CHECK = P03()

"""
Generator tables: every iteration yields all rows of the source or raises, however iterations are interleaved, abandoned, spread
over threads or hit by faults; and writing such an object (also over its own source) writes every row or raises.
"""
from .common import *
from .formats import F
from sim import base as _base
from sim.sched import Sched

FMTS = ["csv", "csv", "sqlite", "sqlite", "xls", "xlsx"]


class Boom(Exception):
    pass


class P08(Check):
    ID = "P08"

    def gen(self, rng, r):
        fm = F[rng.choice(FMTS)]
        s = fm.gen_case(rng)
        if s.get("generic") and (fm.family == "xls" or rng.random() < .5):      # (Excel has no room for both generators and generic tables)
            s["tables"] = [x for x in s["tables"] if x[0] not in s["generic"]]
            s["generic"] = []
        for t, pks, dfs in s["tables"]:      # make sure there is one
            if t != "parameters" and not s["fks"] and pks and rng.random() < .5:
                s["defaults"] += [[t, x, ""] for x in pks if s["kinds"][t + "|" + x] not in ("int", "float")]
                dfs[:0] = pks
                del pks[:]
        nopk = [t for t, p, d in s["tables"] if not p and t not in s.get("generic", ())]
        if not nopk:
            s["tables"].append(["big_one", [], ["qty", "name"]])
            s["kinds"].update({"big_one|qty": "int", "big_one|name": "text"})
            s["types"].append(["big_one", "qty", gen.type_kwargs(None, "int", None)])
            s["types"].append(["big_one", "name", gen.type_kwargs(None, "text", None)])
            nopk = ["big_one"]
        s["generators"] = [t for t in nopk if rng.random() < .8] or [rng.choice(nopk)]
        big = rng.random() < .4
        data = fm.gen_data(rng, s, max_rows=8, min_rows=rng.choice([0, 1, 3]))
        for t in s["generators"]:
            if big and data[t]:
                data[t] = [list(rng.choice(data[t])) for _ in range(rng.choice([30, 120, 400]))]
        opts = fm.gen_opts(rng, s)
        acts = []
        for _ in range(rng.choice([3, 6, 10])):
            t = rng.choice(s["generators"])
            k = rng.choice(["all", "all", "start", "start", "go on", "go on", "finish", "abandon", "faulted", "faulted", "faulted", "write", "write",
                            "write faulted", "write over", "reread", "copy", "threads", "broken generator", "gone", "restart"])
            a = {"do": k, "t": t, "n": rng.randrange(0, 12), "it": rng.randrange(4)}
            if "faulted" in k:
                a["fault"] = rand_faults(rng, 1, ["eio", "eio", "perm", "busy", "full"] if k == "write faulted" else ["eio", "eio", "perm", "busy"],
                                         sticky=(1, 1, 3, 50))[0]
            if k.startswith("write") or k == "broken generator":
                a["to"] = rng.choice(["csv", "sqlite", "xls", "xlsx", "sqltxt"] if not s.get("generic") else ["csv", "sqlite", "sqltxt"])
                a["over"] = rng.random() < .5
            if k == "threads":
                a["k"] = rng.choice([2, 3])
                a["p_line"] = rng.choice([0, .05, .3])
            acts.append(a)
        return {"schema": s, "data": data, "fmt": fm.name, "opts": opts, "acts": acts, "user": rng.random() < .15,
                "bufsize": rng.choice([16, 64, 300, 1024, 8192])}

    def read(self, fm, f, p, o):
        if fm.family == "xls":
            return f.xls.create_tic_dat(p, treat_inf_as_infinity=False, freeze_it=o.get("freeze", False))
        return fm.read(f, p, o)

    def run(self, case):
        s, fm, o = case["schema"], F[case["fmt"]], case["opts"]
        if fm.family == "xls":     # (infinities only travel flagged when there are generators)
            for t in case["data"]:
                for r in case["data"][t]:
                    for i, v in enumerate(r):
                        if isinstance(v, dict) and "$inf" in v and s["flag"] == "N/A":
                            r[i] = 5
        f = tdf_of(s)
        plain_f = tdf_of(dict(s, generators=[]))
        p = fm.path("src")
        want = want_rows(s, case["data"])
        # (a generator table holds its rows in order)
        src = gen.build_dat(plain_f, dict(s, generators=[]), case["data"])
        fm.write(plain_f, src, p, False, o)
        if case["user"]:
            dat = gen.build_dat(f, s, case["data"])
        else:
            dat = self.read(fm, f, p, o)
        expect = {t: [list(r) for r in want[t]] for t in s["generators"]}
        opens = []                # iterations under way: [table, iterator, rows so far]
        kinds = []
        fired = 0

        def rows(t, it, n=None):
            dfs = [x[2] for x in s["tables"] if x[0] == t][0]
            rtn = []
            for r in it:
                rtn.append([gen.canon(r[x]) for x in dfs])
                if n is not None and len(rtn) >= n:
                    break
            return rtn

        def check(t, got, what):
            if got != expect[t]:
                raise Violation("wrong-rows", "%s of %s (%s): %d rows instead of %d: %s ... instead of %s ..." % (
                    what, t, fm.name, len(got), len(expect[t]), cut([x for x in got if x not in expect[t]] or got),
                    cut([x for x in expect[t] if x not in got] or expect[t])))
        for n, a in enumerate(case["acts"]):
            do, t, x, c = a["do"], a["t"], None, None
            res = "ok"
            if do == "all":
                check(t, must("iterating", lambda: rows(t, getattr(dat, t)())), "a full iteration")
            elif do == "start":
                opens.append([t, iter(getattr(dat, t)()), []])
            elif do in ("go on", "finish", "abandon"):
                if not opens:
                    continue
                x = opens[a["it"] % len(opens)]
                if do == "abandon":
                    opens.remove(x)
                    if a["n"] % 2:
                        x[1].close()
                    x = None
                    continue
                left = must("going on", lambda: rows(x[0], x[1], a["n"] if do == "go on" else None)) if do == "finish" or a["n"] else []
                x[2] += left
                if do == "finish" or len(left) < a["n"]:
                    check(x[0], x[2], "an iteration interleaved with others")
                    opens.remove(x)
                elif x[2] != expect[x[0]][:len(x[2])]:
                    raise Violation("wrong-rows", "an iteration of %s (%s) under way has yielded %s instead of %s" % (
                        x[0], fm.name, cut(x[2]), cut(expect[x[0]][:len(x[2])])))
            elif do == "faulted":
                with W.sim():
                    _, steps = count_steps(lambda: rows(t, getattr(dat, t)()), "iterating")
                c = call(lambda: rows(t, getattr(dat, t)()), faults_of({"faults": [a["fault"]]}, steps))
                fired += bool(W.fired)
                res = (c.status, a["fault"]["kind"], bool(W.fired))
                if c.ok:
                    check(t, c.value, "an iteration that an I/O fault hit (and that ended normally)")
                c.error = None
                W.plan = []
                check(t, must("iterating once the fault is gone", lambda: rows(t, getattr(dat, t)())), "an iteration once the fault is gone")
            elif do == "threads":
                sched = Sched("%s:%s" % (W.seed, n), p_io=.3, p_line=a["p_line"], is_repo_file=_base.is_repo_file)
                with W.sim():
                    tasks = sched.run({"t%d" % i: (lambda: [rows(t, getattr(dat, t)()) for _ in range(2)]) for i in range(a["k"])})
                for name, x in sorted(tasks.items()):
                    if x.status != "ok":
                        raise Violation("thread-failed", "iterating %s in %s: %s %s" % (t, name, x.status, x.error))
                    for got in x.value:
                        check(t, got, "an iteration in one of several threads")
            elif do == "copy":
                d2 = must("copying", lambda: f.copy_tic_dat(dat))
                got = {x: rows(x, getattr(d2, x)()) for x in s["generators"]}
                for x in got:
                    check(x, got[x], "the copy")
            elif do == "reread":
                dat = must("reading", lambda: self.read(fm, f, p, o)) if not case["user"] else dat
            elif do in ("write", "write faulted", "write over"):
                if do == "write over":
                    to, q, oo, ow = fm, p, o, True
                    if opens:
                        del opens[:]
                    if fm.family == "sql" and any(k.endswith("dt") for k in s["kinds"].values()):
                        continue
                else:
                    to = F[a["to"]]
                    oo = {k: v[0] for k, v in (to.opts or {}).items()}
                    q, ow = to.path("out%d" % (n % 3)), True
                    if not compatible(to, s, case["data"]):
                        continue
                    if not case["user"] and to.family == "sql" and any(k.endswith("dt") for k in s["kinds"].values()):
                        continue       # (dates come back as pandas timestamps, which SQLite does not take)
                if do == "write faulted":
                    q2 = to.path("dry%d" % n)
                    with W.sim():
                        _, steps = count_steps(lambda: to.write(f, dat, q2, ow, oo), "writing")
                    c = call(lambda: to.write(f, dat, q, ow, oo), faults_of({"faults": [a["fault"]]}, steps))
                    c.error = None
                    fired += bool(W.fired)
                    W.plan = []
                else:
                    c = call(lambda: to.write(f, dat, q, ow, oo))
                    if not c.ok:
                        raise Violation("unexpected-failure", "writing the object as %s%s failed: %s" % (
                            to.name, " over its source" if do == "write over" else "", c))
                res = (to.name, c.status)
                if c.ok:
                    g = must("reading back", lambda: self.back(to, plain_f, q, oo))
                    got = gen.norm(gen.rows_of_dat(g, dict(s, generators=[])), s)
                    if got != want:
                        raise Violation("rows-lost", "writing the object as %s%s reported success, but reads back differently: %s" % (
                            to.name, " over its source" if do == "write over" else "", gen.diff(want, got)))
                for x in s["generators"]:
                    check(x, must("iterating after a write", lambda: rows(x, getattr(dat, x)())), "an iteration after writing")
            elif do == "broken generator":
                to = F[a["to"]]
                if not compatible(to, s, case["data"]):
                    continue
                oo = {k: v[0] for k, v in (to.opts or {}).items()}
                q = to.path("brk%d" % n)
                if a["over"]:
                    must("writing", lambda: to.write(f, gen.build_dat(f, s, case["data"]), q, True, oo))
                stop = [0]

                def breaking(rows_):
                    def g():
                        for i, r in enumerate(rows_):
                            if stop[0] and i >= a["n"]:
                                raise Boom("the source broke")
                            yield r
                        if stop[0]:
                            raise Boom("the source broke")
                    return g
                d2 = gen.build_dat(f, s, case["data"], breaking)
                stop[0] = 1
                before = raw_sqlite(q) if to.name == "sqlite" else None
                c = call(lambda: to.write(f, d2, q, True, oo))
                if c.ok:
                    raise Violation("swallowed", "writing an object whose generator raised reported success (%s)" % to.name)
                if to.name == "sqlite" and before is not None and raw_sqlite(q) != before:
                    raise Violation("partial-write", "writing an object whose generator raised changed the SQLite file")
                res = to.name
            elif do == "gone":
                if case["user"]:
                    continue
                os.rename(p, p + ".away")
                del opens[:]
                c = call(lambda: rows(t, getattr(dat, t)()))
                made = os.path.exists(p)
                if c.ok:
                    raise Violation("wrong-rows", "iterating %s although the source is gone yields %s" % (t, cut(c.value)))
                if made:
                    raise Violation("created-by-reading", "iterating %s although the source is gone created a file in its place" % t)
                os.rename(p + ".away", p)
                check(t, must("iterating", lambda: rows(t, getattr(dat, t)())), "an iteration once the source is back")
            elif do == "restart":
                # a second object of the same source, in a fresh factory
                f2 = tdf_of(s)
                d2 = must("reading", lambda: self.read(fm, f2, p, o))
                check(t, must("iterating", lambda: rows(t, getattr(d2, t)())), "an iteration of a second object")
            kinds.append((do, res))
        for x in opens:
            x[2] += must("going on", lambda: rows(x[0], x[1]))
            check(x[0], x[2], "an iteration interleaved with others")
        W.count("faults-hit", fired)
        return (fm.name, case["user"], tuple(kinds))

    def back(self, to, f, q, oo):
        return to.read(f, q, oo) if to.family != "xls" else f.xls.create_tic_dat(q, treat_inf_as_infinity=False)

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        for cand in shrink_list(case["acts"]):
            c = copy.deepcopy(case)
            c["acts"] = cand
            yield c
        for t in case["data"]:
            for cand in shrink_list(case["data"][t]):
                c = copy.deepcopy(case)
                c["data"][t] = cand
                yield c


def compatible(to, s, data):
    if s["flag"] == "N/A" and to.family == "xls" and any(isinstance(v, dict) and "$inf" in v for rs in data.values() for r in rs for v in r):
        return False
    for t, pks, dfs in s["tables"]:
        for x in pks + dfs:
            k = s["kinds"][t + "|" + x].replace("fk:", "")
            if k not in to.prof.kinds + to.prof.pk_kinds + ("param",):
                return False
        typed = {x[1] for x in s["types"] if x[0] == t}
        if any(x not in typed and s["kinds"][t + "|" + x].replace("fk:", "") not in (to.prof.untyped_pk if x in pks else to.prof.untyped)
               for x in pks + dfs if t != "parameters"):
            return False
        if not pks and not to.all_none and any(all(v is None or isinstance(v, dict) and "$inf" in v for v in r) for r in data[t]):
            return False
        if any(isinstance(v, str) and v not in to.prof.texts and v not in gen.PLAIN + gen.ZIPS + ["dflt", ""] for r in data[t] for v in r):
            return False
    return True


def cut(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


CHECK = P08()

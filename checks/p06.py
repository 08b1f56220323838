"""
Concurrent users of one SQLite file: several simulated processes (or threads sharing a factory) read, scan for duplicates,
write, hold locks, stall and get killed, under a seeded scheduler.  The recorded history must be linearizable against the
obvious model: the file holds one data set (or none), a successful write replaces it whole, a read returns it whole.
"""
from .common import *
from .formats import F, Fmt
from sim.sched import Sched
from sim import base as _base


# (values that data frames and TicDat tables read the same)
FM = Fmt(**{k: v for k, v in F["sqlite"].__dict__.items() if k not in ("prof", "self", "kinds", "pk_kinds", "flags", "generators", "generic")},
         kinds=("int", "float", "text", "zip"), pk_kinds=("int", "text", "zip"), flags=("N/A",))
FM.prof.params = False


class P06(Check):
    ID = "P06"

    def gen(self, rng, r):
        fm = FM
        s = fm.gen_case(rng)
        big = rng.random() < .3
        n_data = 4
        data = {}
        for i in range(n_data):
            d = fm.gen_data(rng, s, max_rows=60 if big else 6, min_rows=20 if big else rng.choice([0, 1, 2]))
            data["data%d" % i] = d
        clients = []
        nxt = 1
        style = rng.choice(["mixed", "mixed", "readers", "create_race", "create_race"])
        for c in range(rng.choice([2, 2, 3, 3, 4])):
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                if style == "create_race":
                    kind = "create" if x < .75 else "read"
                elif style == "readers":
                    kind = "write" if c == 0 else ("pread" if x < .3 else "read")
                else:
                    kind = ("write" if x < .35 else "create" if x < .45 else "read" if x < .7 else "pread" if x < .8 else
                            "dups" if x < .88 else "hold" if x < .94 else "pause")
                op = {"op": kind}
                if kind in ("write", "create"):
                    if nxt >= n_data:
                        op = {"op": "read"}
                    else:
                        op["data"] = nxt
                        nxt += 1
                elif kind == "hold":
                    op.update(how=rng.choice(["BEGIN IMMEDIATE", "BEGIN EXCLUSIVE", "shared"]), secs=rng.choice([.01, .5, 3, 7]))
                elif kind == "pause":
                    op["secs"] = rng.choice([.001, .1, 2])
                ops.append(op)
            clients.append(ops)
        initial = rng.choice(["absent", "schema", "schema"] if style == "create_race" else ["data", "data", "data", "schema", "absent"])
        case = {"schema": s, "clients": clients, "initial": initial, "shared": rng.random() < .3,
                "p_io": rng.choice([.02, .1, .3, .6]), "p_line": rng.choice([0, 0, 0, .02, .1]),
                "delays": [rng.choice([0, 0, 0, .001, .05]) for _ in clients],
                "kill": ({"task": rng.randrange(len(clients)), "frac": round(rng.random(), 4)} if rng.random() < .35 else None),
                "faults": []}
        if rng.random() < .25:
            case["faults"] = rand_faults(rng, rng.choice([1, 2]), ["eio", "eio", "full", "busy"], cls=("any", "w", "r"))
        case.update(data)
        return case

    def run(self, case):
        s = case["schema"]
        names = ["p%d" % i for i in range(len(case["clients"]))]
        shared = tdf_of(s)
        facs = {n: shared if case["shared"] else tdf_of(s) for n in names}
        pfacs = {n: pdf_of(s) for n in names}
        want = {i: want_rows(s, case["data%d" % i]) for i in range(4)}
        empty = {t: [] for t in want[0]}
        versions = {i: want[i] for i in want}
        p = W.path("shared.db")
        if case["initial"] == "data":
            must("the first write", lambda: shared.sql.write_db_data(gen.build_dat(shared, s, case["data0"], []), p))
            init = want[0]
        else:
            init = empty
            if case["initial"] == "schema":
                must("write_db_schema", lambda: shared.sql.write_db_schema(p))
        W.restart()
        src = W.path("src.db")
        copy_any(p, src)
        for f in facs.values():     # (the attribute that holds the SQLite methods exists, whatever it creates lazily)
            f.sql
        dats = {i: gen.build_dat(shared if case["shared"] else tdf_of(s), s, case["data%d" % i], []) for i in range(1, 4)}
        history = []

        def attempt(sched, client, op, tdf, pdf):
            kind = op["op"]
            rec = {"client": client, "op": kind, "data": op.get("data"), "start": sched.stamp(), "end": None, "ok": None, "val": None}
            if kind not in ("hold", "pause"):
                history.append(rec)
            try:
                if kind == "write":
                    tdf.sql.write_db_data(dats[op["data"]], p, allow_overwrite=True)
                elif kind == "create":
                    tdf.sql.write_db_data(dats[op["data"]], p)
                elif kind == "read":
                    rec["val"] = tdf.sql.create_tic_dat(p)
                elif kind == "pread":
                    rec["val"] = pdf.sql.create_pan_dat(p)
                elif kind == "dups":
                    rec["val"] = tdf.sql.find_duplicates(p)
                elif kind == "pause":
                    W.sleep(op["secs"])
                elif kind == "hold":
                    con = sqlite3.connect(p, timeout=1)
                    try:
                        if op["how"] == "shared":
                            con.execute("BEGIN")
                            con.execute("select name from sqlite_master").fetchall()
                        else:
                            con.execute(op["how"])
                        W.sleep(op["secs"])
                        con.rollback()
                    except sqlite3.Error:
                        pass
                    finally:
                        con.close()
                rec["ok"] = True
            except SimCrash:
                raise
            except Exception as e:
                if W.is_dead():
                    raise SimCrash()
                rec["ok"], rec["err"] = False, short(e, 200)
            rec["end"] = sched.stamp()

        def go(plan):
            del history[:]
            sched = Sched(W.seed, p_io=case["p_io"], p_line=case["p_line"], is_repo_file=_base.is_repo_file, start_delays={
                n: d for n, d in zip(names, case["delays"]) if d})

            def body(n, ops):
                def fn():
                    for op in ops:
                        attempt(sched, n, op, facs[n], pfacs[n])
                return fn
            with W.sim(plan):
                tasks = sched.run({n: body(n, ops) for n, ops in zip(names, case["clients"])})
            for n, t in tasks.items():
                if t.status == "error":
                    raise t.error
            return sched

        def settle(when, sched):
            W.restart()
            hist = [dict(h) for h in history]
            for h in hist:
                if h["ok"] and h["op"] == "read":
                    h["val"] = tic_rows(h["val"], s)
                elif h["ok"] and h["op"] == "pread":
                    h["val"] = pan_rows(h["val"], s)
                elif h["ok"] and h["op"] == "dups":
                    if any(h["val"].values()):
                        raise Violation("phantom-duplicates", "%s: a duplicate scan reported %s" % (when, h["val"]))
                h.setdefault("err", None)
            # after the dust settled: the file is readable, and writable, whatever happened to the others
            if os.path.exists(p):
                end = sched.stamp()
                o = call(lambda: shared.sql.create_tic_dat(p))
                if not o.ok:
                    raise Violation("left-unusable", "%s: reading the file afterwards fails: %s" % (when, o))
                hist.append({"client": "main", "op": "read", "start": end, "end": end + 1, "ok": True, "val": tic_rows(o.value, s)})
            linearize(when, hist, init, versions, empty)
            if os.path.exists(p):
                o = call(lambda: shared.sql.write_db_data(dats[1], p, allow_overwrite=True))
                if not o.ok:
                    raise Violation("left-unusable", "%s: writing to the file afterwards fails: %s" % (when, o))
                got = tic_rows(must("a read afterwards", lambda: shared.sql.create_tic_dat(p)), s)
                if got != want[1]:
                    raise Violation("wrong-content", "%s: a last write: %s" % (when, gen.diff(want[1], got)))
                W.restart()
            return hist

        sched = go(())
        hist = settle("without faults", sched)
        n = len([e for e in W.events if "." in e[0]])
        feats = [features(hist)]
        plans = []
        if case["kill"] is not None:
            plans.append("kill")
        if case["faults"]:
            plans.append("faults")
        for kind in plans:
            for x in os.listdir(W.root):
                if x.startswith("shared.db"):
                    os.remove(W.path(x))
            copy_any(src, p)
            if kind == "kill":
                name = names[case["kill"]["task"]]
                k = [t.steps for t in sched.tasks_all if t.name == name][0]
                plan = [Fault(int(case["kill"]["frac"] * max(1, k)), "kill", task=name)]
            else:
                plan = faults_of(case, n)
            sched2 = go(plan)
            hist = settle("with %s %s" % (kind, W.fired), sched2)
            feats.append(features(hist) + (tuple(W.fired),))
        if not any(f[1] > 2 for f in feats):
            return None
        return (case["initial"], case["shared"], tuple(feats))


def features(hist):
    overlaps = 0
    for i, a in enumerate(hist):
        for b in hist[:i]:
            if a["client"] != b["client"] and (b["end"] is None or a["end"] is None or not (
                    a["end"] < b["start"] or b["end"] < a["start"])):
                overlaps += 1
    return (tuple(sorted((h["op"], str(h["ok"])) for h in hist)), min(overlaps, 6) + 2)


def linearize(when, hist, init, versions, empty):
    """is there an order of the operations, consistent with real time, that the model of one whole data set explains?"""
    ops = [h for h in hist if h["op"] != "dups"]
    fixed = []
    for h in ops:
        h = dict(h)
        if h["op"] in ("read", "pread"):
            if not h["ok"]:
                continue
        elif h["ok"] is False:
            # an exception: the write did not happen. (the one exception to that, an error of the very commit, is a fault's doing)
            h["maybe"] = bool(W.fired)
        elif h["ok"] is None:
            h["maybe"] = True
        h.setdefault("maybe", False)
        if h["op"] in ("write", "create") and not h["ok"] and not h["maybe"]:
            continue
        fixed.append(h)
    n = len(fixed)
    key = lambda st: repr(st)
    seen = set()
    order = []

    def search(done, state):
        if all(i in done or fixed[i]["maybe"] for i in range(n)):
            return True
        k = (done, key(state))
        if k in seen:
            return False
        seen.add(k)
        left = [i for i in range(n) if i not in done]
        first_end = min(fixed[i]["end"] if fixed[i]["end"] is not None and not fixed[i]["maybe"] else 10 ** 9 for i in left)
        for i in left:
            h = fixed[i]
            if h["start"] > first_end:
                continue
            if h["op"] in ("read", "pread"):
                if h["val"] == state and search(done | {i}, state):
                    return True
            elif h["op"] == "write":
                if search(done | {i}, versions[h["data"]]):
                    return True
            elif h["op"] == "create":
                if state == empty and search(done | {i}, versions[h["data"]]):
                    return True
        return False
    if search(frozenset(), init):
        return
    allv = [("initial", init)] + [("data%d" % i, versions[i]) for i in versions]
    desc = []
    for h in hist:
        if h["op"] in ("read", "pread") and h["ok"]:
            m = [nm for nm, v in allv if v == h["val"]]
            desc.append("%s %s [%s-%s] -> %s" % (h["client"], h["op"], h["start"], h["end"], m[0] if m else
                        "NO VERSION (%s)" % {t: [nm for nm, v in allv if v[t] == h["val"][t]] for t in h["val"]}))
        else:
            desc.append("%s %s(data%s) [%s-%s] ok=%s %s" % (h["client"], h["op"], h.get("data"), h["start"], h["end"], h["ok"],
                                                           h.get("err") or ""))
    raise Violation("not-linearizable", "%s: no order of whole-file operations explains: %s" % (when, "; ".join(desc)))


CHECK = P06()

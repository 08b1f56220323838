"""
The Foresta modes of the command line driver: 1-3 simulated clients of one simulated server, under the seeded scheduler and
the virtual clock, with lost requests and replies, stalls, other users, killed clients and failing disks.
"""
import json
import sys

from sim import foresta
foresta.install()

from sim.sched import Sched

from .formats import *
from .p11 import DEF, EXT, P11, restore, sfx, wipe

foresta.install()

MODES = ["upload and solve", "upload only", "download from scenario"]
CONFIGS = ["ok"] * 10 + ["no mode", "no mode", "bad mode", "no token", "list", "torn", "empty", "missing", "directory", "wrong token",
                         "both", "both"]
REQUESTS = ["connect", "list", "upload", "launch", "poll", "download"]


class P12(Check):
    ID = "P12"

    def gen(self, rng, r):
        pan = rng.random() < .4
        fin, fout = (F[EXT[pan][rng.choice(sorted(EXT[pan]))]] for _ in range(2))
        s, so = fin.gen_case(rng), fout.gen_case(rng)
        s["generators"], so["generators"] = [], []
        exts = {v: k for k, v in EXT[pan].items()}
        case = {"pan": pan, "in": exts[fin.name], "out": exts[fout.name], "schema": s, "sol": so, "clients": [],
                "slns": [fout.gen_data(rng, so, max_rows=6, min_rows=1) for _ in range(4)], "p_io": rng.choice([0, .3, .8]),
                "shuffle": False, "extra": False, "preds": []}
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            c = {"mode": rng.choice(MODES[:1] * 6 + MODES[1:2] * 2 + MODES[2:] * 2), "config": rng.choice(CONFIGS),
                 "scenario": rng.choice([None, "run", "run", "run %d" % i]), "data": fin.gen_data(rng, s, max_rows=6, min_rows=rng.choice([0, 1, 2])),
                 "input": rng.choice(["ok"] * 8 + ["missing", "odd", "dups", "dups"]), "before": rng.random() < .6,
                 "repeat": [rng.random() for _ in range(8)], "delay": rng.choice([0, 0, .5, 7.]), "argv": [rng.random() < .5, rng.random() < .5,
                                                                                                         rng.random()],
                 "down": rng.randrange(6)}
            if c["config"] == "no mode":
                c["mode"] = MODES[0]
            case["clients"].append(c)
        case["server"] = {"latency": rng.choice([.01, .2, 2.]), "seconds": [rng.choice([0, .3, 3, 20, 75.5, 400]) for _ in range(4)],
                          "failing": [x for x in range(7) if rng.random() < .12],
                          "events": [[rng.choice([.1, 1, 3, 10, 30, 60]) * rng.random(), rng.choice(["create", "rename", "rename", "delete"])]
                                     for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                          "existing": [[rng.choice(["run", "run", "other"]), rng.choice(["solved", "solved", "unsolved", "failed"])]
                                       for _ in range(rng.choice([0, 1, 2, 3]))]}
        case["faults"] = []
        for _ in range(6):
            f = rand_faults(rng, 1, ["net"] * 4 + ["timeout"] * 2 + ["stall"] * 2 + ["kill"] * 3 + ["eio", "full", "busy", "torn"],
                            sticky=(1, 1, 2, 1000))[0]
            f["client"] = rng.randrange(len(case["clients"]))
            if f["kind"] in ("net", "timeout", "stall"):
                ops = rng.choice([REQUESTS] + [[x] for x in REQUESTS])
                f["only"] = [x + y for x in ("net.send ", "net.reply ") for y in ops]
            elif f["kind"] == "eio":
                f["only"] = ["file", "sqlite"]
            if f["kind"] in ("kill", "stall"):
                f["sticky"] = 1
            case["faults"].append(f)
        return case

    # ---- the world of one run ------------------------------------------------------------------------------------------
    def run(self, case):
        import ticdat
        pan, s, so = case["pan"], case["schema"], case["sol"]
        cls = PanDatFactory if pan else TicDatFactory
        fin, fout = F[EXT[pan][case["in"]]], F[EXT[pan][case["out"]]]
        names = ["c%d" % i for i in range(len(case["clients"]))]
        rows_of = pan_rows if pan else tic_rows
        slns = [want_rows(so, d) for d in case["slns"]]
        foresta.FACTORIES["build"] = lambda f, d: gen.build_pan(f, so, d) if pan else gen.build_dat(f, so, d)
        part = [{t: rows[:len(rows) // 2] for t, rows in d.items()} for d in case["slns"]]
        facs = {n: (gen.build_factory(s, cls), gen.build_factory(so, cls)) for n in names}
        cl = dict(zip(names, case["clients"]))
        paths, info, rec = {}, {}, {}
        for i, n in enumerate(names):
            c = cl[n]
            paths[n] = dict(inp=W.path(n + "in" + sfx(case["in"])), out=W.path(n + "out" + sfx(case["out"])), cfg=W.path(n + "cfg.json"),
                            err=W.path(n + "err.json"))
            p = paths[n]
            info[n] = {"dups": False}
            if c["input"] == "dups" and not pan and fin.name != "sqltxt":
                from .p05 import P05
                info[n]["dups"] = bool(P05.write_with_dups(self, c, fin, s, DEF[fin.name], p["inp"]))
            elif c["input"] == "odd":
                P11.odd_input(self, p["inp"], case["in"])
            if c["input"] not in ("odd", "missing") and not info[n]["dups"]:
                wipe(p["inp"])
                P11.write_input(self, case, fin, s, c["data"], p["inp"])
            if c["before"]:
                must("writing an older output", lambda: fout.write(facs[n][1], fout.build(facs[n][1], so, case["slns"][(i + 1) % 4]), p["out"],
                                                                   False, DEF[fout.name]))
            info[n]["blocked"] = c["mode"] != MODES[2] and (info[n]["dups"] or c["input"] in ("odd", "missing"))
        W.restart()

        def solve(dat):
            rec[foresta.me()]["local"] += 1
            return None

        def main(n):
            c, p = cl[n], paths[n]
            lng, eq, order = c["argv"]
            parts = []
            for a, b, v in (("-i", "--input", p["inp"]), ("-o", "--output", p["out"]), ("-f", "--foresta", p["cfg"]),
                            ("-e", "--errors", p["err"] if c["config"] == "both" else None)):
                if v is not None:
                    parts.append([b + "=" + v] if lng and eq else [b, v] if lng else [a, v] if not eq else [a + v])
            random.Random(order).shuffle(parts)

            def fn():
                sys.argv = ["engine.py"] + [x for y in parts for x in y]
                rec[n]["began"] = W.now
                try:
                    ticdat.standard_main(facs[n][0], facs[n][1], solve)
                except SystemExit as e:
                    raise RuntimeError("exit %s" % e)
                finally:
                    rec[n]["ended"] = W.now
            return fn

        def go(plan, who):
            sv = foresta.SERVER = foresta.Server(W.seed, case["server"], lambda dat: rows_of(dat, s),
                                                 lambda k, unfinished: (part if unfinished else case["slns"])[k % 4])
            ids = list(sv.scenarios)
            for n in who:
                rec[n] = {"local": 0, "began": None, "ended": None}
                k = cl[n]["down"]
                info[n]["down"] = ids[k] if k < len(ids) else "nowhere" if k < 5 else None
                wipe(paths[n]["cfg"])
                self.write_config(cl[n], info[n], paths[n]["cfg"])
            W.restart()
            sched = Sched(W.seed, p_io=case["p_io"], is_repo_file=base.is_repo_file,
                          start_delays={n: cl[n]["delay"] for n in who if cl[n]["delay"]})
            argv, t0 = sys.argv, W.now
            W.time_budget = W.now + 40000
            try:
                with W.sim(plan):
                    try:
                        tasks = sched.run({n: main(n) for n in who})
                    except SimStuck as e:
                        raise Violation("stuck", "a client never ends: %s (%s)" % (e, [(x["client"], x["op"]) for x in sv.log[-5:]]))
            finally:
                sys.argv = argv
            for n in who:
                t = tasks[n]
                rec[n].update(status=t.status, error=None if t.error is None else short(t.error), steps=t.steps, exc=t.error)
            W.restart()
            return sv

        feats = []
        img = file_digest(W.root)
        probes = [Fault(10 ** 9, f["kind"], f["cls"], 1, f.get("only"), names[f["client"]]) for f in case["faults"]]
        sv = go(probes, names)
        for n in names:
            feats.append(self.judge(case, n, cl[n], info[n], rec[n], sv, img, "without faults", False, slns, fout, facs[n][1], so, s, paths[n]))
        quiet = {n: rec[n]["status"] for n in names}
        for flt, probe in zip(case["faults"], probes):
            restore(img)
            n = names[flt["client"]]
            if not probe.seen:
                continue
            fl = faults_of({"faults": [flt]}, probe.seen)[0]
            fl.task = n
            sv = go([fl], names)
            step = W.fired[-1][1] if fl.fired else None
            end = []
            for x in names:
                end.append(self.judge(case, x, cl[x], info[x], rec[x], sv, img, "with %s at step %s (%s) of client %s" % (fl.kind, fl.at, step, n),
                                      x == n and bool(fl.fired), slns, fout, facs[x][1], so, s, paths[x]))
            feats.append((fl.kind, step, tuple(end)))
            if fl.fired and rec[n]["status"] != "ok" and quiet[n] == "ok" and not case["server"]["events"]:
                img2 = file_digest(W.root)
                err = rec[n]["error"]
                sv = go((), [n])
                self.judge(case, n, cl[n], info[n], rec[n], sv, img2, "repeated without faults after %s at %s (%s)" % (fl.kind, step, err), False, slns,
                           fout, facs[n][1], so, s, paths[n])
        return (pan, case["in"], case["out"], tuple(map(repr, feats)))

    def write_config(self, c, inf, path):
        d = {"server": "https://foresta", "token": "secret", "app_id": "app 7", "mode": c["mode"]}
        if c["scenario"]:
            d["scenario"] = c["scenario"]
        if c["mode"] == MODES[2]:
            d.pop("scenario", None)
            if inf["down"] is not None:
                d["scenario"] = inf["down"]
        how = c["config"]
        if how == "no mode":
            del d["mode"]
        elif how == "bad mode":
            d["mode"] = "upload"
        elif how == "no token":
            del d["token"]
        elif how == "wrong token":
            d["token"] = "guess"
        if how == "missing":
            return
        if how == "directory":
            os.mkdir(path)
            return
        text = json.dumps([d] if how == "list" else d)
        with world.real_open(path, "w") as f:
            f.write(text[:-1] if how == "torn" else "" if how == "empty" else text)

    # ---- judging one client -------------------------------------------------------------------------------------------------
    def judge(self, case, n, c, inf, rec, sv, img, when, faulted, slns, fout, f_out, so, s, paths):
        when = "%s, %s -> %s, client %s (%s, config %s, input %s)" % (when, case["in"], case["out"], n, c["mode"], c["config"], c["input"])
        log = [e for e in sv.log if e["client"] == n]
        by = {op: [e for e in log if e["op"] == op] for op in ("connect", "list", "upload", "launch", "poll", "download")}
        mode, status = c["mode"], rec["status"]
        bad = c["config"] in ("bad mode", "no token", "list", "torn", "empty", "missing", "directory", "both")

        def fail(kind, text, *a):
            raise Violation(kind, "%s: %s; it ended %s %s" % (when, text % a if a else text, status, rec["error"]))
        if rec["local"]:
            fail("solved-locally", "solve was called on this machine")
        if bad and log:
            fail("contacted", "the server was contacted (%s) with an unusable configuration", [e["op"] for e in log])
        if c["config"] == "wrong token" and any(e["op"] != "connect" for e in log):
            fail("contacted", "the server was asked for %s although it refused the connection", [e["op"] for e in log])
        # what was uploaded
        if len(by["upload"]) > 1:
            fail("uploaded-twice", "the data was uploaded %s times", len(by["upload"]))
        if by["upload"] and (mode == MODES[2] or inf["blocked"]):
            fail("bad-upload", "something was uploaded")
        up = by["upload"][0] if by["upload"] else None
        if up:
            name, rows = up["id"]
            if name != c["scenario"]:
                fail("wrong-name", "uploaded as %r instead of %r", name, c["scenario"])
            want = want_rows(s, c["data"])
            if rows != want:
                fail("wrong-data", "uploaded something else than the input: %s", gen.diff(want, rows))
        mine = up["value"] if up and up["ok"] else None
        # what was launched
        if len(by["launch"]) > 1:
            fail("launched-twice", "a solve was launched %s times", len(by["launch"]))
        if by["launch"] and (mode != MODES[0] or mine is None or by["launch"][0]["id"] != mine):
            fail("wrong-launch", "a solve of %r was launched, the own scenario is %r", by["launch"][0]["id"], mine)
        launched = by["launch"][0] if by["launch"] else None
        # what was downloaded
        for e in by["download"]:
            if mode == MODES[1] or e["id"] != (mine if mode == MODES[0] else inf["down"]) or e["id"] is None:
                fail("wrong-download", "the solution of %r was downloaded", e["id"])
            if mode == MODES[0] and (launched is None or not launched["ok"]):
                fail("early-download", "a solution was downloaded although no solve was launched")
            if mode == MODES[0] and e["at"] is not None and e["at"] < sv.scenarios[mine].finish:
                fail("early-download", "a solution was downloaded %.1f s before it was finished", sv.scenarios[mine].finish - e["at"])
        got = [e["value"] for e in by["download"] if e["ok"]]
        # asking
        if by["poll"]:
            if mode != MODES[0] or any(e["id"] != mine for e in by["poll"]):
                fail("wrong-poll", "progress of %r was asked for, the own scenario is %r", by["poll"][0]["id"], mine)
            span = by["poll"][-1]["sent"] - by["poll"][0]["sent"]
            if len(by["poll"]) > span / .9 + 3:
                fail("hammered", "the server was asked %s times within %.1f s", len(by["poll"]), span)
        fin = sv.scenarios[mine].finish if mine in sv.scenarios and launched is not None else None
        if fin is not None and not faulted and rec["ended"] > fin + 30 and not any(e["sent"] > rec["ended"] - 20 for e in log):
            fail("late", "it ended %.1f s after the solution was there", rec["ended"] - fin)
        # the disk
        now = file_digest(W.root)
        keep = not (got and got[-1] is not None)
        for k in set(img) | set(now):
            top = k.split("/")[0]
            if not top.startswith(n) or img.get(k, 0) == now.get(k, 0) or top.startswith(n + "cfg"):
                continue
            if keep or not top.startswith(n + "out"):
                fail("touched", "%s changed although no solution was obtained", k)
        if status != "ok":
            must_work = (not faulted and c["config"] in ("ok", "no mode") and not inf["dups"] and (mode == MODES[2] or c["input"] != "odd") and
                         not any(e.get("refused") for e in log) and not (mode == MODES[2] and inf["down"] is None) and
                         not any(x[1] == "delete" for x in case["server"]["events"]))
            if status == "crashed" and not faulted:
                fail("crashed", "it died")
            if must_work:
                fail("unexpected-failure", "it failed")
            return (mode, status, tuple(op for op in by if by[op]))
        # it returned normally
        for op in ("connect", "upload", "launch", "download"):
            if by[op] and not any(e["ok"] for e in by[op]):
                fail("swallowed", "a failed %s was not reported", op)
        if c["config"] in ("missing", "directory", "both") or mode != MODES[2] and c["input"] == "missing" and not bad and \
                c["config"] != "wrong token":
            return "nothing to do"
        if bad or c["config"] == "wrong token" or inf["blocked"] or mode == MODES[2] and inf["down"] is None:
            fail("not-raised", "it returned normally")
        if mode == MODES[1]:
            if mine is None or sv.scenarios[mine].rows != want_rows(s, c["data"]):
                fail("not-uploaded", "nothing was uploaded")
            return "uploaded"
        if not by["download"]:
            fail("not-downloaded", "no solution was asked for")
        if mode == MODES[0] and launched is None:
            fail("not-launched", "no solve was launched")
        if got[-1] is None:
            return "no solution"
        id = mine if mode == MODES[0] else inf["down"]
        have = must("%s: reading the output" % when, lambda: fout.rows(fout.read(f_out, paths["out"], DEF[fout.name]), so))
        W.restart()
        want = slns[sv.scenarios[id].number % 4]
        if have != want:
            fail("wrong-output", "the output is not the solution: %s", gen.diff(want, have))
        return "solved"

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        if len(case["clients"]) > 1:
            for i in range(len(case["clients"])):
                c = copy.deepcopy(case)
                del c["clients"][i]
                c["faults"] = [dict(f, client=f["client"] - (f["client"] > i)) for f in c["faults"] if f["client"] != i]
                yield c
        for cand in shrink_list(case["faults"]):
            c = copy.deepcopy(case)
            c["faults"] = cand
            yield c
        for key in ("events", "existing", "failing"):
            for cand in shrink_list(case["server"][key]):
                c = copy.deepcopy(case)
                c["server"][key] = cand
                yield c
        for i, cl in enumerate(case["clients"]):
            for t in sorted(cl["data"]):
                for cand in shrink_list(cl["data"][t]):
                    c = copy.deepcopy(case)
                    c["clients"][i]["data"][t] = cand
                    yield c
            for key, v in (("delay", 0), ("before", False), ("scenario", None)):
                if cl[key] != v:
                    c = copy.deepcopy(case)
                    c["clients"][i][key] = v
                    yield c


CHECK = P12()

"""Threads sharing one factory get exactly what each would have got alone, under a seeded scheduler."""
from .common import *
from . import ops as O
from sim import base as _base
from sim.sched import Sched, SharedState, profile_lines

FM = O.make_fmt(O.GEN_KINDS)
LIGHT = 6


class P07(Check):
    ID = "P07"

    def gen(self, rng, r):
        s = FM.gen_case(rng, fk_prob=.8)
        pan = rng.random() < .4
        cat = sorted(O.PAN if pan else O.TIC)
        light = [o for o in cat if " " not in o or not o.split()[0] in ("io", "rewrite", "dups", "refused")]
        n = rng.choice([2, 2, 3, 4])
        same = rng.random() < .6
        threads = []
        for i in range(n):
            if same and threads:
                threads.append(list(threads[0]))
                continue
            k = rng.choice([1, 1, 1, 2, 3])
            threads.append([rng.choice(light if rng.random() < .5 else cat) for _ in range(k)])
        data = O.clean(FM, rng, s, max_rows=5)
        return {"schema": s, "pan": pan, "preds": O.gen_predicates(rng, s), "threads": threads, "data": data,
                "links": rng.random() < .6,
                "shared_dat": rng.random() < .4, "messy": [O.spoil(rng, s, O.clean(FM, rng, s, max_rows=5)) for _ in threads],
                "own": [O.clean(FM, rng, s, max_rows=5) for _ in threads],
                "p_io": rng.choice([.05, .3, .8]), "p_line": rng.choice([.01, .05, .2, .5]), "opcodes": rng.random() < .15, "trials": rng.choice([6, 12]), "points": rng.choice([1, 1, 2])}

    def factory(self, case):
        s = case["schema"]
        f = pdf_of(s) if case["pan"] else tdf_of(s)
        O.add_predicates(f, case["preds"])
        if case["links"] and not case["pan"]:
            f.enable_foreign_key_links()
        return f

    def run(self, case):
        s, pan = case["schema"], case["pan"]
        case["schema"]["generators"] = []
        names = ["t%d" % i for i in range(len(case["threads"]))]

        def shared_dat(f):
            if not case["shared_dat"]:
                return None
            d = gen.build_pan(f, s, case["messy"][0]) if pan else gen.build_dat(f, s, case["messy"][0], [])
            return d if pan else f.freeze_me(d)

        def dirs(stem):
            for n in names:
                os.mkdir(W.path(stem + n))

        def ctx(f, dat, stem, i):
            return O.Ctx(f, s, dat, case["own"][i], case["messy"][i], W.path(stem + names[i]), pan)
        want, lines, hot = [], {}, []
        dirs("alone-")
        for i, ops in enumerate(case["threads"]):
            f = self.factory(case)
            dat = shared_dat(f)
            c = ctx(f, dat, "alone-", i)
            with W.sim():
                w, seen, h = profile_lines(lambda: [O.perform(c, op, k) for k, op in enumerate(ops)], _base.is_repo_file,
                                           SharedState(f))
            hot += h
            want.append(w)
            for k, cnt in seen.items():
                lines[k] = max(cnt, lines.get(k, 0))
        lines = sorted(lines.items())
        rng = random.Random("points:%s" % W.seed)
        hits = switches = 0
        for trial in range(case["trials"]):
            stem = "shared%d-" % trial
            dirs(stem)
            f = self.factory(case)
            dat = shared_dat(f)
            if trial == 0:
                sched = Sched(W.seed, p_io=case["p_io"], p_line=case["p_line"], opcodes=case["opcodes"], is_repo_file=_base.is_repo_file)
            else:   # one thread stalls at some line until the others are done
                pts = []
                for _ in range(case["points"]):
                    if hot and rng.random() < .6:
                        pts.append(hot[rng.randrange(len(hot))])
                        continue
                    (fn, line), cnt = lines[rng.randrange(len(lines))]
                    pts.append((fn, line, 1 if rng.random() < .6 else rng.randrange(1, min(cnt, 40) + 1)))
                sched = Sched("%s:%s" % (W.seed, trial), p_io=0, p_line=0, points=pts, is_repo_file=_base.is_repo_file)

            def body(i):
                c = ctx(f, dat, stem, i)
                return lambda: [O.perform(c, op, k) for k, op in enumerate(case["threads"][i])]
            with W.sim():
                tasks = sched.run({n: body(i) for i, n in enumerate(names)})
            hits += sched.points_hit
            switches += sched.switches
            for i, n in enumerate(names):
                t = tasks[n]
                if t.status != "ok":
                    raise Violation("thread-failed", "%s (%s) ended %s %s" % (n, case["threads"][i], t.status, t.error))
                for k, (a, b) in enumerate(zip(want[i], t.value)):
                    if a != b:
                        raise Violation("not-as-alone", "thread %s, operation %s, together with %s (%s): alone %s, here %s" % (
                            n, case["threads"][i][k], [o for j, o in enumerate(case["threads"]) if j != i],
                            [e[1:] for e in W.events if e[0] == "stall"][-3:], cut(a), cut(b)))
        W.count("stalls", hits)
        W.count("shared-state-changes", len(hot))
        # the factory (and the shared data) are unharmed
        dirs("after-")
        for i, ops in enumerate(case["threads"]):
            c = ctx(f, dat, "after-", i)
            with W.sim():
                got = [O.perform(c, op, k) for k, op in enumerate(ops)]
            if got != want[i]:
                raise Violation("factory-corrupted", "after threads %s had shared the factory, %s gives %s instead of %s" % (
                    case["threads"], ops, cut(got), cut(want[i])))
        W.count("errors-as-alone", sum(1 for w in want for x in w if x[0] == "error"))
        if switches < 4:
            return None
        return (pan, case["shared_dat"], tuple(sorted(map(tuple, case["threads"]))), min(switches // 10, 20))

    def shrink(self, case):
        import copy
        for i in range(len(case["threads"])):
            if len(case["threads"]) > 2:
                c = copy.deepcopy(case)
                for k in ("threads", "messy", "own"):
                    c[k].pop(i)
                yield c
        for i in range(len(case["threads"])):
            for j in range(len(case["threads"][i])):
                if len(case["threads"][i]) > 1:
                    c = copy.deepcopy(case)
                    c["threads"][i].pop(j)
                    yield c
        if case["preds"]:
            for j in range(len(case["preds"])):
                c = copy.deepcopy(case)
                c["preds"].pop(j)
                yield c


def cut(x, n=700):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


CHECK = P07()

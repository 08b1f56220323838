"""
Slicers: every slice gives exactly the matching tuples, whatever slices, clears and edits of earlier results came before it, were broken
off half-way by an exception out of a member, or run in other threads at the same time.
"""
from .common import *
from sim import base as _base
from sim.sched import Sched, profile_lines


class Broken(Exception):
    pass


class Fuse:
    """lets the n-th use of a member from now on fail"""
    def __init__(self):
        self.left = None
        self.kind = None
        self.fired = False

    def burn(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.fired = True
                W.count("faults: " + self.kind)
                raise {"error": Broken, "memory": MemoryError, "interrupt": KeyboardInterrupt}[self.kind]()


FUSE = Fuse()


class Key(object):
    """a member defined by the user: equal to its like, and able to fail"""
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        FUSE.burn()
        return hash(self.k)

    def __eq__(self, other):
        FUSE.burn()
        return isinstance(other, Key) and other.k == self.k

    def __repr__(self):
        return "Key(%r)" % (self.k,)


def dec(v):
    if isinstance(v, dict):
        return Key(v["key"]) if "key" in v else tuple(map(dec, v["tuple"]))
    return v


MEMBERS = ["a", "b", "c", "", 0, 1, 2, 1.5, -1, None, {"key": 1}, {"key": 2}, {"key": "a"}, {"tuple": ["a", 1]}, {"tuple": ["a", 2]}, {"tuple": []}]


class P16(Check):
    ID = "P16"

    def gen(self, rng, r):
        width = rng.choice([1, 2, 2, 3, 3, 4])
        pools = [rng.sample(MEMBERS, rng.choice([1, 2, 3, 4])) for _ in range(width)]
        n = rng.choice([0, 1, 2, 5, 10, 25])
        rows = [[rng.choice(p) for p in pools] for _ in range(n)]
        if rng.random() < .4 and not any({"key": 1} in p or {"key": 2} in p or {"key": "a"} in p for p in pools):
            pools[0].append({"key": 1})
            for x in rows:
                if rng.random() < .5:
                    x[0] = {"key": 1}

        # (without nested tuples, ticdat leaves the work to gurobipy, where nested tuples in patterns are sets of alternatives)
        if rows and rng.random() < .8:
            rows[rng.randrange(len(rows))][rng.randrange(width)] = {"tuple": rng.choice([["a", 1], []])}
        nested = any(isinstance(x, dict) and "tuple" in x for row in rows for x in row)

        def op():
            x = rng.random()
            if x < .12:
                return {"do": "clear"}
            if x < .18:
                return {"do": "misuse", "how": rng.choice(["short", "long", "none"])}
            plain = lambda pool: [x for x in pool if nested or not (isinstance(x, dict) and "tuple" in x)] or ["a"]
            pat = ["*" if rng.random() < .5 else rng.choice(plain(p if rng.random() < .85 else MEMBERS)) for p in pools]
            o = {"do": "slice", "pat": pat, "spoil": rng.random() < .3}
            if rng.random() < .3:
                o["fail"] = [rng.choice(["error", "memory", "interrupt"]), rng.randrange(0, 2 * n + 3)]
            return o
        hist = [op() for _ in range(rng.choice([3, 6, 10]))]
        # threads mostly slice alike, which is where they meet
        threads = []
        for _ in range(rng.choice([0, 2, 2, 3])):
            base = threads[0] if threads and rng.random() < .6 else [dict(op(), fail=None) for _ in range(rng.choice([1, 2, 3]))]
            threads.append([dict(x) for x in base])
        return {"rows": rows, "hist": hist, "threads": threads, "p_line": rng.choice([.1, .3, .6]), "opcodes": rng.random() < .4,
                "trials": rng.choice([3, 5]), "as": rng.choice(["list", "tuple", "iterator", "lists"])}

    def slicer(self, case):
        import ticdat
        rows = [tuple(map(dec, x)) for x in case["rows"]]
        self.mine = None
        arg = rows if case["as"] == "list" else tuple(rows) if case["as"] == "tuple" else iter(rows)
        if case["as"] == "lists":
            arg = self.mine = [list(x) for x in rows]
        s = ticdat.Slicer(arg)
        if self.mine is not None:       # what it was made from is the caller's
            for x in self.mine:
                x[:] = ["spoiled"] * len(x)
            del self.mine[:]
        return s, rows

    def expect(self, rows, pat):
        pat = [dec(x) if x != "*" else x for x in pat]
        same = lambda a, b: (a.k == b.k if isinstance(b, Key) else False) if isinstance(a, Key) else \
            len(a) == len(b) and all(map(same, a, b)) if isinstance(a, tuple) and isinstance(b, tuple) else not isinstance(b, Key) and a == b
        return sorted((t for t in rows if all(isinstance(p, str) and p == "*" or same(x, p) for x, p in zip(t, pat))), key=repr)

    def do(self, sl, rows, op):
        if op["do"] == "clear":
            sl.clear()
            return ("ok", None)
        if op["do"] == "misuse":
            width = len(rows[0]) if rows else 2
            args = ["*"] * {"short": width - 1, "long": width + 1, "none": 0}[op["how"]]
            try:
                return ("ok", sorted(sl.slice(*args), key=repr))
            except Exception as e:
                return ("error", type(e).__name__)
        pat = [dec(x) for x in op["pat"]]
        if op.get("fail"):
            FUSE.kind, FUSE.left = op["fail"]
        FUSE.fired = False
        try:
            rtn = sl.slice(*pat)
        except (Broken, MemoryError, KeyboardInterrupt):
            FUSE.left = None
            if not FUSE.fired:
                raise
            return ("broken", None)
        finally:
            FUSE.left = None
        if FUSE.fired:
            raise Violation("swallowed", "slice%r returned normally although a member raised" % (tuple(pat),))
        got = sorted(rtn, key=repr)
        if op["spoil"]:                 # the result is the caller's
            del rtn[:]
            rtn.append("spoiled")
        return ("ok", got)

    def verdict(self, rows, op, got, when):
        if op["do"] == "slice":
            if got[0] == "ok":
                want = self.expect(rows, op["pat"])
                if list(map(repr, got[1])) != list(map(repr, want)):
                    raise Violation("wrong-slice", "%s: slice%r gives %s, the matching tuples are %s" % (when, tuple(op["pat"]), got[1], want))
        elif op["do"] == "misuse" and rows and got[0] == "ok":
            raise Violation("accepted-nonsense", "%s: a slice of the wrong length gives %s" % (when, got[1]))

    def run(self, case):
        tup = lambda x: isinstance(x, dict) and "tuple" in x
        if not any(tup(x) for row in case["rows"] for x in row) and \
                any(tup(x) for ops in [case["hist"]] + case["threads"] for op in ops for x in op.get("pat", ())):
            return None
        sl, rows = self.slicer(case)
        feats = [case["as"], min(len(rows), 5)]
        for i, op in enumerate(case["hist"]):
            got = self.do(sl, rows, op)
            self.verdict(rows, op, got, "after %s" % case["hist"][:i])
            feats.append((op["do"], tuple(x == "*" for x in op.get("pat", ())), got[0]))
        W.count("slices after a broken one", sum(1 for x in feats[2:] if x[-1] == "broken"))
        if case["threads"] and rows:
            names = ["t%d" % i for i in range(len(case["threads"]))]
            alone, _ = self.slicer(case)
            with W.sim():
                w, seen, hot = profile_lines(lambda: [self.do(alone, rows, op) for op in case["threads"][0]], _base.is_repo_file, None)
            lines = sorted(seen.items())
            rng = random.Random("points:%s" % W.seed)
            switches = 0
            for trial in range(case["trials"]):
                sl, rows = self.slicer(case)
                if trial % 2 == 0 or not lines:
                    sched = Sched("%s:%s" % (W.seed, trial), p_io=0, p_line=case["p_line"], opcodes=case["opcodes"],
                                  is_repo_file=_base.is_repo_file)
                else:
                    (fn, line), cnt = lines[rng.randrange(len(lines))]
                    sched = Sched("%s:%s" % (W.seed, trial), p_io=0, p_line=0, is_repo_file=_base.is_repo_file,
                                  points=[(fn, line, rng.randrange(1, min(cnt, 40) + 1))])
                with W.sim():
                    tasks = sched.run({n: (lambda ops: lambda: [self.do(sl, rows, op) for op in ops])(case["threads"][i])
                                       for i, n in enumerate(names)})
                switches += sched.switches
                for i, n in enumerate(names):
                    t = tasks[n]
                    if t.status != "ok":
                        raise Violation("thread-failed", "%s (%s) ended %s %r" % (n, case["threads"][i], t.status, t.error))
                    for op, got in zip(case["threads"][i], t.value):
                        self.verdict(rows, op, got, "in thread %s, together with %s" % (n, case["threads"]))
                for ops in case["threads"]:
                    for op in ops:
                        self.verdict(rows, op, self.do(sl, rows, op), "after the threads %s" % case["threads"])
            feats.append((len(names), min(switches // 5, 10)))
        return tuple(map(repr, feats))

    def shrink(self, case):
        import copy
        from sim.base import shrink_list
        for key in ("hist", "rows", "threads"):
            for cand in shrink_list(case[key]):
                c = copy.deepcopy(case)
                c[key] = cand
                yield c
        for i in range(len(case["threads"])):
            for cand in shrink_list(case["threads"][i]):
                if cand:
                    c = copy.deepcopy(case)
                    c["threads"][i] = cand
                    yield c
        for i, op in enumerate(case["hist"]):
            if op.get("fail"):
                c = copy.deepcopy(case)
                c["hist"][i]["fail"] = None
                yield c


CHECK = P16()

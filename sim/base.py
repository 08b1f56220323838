"""What a check is, and the shrinker."""
import copy
import gc
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

from . import world
from checks.meta import META
from .world import W, SimCrash, SimStuck, Violation

REPO = os.environ.get("TICDAT_SIM_REPO", "/repo")


class Outcome:
    """how one call into the code under test ended"""
    __slots__ = ("status", "value", "error", "crashed")

    def __init__(self, status, value=None, error=None):
        self.status, self.value, self.error = status, value, error

    @property
    def ok(self):
        return self.status == "ok"

    def __repr__(self):
        return "%s%s" % (self.status, " " + short(self.error) if self.error is not None else "")


def short(e, n=300):
    s = "%s: %s" % (type(e).__name__, e)
    return s if len(s) <= n else s[:n] + "..."


def call(fn, plan=(), active=True):
    """run fn under the simulator. ok / error / crashed (the process died, whatever the code then did)"""
    try:
        if active:
            with W.sim(plan):
                v = fn()
        else:
            v = fn()
    except SimStuck:
        raise
    except SimCrash:
        return Outcome("crashed")
    except Exception as e:
        if W.crashed:
            return Outcome("crashed")
        e.__traceback__ = None if active and plan else e.__traceback__
        return Outcome("error", error=e)
    if W.crashed:
        return Outcome("crashed")
    return Outcome("ok", v)


def must(what, fn, plan=()):
    """a call that has to succeed, since nothing is failing"""
    o = call(fn, plan)
    if not o.ok:
        tb = "".join(traceback.format_tb(o.error.__traceback__)[-2:]) if o.error is not None else ""
        raise Violation("unexpected-failure", "%s failed although no fault was injected: %s %s" % (what, o, tb))
    return o.value


def faults_of(case, n_steps, key="faults"):
    """place the case's faults (given as fractions of the operation) onto step numbers"""
    rtn = []
    for f in case.get(key, []):
        at = int(f["frac"] * max(1, n_steps)) if f["frac"] < 1 else max(0, n_steps - 1)
        rtn.append(world.Fault(at, f["kind"], f.get("cls", "any"), f.get("sticky", 1), f.get("only")))
    return rtn


class Check:
    ID = None

    @property
    def runs(self):
        return META[self.ID]["runs"]

    @property
    def block(self):
        return META[self.ID]["block"]

    def setup(self):
        """once per worker process, after the seams are in place and ticdat is imported"""

    def gen(self, rng, r):
        raise NotImplementedError

    def run(self, case):
        """raise Violation or return a feature tuple describing what was reached"""
        raise NotImplementedError

    def shrink(self, case):
        """smaller candidates of a case"""
        return shrink_data_case(case)


def run_case(check, case, seed):
    """one simulated run. returns (violation or None, features, harness error or None)"""
    W.reset(seed)
    W.bufsize = case.get("bufsize", 8192)
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    gc.collect()
    gc.disable()
    signal.signal(signal.SIGVTALRM, _stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, 90)
    feats = None
    try:
        try:
            feats = check.run(copy.deepcopy(case))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            W.active = False
            sys.stdout, sys.stderr = out, err
            gc.enable()
            if W.sched is not None:
                W.sched.abandon()
                W.sched = None
    except Violation as v:
        return v, None, None
    except SimStuck as e:
        return Violation("no-progress", str(e)), None, None
    except SimCrash:
        return None, None, "SimCrash escaped: " + traceback.format_exc()[-1500:]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(is_repo_file(f.filename) for f in tb):
            return Violation("unexpected-exception", short(e) + " at " + "; ".join(
                "%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])), None, None
        return None, None, traceback.format_exc()[-2500:]
    if W.internal_errors:
        return None, None, "seam error: %s" % W.internal_errors[:3]
    return None, feats, None


_REPO_DIR = os.path.realpath(os.path.join(REPO, "ticdat")) + os.sep


def is_repo_file(fn):
    return "ticdat" in fn and "/testing/" not in fn and os.path.realpath(fn).startswith(_REPO_DIR)


def _stuck(sig, frame):
    raise SimStuck("more than 90 seconds of processor time in one simulated run")


def load_ticdat():
    """import the code under test from the repository's working tree, with the seams already in place"""
    from . import sched
    world.install()
    sched.install(is_repo_file)
    sys.path.insert(0, REPO)
    import ticdat
    assert os.path.realpath(ticdat.__file__).startswith(os.path.realpath(REPO) + os.sep), ticdat.__file__
    return ticdat


# -- shrinking -----------------------------------------------------------------------------------------------------
def shrink_list(lst):
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cand = lst[:i] + lst[i + size:]
            if len(cand) < n:
                yield cand
        size //= 2


def shrink_schema(case):
    """drop tables (with what refers to them), data types, foreign keys, parameters, rows"""
    s = case.get("schema")
    if not s:
        return
    datasets = [k for k in case if k.startswith("data") and isinstance(case[k], dict)]
    for t in [x[0] for x in s["tables"]]:
        if len(s["tables"]) < 2:
            break
        c = copy.deepcopy(case)
        cs = c["schema"]
        cs["tables"] = [x for x in cs["tables"] if x[0] != t]
        cs["fks"] = [x for x in cs["fks"] if t not in (x[0], x[1])]
        cs["types"] = [x for x in cs["types"] if x[0] != t]
        cs["defaults"] = [x for x in cs["defaults"] if x[0] != t]
        cs["generators"] = [x for x in cs["generators"] if x != t]
        if t == "parameters":
            cs["params"] = []
        cs["kinds"] = {k: (v if not (v.startswith("fk") and not any(
            x[0] == k.split("|")[0] and any(m[0] == k.split("|")[1] for m in x[2]) for x in cs["fks"])) else v[3:])
            for k, v in cs["kinds"].items() if not k.startswith(t + "|")}
        for d in datasets:
            c[d].pop(t, None)
        yield c
    for i in range(len(s["fks"])):
        c = copy.deepcopy(case)
        n, f, m = c["schema"]["fks"].pop(i)
        for k in [n + "|" + x[0] for x in m]:
            if c["schema"]["kinds"].get(k, "").startswith("fk:"):
                c["schema"]["kinds"][k] = c["schema"]["kinds"][k][3:]
        yield c
    if s["flag"] != "N/A":
        c = copy.deepcopy(case)
        c["schema"]["flag"] = "N/A"
        yield c
    for d in datasets:
        for t in sorted(case[d]):
            for rows in shrink_list(case[d][t]):
                c = copy.deepcopy(case)
                c[d][t] = rows
                yield c


def shrink_data_case(case, lists=("faults", "ops")):
    for key in lists:
        if isinstance(case.get(key), list):
            for cand in shrink_list(case[key]):
                c = copy.deepcopy(case)
                c[key] = cand
                yield c
    for c in shrink_schema(case):
        yield c
    # drop non key columns
    s = case.get("schema")
    if s:
        datasets = [k for k in case if k.startswith("data") and isinstance(case[k], dict)]
        for ti, (t, pks, dfs) in enumerate(s["tables"]):
            if t == "parameters" and s["params"]:
                continue
            for f in dfs:
                if not pks and len(dfs) == 1:
                    continue
                if any((x[0] == t and any(m[0] == f for m in x[2])) for x in s["fks"]):
                    continue
                c = copy.deepcopy(case)
                cs = c["schema"]
                cs["tables"][ti][2].remove(f)
                cs["types"] = [x for x in cs["types"] if x[:2] != [t, f]]
                cs["defaults"] = [x for x in cs["defaults"] if x[:2] != [t, f]]
                cs["kinds"].pop(t + "|" + f, None)
                idx = (pks + dfs).index(f)
                for d in datasets:
                    c[d][t] = [r[:idx] + r[idx + 1:] for r in c[d].get(t, [])]
                yield c


def minimise(check, case, seed, violation, budget_s=25):
    """greedy: keep any smaller case that still violates with the same kind"""
    t0 = time.process_time()
    best, best_v = case, violation
    tried = 0
    progress = True
    while progress and time.process_time() - t0 < budget_s and tried < 1500:
        progress = False
        for cand in check.shrink(best):
            if time.process_time() - t0 > budget_s or tried >= 1500:
                break
            tried += 1
            try:
                v, _, err = run_case(check, cand, seed)
            except Exception:
                continue
            if v is not None and v.kind == best_v.kind:
                best, best_v, progress = cand, v, True
                break
    return best, best_v, tried


def run_seed(verif_seed, check_id, r):
    h = hashlib.sha256(("%s/%s/%s" % (verif_seed, check_id, r)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def hash_seed(verif_seed, check_id, block):
    h = hashlib.sha256(("hs/%s/%s/%s" % (verif_seed, check_id, block)).encode()).digest()
    return int.from_bytes(h[:4], "big")


def make_case(check, verif_seed, r):
    seed = run_seed(verif_seed, check.ID, r)
    rng = random.Random("gen:%s" % seed)
    case = check.gen(rng, r)
    case.setdefault("bufsize", rng.choice([16, 64, 300, 1024, 8192]))
    case = json.loads(json.dumps(case))
    return case, seed

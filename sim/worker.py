"""
One block of simulated runs in one process:   python -m sim.worker ID TIER VERIF_SEED BLOCK OUT
or the replay of one case:                    python -m sim.worker --replay FILE OUT
"""
import collections
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")


def main(argv):
    from . import base, world
    from .world import W
    top = tempfile.mkdtemp(prefix="ticdat-sim-")
    W.set_base(os.path.join(top, "w"))
    out = {}
    try:
        if argv[0] == "--replay":
            with open(argv[1]) as f:
                rep = json.load(f)
            check = load_check(rep["property"])
            if rep.get("mode") == "block":
                out = run_block(check, rep["tier"], rep["verif_seed"], rep["block"], stop=rep["r"], shrink=False)
            else:
                v, feats, err = base.run_case(check, rep["case"], rep["seed"])
                out = {"violations": [{"kind": v.kind, "message": v.message}] if v else [], "errors": [err] if err else [],
                       "digest": W.digest.hexdigest(), "events": W.events[-60:], "fired": W.fired}
        else:
            cid, tier, vseed, block = argv[0], argv[1], argv[2], int(argv[3])
            check = load_check(cid)
            out = run_block(check, tier, vseed, block)
    finally:
        W.active = False
        try:
            W.kill_connections()
        except Exception:
            pass
        shutil.rmtree(top, ignore_errors=True)
    with world.real_open(argv[-1], "w") as f:
        json.dump(out, f)


def load_check(cid):
    from checks.meta import META
    from . import base
    for pre in META[cid].get("pre", ()):      # client libraries that ticdat looks for when it is imported
        importlib.import_module(pre).install()
    base.load_ticdat()
    import gc
    mod = importlib.import_module("checks." + cid.lower())
    mod.CHECK.setup()
    gc.collect()
    gc.freeze()   # what is imported stays: collections during the runs only look at what the runs made
    return mod.CHECK


def run_block(check, tier, vseed, block, stop=None, shrink=True):
    from . import base
    from .world import W
    n = check.runs[tier]
    lo, hi = block * check.block, min(n, (block + 1) * check.block)
    if stop is not None:
        hi = stop + 1
    res = {"block": block, "runs": 0, "violations": [], "errors": [], "features": {}, "digests": {},
           "trivial": 0, "steps": 0, "states": [], "samples": []}
    counters = collections.Counter()
    states = set()
    cpu0 = time.process_time()
    for r in range(lo, hi):
        case, seed = base.make_case(check, vseed, r)
        W.counters.clear()
        v, feats, err = base.run_case(check, case, seed)
        res["runs"] += 1
        res["digests"][str(r)] = hashlib.sha256((W.digest.hexdigest() + repr(feats) + (v.kind if v else "")).encode()).hexdigest()[:16]
        res["steps"] += W.nstep
        counters.update(W.counters)
        states.add(W.digest.hexdigest()[:12])
        if err:
            res["errors"].append({"r": r, "error": err})
            if len(res["errors"]) >= 3:
                break
            continue
        if v is not None:
            small, sv, tried = (case, v, 0)
            if shrink:
                small, sv, tried = base.minimise(check, case, seed, v)
            res["violations"].append({"r": r, "seed": seed, "kind": sv.kind, "message": sv.message, "case": small,
                                      "orig_case": case, "shrink_attempts": tried})
            break
        if feats is None:
            res["trivial"] += 1
            continue
        key = repr(feats)
        res["features"][key] = res["features"].get(key, 0) + 1
        if len(res["samples"]) < 1:
            res["samples"].append({"run": r, "seed": seed, "reached": key[:400], "steps": W.nstep,
                                   "case": case if len(json.dumps(case)) < 3000 else json.dumps(case)[:3000]})
    res["counters"] = dict(counters)
    res["sim_seconds"] = W.totals["sim_seconds"]
    res["states"] = sorted(states)
    res["cpu"] = time.process_time() - cpu0
    return res


if __name__ == "__main__":
    main(sys.argv[1:])

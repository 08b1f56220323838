"""
python3 -m sim.run ID [--tier quick|thorough]      decide one property (exit 0 / 1 with a VIOLATION line / 2 harness error)
python3 -m sim.run --replay FILE                   re-run a recorded violation in a fresh process
"""
import collections
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("TICDAT_SIM_PYTHON", "/opt/venv/bin/python")
WALL = {"quick": 780, "thorough": 860}


def spawn(args, hashseed, out, extra_env=None):
    env = {"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
           "HOME": os.environ.get("HOME", "/tmp"), "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
           "PYTHONPATH": HERE, "TICDAT_SIM_REPO": os.environ.get("TICDAT_SIM_REPO", "/repo")}
    env.update(extra_env or {})
    return subprocess.Popen([PY, "-W", "ignore", "-m", "sim.worker"] + [str(a) for a in args] + [out], env=env, cwd=HERE,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=open(out + ".err", "wb"), start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        pass
    p.wait()


def read_out(out):
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def err_text(out):
    try:
        with open(out + ".err", errors="replace") as f:
            return f.read()[-1500:]
    except OSError:
        return ""


def run_one(args, hashseed, tmp, name, timeout):
    out = os.path.join(tmp, name)
    p = spawn(args, hashseed, out)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return None, "timed out"
    return read_out(out), err_text(out)


def known_findings(cid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("property") == cid and k.get("status") == "open"]


def static_meta(cid):
    from checks.meta import META
    return META[cid]


def main(argv):
    sys.path.insert(0, HERE)
    from sim import seeds
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--setup":
        return setup()
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    tier = tier if tier in ("quick", "thorough") else "quick"
    vseed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    meta = static_meta(cid)
    print("check %s tier=%s VERIF_SEED=%s" % (cid, tier, vseed), flush=True)
    n = meta["runs"][tier]
    blocks = list(range((n + meta["block"] - 1) // meta["block"]))
    jobs = int(os.environ.get("TICDAT_SIM_JOBS", "0")) or min(8, os.cpu_count() or 4)
    results, violation, errors = [], None, []     # (an error of the harness does not end the search: a violation outranks it)
    late = False
    stopped_early = 0
    with tempfile.TemporaryDirectory(prefix="ticdat-simrun-") as tmp:
        running = {}
        pending = list(blocks)
        deadline = t0 + WALL[tier]
        soft = t0 + (float(os.environ.get("TICDAT_SIM_SOFT", "0")) or (600 if tier == "quick" else 780))
        while pending or running:
            while pending and len(running) < jobs and violation is None and not late and len(errors) < 50:
                if time.time() > soft:      # enough explored for this tier's time: start no further block
                    stopped_early += len(pending)
                    pending = []
                    break
                b = pending.pop(0)
                out = os.path.join(tmp, "b%d" % b)
                running[b] = (spawn([cid, tier, vseed, b], seeds.hash_seed(vseed, cid, b), out), out)
            if violation is not None or late or len(errors) >= 50:
                for b, (p, out) in running.items():
                    kill(p)
                running = {}
                break
            time.sleep(.05)
            for b in list(running):
                p, out = running[b]
                if p.poll() is None:
                    if time.time() > deadline:
                        kill(p)
                        del running[b]
                        errors.append("block %d did not finish in time" % b)
                        late = True
                    continue
                del running[b]
                res = read_out(out)
                if res is None:
                    errors.append("worker for block %d exited %s without a result: %s" % (b, p.returncode, err_text(out)))
                    continue
                results.append(res)
                if res["errors"]:
                    errors.extend("block %d: %s" % (b, e) for e in res["errors"])
                if res["violations"] and violation is None:
                    violation = (b, res["violations"][0])
        if violation is not None:
            errors = []
            violation = confirm(cid, tier, vseed, violation, tmp, seeds)
    wall = time.time() - t0
    write_evidence(cid, tier, vseed, meta, results, violation, wall, n, stopped_early)
    for k in known_findings(cid):
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    if violation is not None:
        path, v, confirmed = violation
        print("  %s: %s" % (v["kind"], v["message"]))
        print("  seed=%s run=%s reproduced-in-fresh-process=%s" % (v["seed"], v["r"], confirmed))
        print("VIOLATION property=%s replay=%s" % (cid, path), flush=True)
        return 1
    if errors:
        print("HARNESS ERROR: %s" % errors[0], flush=True)
        return 2
    runs = sum(r["runs"] for r in results)
    print("ok: %d simulated runs, %d distinct event histories, %.1f s" % (
        runs, len({s for r in results for s in r["states"]}), wall), flush=True)
    return 0


def setup():
    """nothing to build: check that the interpreter, the libraries and the code under test are there"""
    r = subprocess.run([PY, "-W", "ignore", "-c", "import pandas, numpy, sqlite3, openpyxl, xlrd, xlwt, xlsxwriter, sqlalchemy, "
                        "psycopg2; from sim import base; base.load_ticdat(); print('setup ok')"], cwd=HERE,
                       env=dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode


def confirm(cid, tier, vseed, violation, tmp, seeds):
    b, v = violation
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (cid, v["seed"]))
    hs = seeds.hash_seed(vseed, cid, b)
    common = {"property": cid, "pythonhashseed": hs, "verif_seed": vseed, "tier": tier, "block": b, "r": v["r"],
              "seed": v["seed"]}
    cands = [dict(common, mode="case", case=v["case"], kind=v["kind"], message=v["message"]),
             dict(common, mode="case", case=v["orig_case"], kind=v["kind"], message=v["message"]),
             dict(common, mode="block", kind=v["kind"], message=v["message"])]
    for i, rep in enumerate(cands):
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        out, err = run_one(["--replay", path], hs, tmp, "replay%d" % i, 300)
        if out and out.get("violations"):
            rep["kind"], rep["message"] = out["violations"][0]["kind"], out["violations"][0]["message"]
            rep["trace"] = out.get("events", [])
            rep["fired"] = out.get("fired", [])
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            return path, dict(v, kind=rep["kind"], message=rep["message"]), ["minimised", "unminimised", "block"][i]
    return path, v, "NO"


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    with tempfile.TemporaryDirectory(prefix="ticdat-simrun-") as tmp:
        out, err = run_one(["--replay", os.path.abspath(path)], rep["pythonhashseed"], tmp, "out", 600)
    if out is None:
        print("HARNESS ERROR: %s" % err)
        return 2
    for e in out.get("events", []):
        print("   ", *e)
    if out["violations"]:
        print("%s: %s" % (out["violations"][0]["kind"], out["violations"][0]["message"]))
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    if out.get("errors"):
        print("HARNESS ERROR: %s" % out["errors"][0])
        return 2
    print("no violation")
    return 0


def write_evidence(cid, tier, vseed, meta, results, violation, wall, planned, stopped_early):
    runs = sum(r["runs"] for r in results)
    counters = collections.Counter()
    for r in results:
        counters.update(r.get("counters", {}))
    feats = collections.Counter()
    for r in results:
        for k, c in r["features"].items():
            feats[k] += c
    states = {s for r in results for s in r["states"]}
    samples = [s for r in results for s in r["samples"]][:4]
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault:")}
    simsec = sum(r.get("sim_seconds", 0) for r in results)
    ev = {
        "property": cid, "tier": tier, "seed": int(vseed) if str(vseed).isdigit() else 0, "level": meta["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(feats),
            "rule": meta["rule"],
            "samples": samples or [{"note": "no run completed"}],
            "trivial_runs": sum(r["trivial"] for r in results), "planned_runs": planned, "blocks_not_started": stopped_early,
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_steps": sum(r["steps"] for r in results),
            "simulated_seconds": round(simsec, 3),
            "distinct_event_histories": len(states),
            "faults_injected": faults,
            "probes": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "components": meta["components"],
            "python_hash_seeds": len(results),
        },
        "assumptions": meta.get("components", {}).get("stub", []),
        "wall_s": round(wall, 2),
        "violations": 0 if violation is None else 1,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

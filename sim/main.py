"""check PROP TIER | replay FILE | determinism PROP N   (worker and shrinker sub-commands are internal)"""
import collections
import importlib
import json
import os
import select
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EDSIM_REPO", "/repo")
OUT = os.environ.get("EDSIM_OUT", VERIF)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def env_for(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF + ":" + REPO,
             PYTHONPYCACHEPREFIX="/nonexistent/edsim", PYTHONWARNINGS="ignore", MPLBACKEND="Agg", LC_ALL="C.UTF-8")
    e.pop("PYTHONSTARTUP", None)
    return e


def load_mod(prop):
    from sim import registry
    return registry.get(prop)


def hashseed_of(index, nhash=8):
    return 1 + 7 * (index % nhash)


# ------------------------------------------------------------------------------------------------ internal workers

def cmd_worker(argv):
    prop, tier, vseed, w, nw, count, deadline, sharedf = argv
    vseed, w, nw, count, deadline = int(vseed), int(w), int(nw), int(count), float(deadline)
    mod = load_mod(prop)
    from sim import core
    shared = load_shared(sharedf)
    out = os.fdopen(os.dup(1), "w")
    for i in range(w, count, nw):
        if time.time() > deadline:
            print(json.dumps({"stop": i}), file=out, flush=True)
            break
        seed = f"{prop}:{vseed}:{i}"
        t0 = time.time()
        res = core.run_once(mod, tier, seed=seed, index=i, shared=shared)
        res["i"] = i
        res["wall"] = time.time() - t0
        if i % 64 < nw and not res["viol"] and not res["error"] and not res.get("hang"):
            # replay the recorded choices: the execution must be the same
            res2 = core.run_once(mod, tier, script=res["rec"], index=0, shared=shared)
            res["det"] = (res2["digest"] == res["digest"] and res2["nev"] == res["nev"])
        print(json.dumps(res), file=out, flush=True)
        if res["viol"] or res["error"]:
            pass
    out.close()


def load_shared(path):
    if not path or path == "-":
        return {}
    import pickle
    with open(path, "rb") as f:
        return pickle.load(f)


def cmd_prepare(argv):
    """fault-free baselines, computed once per check in their own process"""
    prop, tier, path = argv
    mod = load_mod(prop)
    import pickle
    try:
        data = mod.prepare(tier)
    except Exception as e:
        from sim.core import Violation
        if isinstance(e, Violation):
            data = {"prepare_violation": (e.kind, e.msg)}
        else:
            raise
    with open(path, "wb") as f:
        pickle.dump(data, f)


def cmd_shrink(argv):
    prop, tier, inf, outf, budget, sharedf = argv
    mod = load_mod(prop)
    from sim import core
    shared = load_shared(sharedf)
    with open(inf) as f:
        d = json.load(f)
    best, res = core.shrink(mod, tier, d["script"], d["kind"], float(budget), shared=shared)
    if res is None:
        res = core.run_once(mod, tier, script=best, shared=shared)
    with open(outf, "w") as f:
        json.dump({"script": best, "res": res}, f)


def cmd_one(argv):
    """run one script or seed and print the result as JSON"""
    prop, tier, inf, sharedf = argv
    mod = load_mod(prop)
    from sim import core
    shared = load_shared(sharedf)
    with open(inf) as f:
        d = json.load(f)
    if "script" in d:
        res = core.run_once(mod, tier, script=d["script"], shared=shared, timeout=d.get("timeout", core.RUN_TIMEOUT),
                            want_log=True)
    else:
        res = core.run_once(mod, tier, seed=d["seed"], index=d["index"], shared=shared,
                            timeout=d.get("timeout", core.RUN_TIMEOUT), want_log=True)
    print(json.dumps(res))


# ------------------------------------------------------------------------------------------------ master

def run_one(prop, tier, d, hashseed, sharedf, work):
    inf = os.path.join(work, "one.json")
    with open(inf, "w") as f:
        json.dump(d, f)
    p = subprocess.run([PY, "-m", "sim.main", "_one", prop, tier, inf, sharedf], env=env_for(hashseed), cwd=VERIF,
                       stdout=subprocess.PIPE)
    return json.loads(p.stdout.decode().strip().splitlines()[-1])


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in line[len("finding:"):].split() if "=" in x)
                    d["line"] = line
                    out.append(d)
    return out


def prepare_shared(mod, prop, tier, work):
    if not hasattr(mod, "prepare"):
        return "-", None
    path = os.path.join(work, "shared.pkl")
    p = subprocess.run([PY, "-m", "sim.main", "_prepare", prop, tier, path], env=env_for(0), cwd=VERIF)
    if p.returncode != 0:
        return None, None
    data = load_shared(path)
    if "prepare_violation" in data:
        return path, data["prepare_violation"]
    return path, None


def reap(work):
    """end processes of this check that outlived their run (their command line names the scratch folder)"""
    import signal
    for pid in os.listdir("/proc"):
        if pid.isdigit() and int(pid) != os.getpid():
            try:
                with open(f"/proc/{pid}/cmdline", "rb") as f:
                    c = f.read()
                if work.encode() + b"/" in c:
                    os.kill(int(pid), signal.SIGKILL)
            except OSError:
                pass


def cmd_check(argv):
    prop, tier = argv[0], argv[1]
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load_mod(prop)
    from sim import core
    work = tempfile.mkdtemp(prefix="edsim-chk-", dir=core.scratch_base())
    os.environ["EDSIM_SCRATCH"] = work
    try:
        return _check(mod, prop, tier, vseed, t0, work)
    finally:
        reap(work)
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def _check(mod, prop, tier, vseed, t0, work):
    nw = int(os.environ.get("EDSIM_WORKERS", "8"))
    count = int(os.environ.get("EDSIM_RUNS", mod.COUNTS[tier]))
    cap = float(os.environ.get("EDSIM_CAP", {"quick": 300, "thorough": 3600}[tier]))
    nonrepro = 0
    sharedf, pv = prepare_shared(mod, prop, tier, work)
    if sharedf is None:
        print(f"ERROR property={prop}: preparation failed", file=sys.stderr)
        return 2
    agg = dict(runs=0, steps=0, simtime=0.0, wall=0.0, det_ok=0, det_bad=0, discarded=0)
    counts, faults = collections.Counter(), collections.Counter()
    states, digests = set(), set()
    samples = []
    errors, viols, hangs = [], [], []
    stopped = False
    if pv is not None:
        viols.append({"i": -1, "viol": pv, "rec": [], "events": []})
    else:
        procs = {}
        deadline = t0 + cap
        for w in range(nw):
            p = subprocess.Popen([PY, "-m", "sim.main", "_worker", prop, tier, str(vseed), str(w), str(nw), str(count),
                                  str(deadline), sharedf], env=env_for(hashseed_of(w)), cwd=VERIF,
                                 stdout=subprocess.PIPE)
            procs[p.stdout.fileno()] = [p, b""]
        while procs:
            rd, _, _ = select.select(list(procs), [], [], 5)
            if not rd and stopped:
                for fd in list(procs):
                    procs[fd][0].kill()
                break
            for fd in rd:
                c = os.read(fd, 1 << 20)
                if not c:
                    p = procs.pop(fd)[0]
                    if p.wait() != 0 and not stopped:
                        errors.append(f"worker exited with {p.returncode}")
                    continue
                procs[fd][1] += c
                *lines, procs[fd][1] = procs[fd][1].split(b"\n")
                for line in lines:
                    res = json.loads(line)
                    if "stop" in res:
                        agg["capped"] = True
                        continue
                    if res.get("hang"):
                        hangs.append(res)
                        continue
                    if res["error"]:
                        errors.append(f"run {res['i']}: {res['error']}")
                        continue
                    agg["runs"] += 1
                    agg["steps"] += res["steps"]
                    agg["simtime"] += res["simtime"]
                    agg["wall"] += res["wall"]
                    if "det" in res:
                        agg["det_ok" if res["det"] else "det_bad"] += 1
                    counts.update(res["counts"])
                    faults.update(res["faults"])
                    states.update(res["states"])
                    digests.add(res["digest"])
                    if len(samples) < 3 and res["nev"] > 3 and not res["viol"]:
                        samples.append({"seed": f"{prop}:{vseed}:{res['i']}", "choices": res["rec"][:60],
                                        "events": res["nev"], "digest": res["digest"]})
                    if res["viol"]:
                        viols.append(res)
            if (viols or hangs or len(errors) > 3) and not stopped:
                if viols or hangs:
                    stopped = True
                    for fd in list(procs):
                        procs[fd][0].terminate()
    rc = 0
    report = []
    # a run that did not come back: once more, with twice the time; a second time it is a violation
    if hangs and not viols:
        h = hangs[0]
        res = run_one(prop, tier, {"seed": f"{prop}:{vseed}:{h['i']}", "index": h["i"], "timeout": 250},
                      hashseed_of(h["i"] % nw), sharedf, work)
        if res.get("hang"):
            viols.append({"i": h["i"], "viol": ("never-returns", "the run never came back (250 s)"), "rec": None,
                          "events": []})
        elif res["viol"]:
            res["i"] = h["i"]
            viols.append(res)
        else:
            errors.append(f"run {h['i']} timed out once and passed the second time")
    known_hit = set()
    if viols:
        kf = known_findings()
        done_kinds = set()
        viols.sort(key=lambda r: r["i"])
        for v in viols:
            kind, msg = v["viol"]
            k = next((d for d in kf if d.get("property") == prop and d.get("kind") == kind), None)
            if k is not None:
                if kind not in known_hit:
                    known_hit.add(kind)
                    print(f"KNOWN-FINDING: property={prop} {k['line']}")
                continue
            if kind in done_kinds:
                continue
            done_kinds.add(kind)
            if len(done_kinds) > 2:
                continue
            hs = hashseed_of(v["i"] % nw) if v["i"] >= 0 else 0
            rep = report_violation(mod, prop, tier, vseed, v, hs, sharedf, work, minimise=(v["i"] >= 0))
            if rep is None:
                nonrepro += 1
                continue
            report.append(rep)
            rc = 1
            print(f"VIOLATION property={prop} replay={rep['replay']}")
            print(f"  kind: {kind}\n  {rep['msg']}", flush=True)
    if errors and rc == 0:
        for e in errors[:3]:
            print(f"ERROR property={prop}: {e}", file=sys.stderr)
        rc = 2
    if nonrepro and rc == 0:
        print(f"ERROR property={prop}: {nonrepro} violation(s) did not reproduce on replay", file=sys.stderr)
        rc = 2
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples or [{"none": True}],
            "simulated_runs": agg["runs"],
            "runs_per_hour": round(agg["runs"] / max(wall, 1e-3) * 3600),
            "seeds_per_hour": round(agg["runs"] / max(wall, 1e-3) * 3600),
            "scheduler_steps": agg["steps"],
            "simulated_seconds": round(agg["simtime"], 3),
            "faults_injected": dict(sorted(faults.items())),
            "distinct_states": len(states),
            "distinct_states_measure": mod.STATE_MEASURE,
            "distinct_executions": len(digests),
            "counters": dict(sorted(counts.items())),
            "replayed_twice_identical": agg["det_ok"],
            "replayed_twice_different": agg["det_bad"],
            "wall_cap_reached": bool(agg.get("capped")),
            "real_components": mod.REAL, "stub_components": mod.STUB,
            "harness_errors": len(errors),
        },
        "wall_s": round(wall, 2),
        "assumptions": mod.ASSUMPTIONS,
        "violations": [{"kind": r["kind"], "message": r["msg"][:2000], "replay": r["replay"]} for r in report],
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {agg['runs']} runs, {len(digests)} distinct executions, {len(states)} states, "
          f"{sum(faults.values())} faults, {wall:.1f} s, replay check {agg['det_ok']} same {agg['det_bad']} different")
    if hasattr(mod, "expect") and rc == 0 and not known_hit:
        for k in mod.expect(tier):
            if not counts.get(k) and not faults.get(k):
                print(f"note: probe {k} never hit")
    return rc


def report_violation(mod, prop, tier, vseed, v, hs, sharedf, work, minimise=True):
    kind, msg = v["viol"]
    d = {"property": prop, "tier": tier, "hashseed": hs, "kind": kind, "seed": f"{prop}:{vseed}:{v['i']}",
         "index": v["i"]}
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", f"{prop}-{vseed}-{max(v['i'], 0)}.json")
    if v["i"] < 0:
        d.update(script=None, prepare=True, message=msg, trace=[])
    elif v["rec"] is None:
        d.update(script=None, message=msg, trace=[])
    else:
        script, res = list(v["rec"]), v
        inf, outf = os.path.join(work, "sh_in.json"), os.path.join(work, "sh_out.json")
        with open(inf, "w") as f:
            json.dump({"script": script, "kind": kind}, f)
        budget = {"quick": 40, "thorough": 240}[tier]
        subprocess.run([PY, "-m", "sim.main", "_shrink", prop, tier, inf, outf, str(budget), sharedf],
                       env=env_for(hs), cwd=VERIF)
        mini = script
        if os.path.exists(outf):
            with open(outf) as f:
                o = json.load(f)
            if o["res"] and o["res"].get("viol") and o["res"]["viol"][0] == kind:
                mini, res = o["script"], o["res"]
        # the replay must reproduce in a fresh process
        good = None
        for cand in ([mini, script] if mini != script else [script]):
            r = run_one(prop, tier, {"script": cand}, hs, sharedf, work)
            if r.get("viol") and r["viol"][0] == kind:
                good = (cand, r)
                break
        if good is None:
            # state of the original run is only reachable from the seed
            r = run_one(prop, tier, {"seed": d["seed"], "index": d["index"]}, hs, sharedf, work)
            if not (r.get("viol") and r["viol"][0] == kind):
                return None
            good = (r["rec"], r)
        d.update(script=good[0], message=good[1]["viol"][1], trace=good[1].get("events", []),
                 digest=good[1]["digest"], original_choices=len(script), minimised_choices=len(good[0]),
                 nonzero_choices=sum(1 for x in good[0] if x), faults=good[1]["faults"])
        msg = d["message"]
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return {"kind": kind, "msg": msg, "replay": path}


def cmd_replay(argv):
    with open(argv[0]) as f:
        d = json.load(f)
    prop, tier = d["property"], d["tier"]
    mod = load_mod(prop)
    from sim import core
    work = tempfile.mkdtemp(prefix="edsim-rep-", dir=core.scratch_base())
    os.environ["EDSIM_SCRATCH"] = work
    try:
        sharedf, pv = prepare_shared(mod, prop, tier, work)
        if pv is not None:
            print(f"VIOLATION property={prop} replay={argv[0]}\n  kind: {pv[0]}\n  {pv[1]}")
            return 1
        if d.get("prepare"):
            print("not reproduced")
            return 0
        if d["script"] is None:
            res = run_one(prop, tier, {"seed": d["seed"], "index": d["index"], "timeout": 250}, d["hashseed"], sharedf,
                          work)
            if res.get("hang"):
                print(f"VIOLATION property={prop} replay={argv[0]}\n  never returns")
                return 1
        else:
            res = run_one(prop, tier, {"script": d["script"]}, d["hashseed"], sharedf, work)
        if res.get("error"):
            print(res["error"], file=sys.stderr)
            return 2
        for e in res.get("events", []):
            print("   ", e)
        if res["viol"]:
            same = res["viol"][0] == d["kind"] and (not d.get("digest") or res["digest"] == d["digest"])
            print(f"VIOLATION property={prop} replay={argv[0]}\n  kind: {res['viol'][0]}\n  {res['viol'][1]}")
            print(f"  identical to the recorded execution: {same}")
            return 1
        print("not reproduced")
        return 0
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def cmd_determinism(argv):
    """run N seeds in differently sized pools and under several hash seeds and compare event logs"""
    prop, n = argv[0], int(argv[1])
    tier = "quick"
    mod = load_mod(prop)
    from sim import core
    work = tempfile.mkdtemp(prefix="edsim-det-", dir=core.scratch_base())
    os.environ["EDSIM_SCRATCH"] = work
    try:
        sharedf, pv = prepare_shared(mod, prop, tier, work)
        tables = []
        for nw, hs in ((8, None), (3, 5), (16, 99)):
            ps = []
            for w in range(nw):
                ps.append(subprocess.Popen([PY, "-m", "sim.main", "_worker", prop, tier, "77", str(w), str(nw), str(n),
                                            str(time.time() + 3600), sharedf],
                                           env=env_for(hs if hs is not None else hashseed_of(w)), cwd=VERIF,
                                           stdout=subprocess.PIPE))
            t = {}
            for p in ps:
                for line in p.communicate()[0].decode().splitlines():
                    r = json.loads(line)
                    t[r["i"]] = (r["digest"], r["nev"], r["viol"] and r["viol"][0], r.get("error"))
            tables.append(t)
        bad = [i for i in tables[0] if any(t.get(i) != tables[0][i] for t in tables[1:])]
        print(f"{prop}: {len(tables[0])} seeds x {len(tables)} pools, {len(bad)} differ {bad[:10]}")
        return 1 if bad else 0
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def cmd_setup(argv):
    """nothing to build: everything is imported from /repo's working tree at run time; see that the parts are there"""
    import numpy
    import scipy
    from . import registry
    print("python", sys.version.split()[0], "numpy", numpy.__version__, "scipy", scipy.__version__)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    return 0


def main():
    cmd, argv = sys.argv[1], sys.argv[2:]
    fn = {"setup": cmd_setup, "check": cmd_check, "replay": cmd_replay, "determinism": cmd_determinism, "_worker": cmd_worker,
          "_prepare": cmd_prepare, "_shrink": cmd_shrink, "_one": cmd_one}[cmd]
    rc = fn(argv)
    sys.stdout.flush()
    sys.exit(rc or 0)


if __name__ == "__main__":
    main()

"""C03: an interrupted batch run completes correctly when it is simply run again"""
import os

from . import pipeline as pl
from . import procsim
from .core import Violation
from .pipeline import Layout

LEVEL = "fault_enumeration"
COUNTS = {"quick": 240, "thorough": 16000}
RULE = ("one evaluation = one simulated batch run disturbed at chosen points and re-run with the same commands until it completes; "
        "distinct = different event logs")
STATE_MEASURE = "distinct (stage, fault kind, operation, set of files present at the re-run)"
REAL = ["cluster/*.py stage scripts", "in a part of the runs the driver and job scripts (real bash)", "exact_diag", "CPython file buffering", "pickle"]
STUB = ["disk (errors, short and torn writes, full disk, power loss)", "Slurm and the user re-running commands", "clocks",
        "os.urandom", "pids and host names"]
ASSUMPTIONS = ["faults stop eventually (at most six disturbed executions per run)", "orders 2 and 3, in thorough also 4"]


def prepare(tier):
    return {"base": {o: pl.baseline(o) for o in (2, 3, 4)}}


def run(ctx):
    src = ctx.src
    if src.flip(0.1):
        return driven(ctx, [2, 3][src.choose(2)])
    order = [2, 3, 4][src.weighted([12, 8, 1])]
    reuse = order == 4
    base = ctx.shared["base"][order]
    n = pl.NCLUSTERS[order]
    exp = pl.Expect(base)
    fold = pl.folder(ctx, src)
    lay = Layout(fold, order, absolute=not src.flip(0.2))
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.vary_buf = src.flip(0.5)
    sim.p_preempt = [0.0, 0.2][src.choose(2)]
    # most of the run is prepared from undisturbed outputs; disturbed stages really run
    steps = [("gen", None), ("gens", None)] + [("find", i) for i in range(1, n + 1)] + [("aggsub", None)] + \
            [("diag", i) for i in range(1, n + 1)] + [("aggres", None)]
    budget = [6]
    passes = 1 + src.weighted([3, 2, 1])
    ctx.log("order", order, "passes", passes)
    hot = set()
    for _ in range(1 + src.choose(3)):
        hot.add(steps[src.choose(len(steps))])
    faults_before = None

    for pss in range(passes):
        last = pss == passes - 1
        stop_at = None if last else src.choose(len(steps)) + 1
        for k, (st, idx) in enumerate(steps):
            if stop_at is not None and k >= stop_at:
                ctx.log("pass abandoned before", st, idx or "")
                ctx.fault("run_abandoned")
                break
            key = lay.key(st, idx)
            disturbed = (st, idx) in hot and budget[0] > 0
            cheap = st in ("find", "diag") and not disturbed and (reuse or src.flip(0.6))
            if cheap and pl.read(lay.path(key)) is None:
                with open(lay.path(key), "wb") as f:
                    f.write(base[key])
                sim.adopt(lay.path(key))
                continue
            elif cheap and exp.check(key, pl.read(lay.path(key))) is None:
                continue
            tries = 0
            while True:
                tries += 1
                if disturbed and budget[0] > 0 and src.flip(0.75):
                    budget[0] -= 1
                    pl.set_faults(sim, src, 1.5)
                else:
                    pl.no_faults(sim)
                clean = not sim.rates and sim.full_after is None
                files = sorted(os.path.basename(f) for f in os.listdir(fold))
                ctx.state(st, tries, len(files), clean, sorted(sim.rates))
                p = pl.spawn_stage(sim, lay, st, idx, f"#{pss}.{tries}", stdout_gated="err_stdout" in sim.rates)
                sim.run()
                if p.code == 0:
                    if st in ("gen", "gens") and p.out.strip() != str(n) :
                        raise Violation("wrong-cluster-count", f"{p.name} printed {p.out.strip()!r}, expected {n}, "
                                                               f"with {files}")
                    break
                if clean:
                    # inputs of this stage may have been lost with the power; then its predecessors are run again
                    missing = [q for q in needs(lay, st, n) if pl.read(lay.path(q)) is None]
                    if missing and ctx.faults["power_loss"]:
                        restore(ctx, sim, lay, missing, base, n, exp)
                        continue
                    raise Violation("rerun-fails", f"{p.name} fails when it is simply run again, with {files}: {p.exc} "
                                                   f"{p.err[-300:]}")
                # a power loss may also have taken files published just before; the user runs those stages again
                if ctx.faults["power_loss"]:
                    missing = [q for q in needs(lay, st, n) if pl.read(lay.path(q)) is None]
                    restore(ctx, sim, lay, missing, base, n, exp)
    pl.no_faults(sim)
    for key in ["cd", "cds", "agg", "res"] + [f"sub{i}" for i in range(1, n + 1)] + [f"diag{i}" for i in range(1, n + 1)]:
        c = pl.read(lay.path(key))
        if c is None:
            if ctx.faults["power_loss"]:
                continue
            raise Violation("output-missing", f"{os.path.basename(lay.path(key))} does not exist after the re-run")
        why = exp.check(key, c)
        if why:
            raise Violation("result-differs", f"{os.path.basename(lay.path(key))} differs from an undisturbed run after "
                                              f"the re-run: {why}")
    # a completed run, run again, changes nothing
    st, idx = steps[src.choose(len(steps))]
    if ctx.faults["power_loss"] == 0:
        before = {k: pl.read(lay.path(k)) for k in lay.keys(n)}
        p = pl.spawn_stage(sim, lay, st, idx, "#again")
        sim.run()
        if p.code != 0:
            raise Violation("rerun-fails", f"{p.name} fails on a completed run: {p.exc} {p.err[-300:]}")
        if st in ("gen", "gens") and p.out.strip() != str(n):
            raise Violation("wrong-cluster-count", f"{p.name} printed {p.out.strip()!r}, expected {n}, on a completed run")
        for k, b in before.items():
            c = pl.read(lay.path(k))
            if c != b and (c is None or exp.check(k, c)):
                raise Violation("rerun-changes-results", f"running {st} again changed {os.path.basename(lay.path(k))}")
    ctx.log("complete")


def driven(ctx, order):
    """the driver is killed, jobs go on or are cancelled, and the driver is simply run again"""
    from . import c05
    fold = os.path.join(ctx.scratch, pl.FOLDERS[ctx.src.choose(len(pl.FOLDERS))])
    w = c05.World(ctx, order, fold)
    try:
        ctx.log("driven, order", order, "limit", w.limit, "folder", os.path.basename(fold))
        ctx.counts["driven_runs"] += 1
        for _ in range(1 + ctx.src.choose(3)):
            w.dead_driver()
        w.drive()
        w.check_outputs(pl.Expect(ctx.shared["base"][order]), w.n)
    finally:
        w.sh.close()
    ctx.log("complete")


def needs(lay, st, n):
    return {"gen": [], "gens": [], "find": ["cd"], "diag": ["cd"],
            "aggsub": ["cd"] + [f"sub{i}" for i in range(1, n + 1)],
            "aggres": ["agg"] + [f"diag{i}" for i in range(1, n + 1)]}[st]


def restore(ctx, sim, lay, missing, base, n, exp):
    """files lost in a power loss after their stage had finished: their stages are run again (outputs reused)"""
    for q in missing:
        with open(lay.path(q), "wb") as f:
            f.write(base[q])
        sim.adopt(lay.path(q))
        ctx.log("restored", q)


def expect(tier):
    return ["power_loss", "kill", "torn_write_kill", "disk_full", "run_abandoned", "driven_runs"]

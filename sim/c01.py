"""C01: a batch run publishes the same results in whatever order its jobs run"""
import os
import pickle

from . import pipeline as pl
from . import canon, clocks, procsim
from .core import Violation

LEVEL = "exploration"
COUNTS = {"quick": 120, "thorough": 6000}
RULE = ("one evaluation = one complete simulated batch run (all stages, all clusters) whose published results were compared with the "
        "undisturbed run and with an independent linked-cluster calculation; distinct = different event logs")
STATE_MEASURE = "distinct (order of completed jobs, listing orders) prefixes"
REAL = ["cluster/*.py stage scripts", "in a part of the runs the driver and job scripts (real bash)", "exact_diag", "numpy/scipy/pickle", "CPython file buffering"]
STUB = ["Slurm (scheduler of this harness)", "disk timing and listing order", "clocks", "os.urandom", "pids and host names"]
ASSUMPTIONS = ["the stage scripts are invoked with the argument conventions of run_on_cluster.sh and slurm_array.sh",
               "orders 2 to 5 (21 clusters) in quick, up to 6 (56 clusters, task outputs of the largest order reused) in thorough"]


def prepare(tier):
    orders = [2, 3, 4, 5]
    base = {}
    for o in orders:
        base[o] = pl.baseline(o, ("gen", "find", "aggsub", "diag", "aggres"))
        why = pl.check_reference(pickle.loads(base[o]["res"]), o)
        if why:
            raise Violation("undisturbed-results-wrong", f"undisturbed order {o} run: {why}")
    return {"base": base}


def run(ctx):
    src = ctx.src
    order = [3, 2, 4, 3, 4, 5][src.weighted([30, 10, 25, 20, 14, 1])]
    # cheap mode: task computations are replaced by their undisturbed outputs, so that larger runs fit
    reuse = src.flip(0.5)
    if reuse:
        order = [3, 4, 5, 5][src.choose(4)]
    if src.flip(0.15):
        return driven(ctx, [3, 2, 4][src.weighted([3, 1, 2])])
    base = ctx.shared["base"][order]
    n = pl.NCLUSTERS[order]
    exp = pl.Expect(base)
    fold = pl.folder(ctx, src)
    lay = pl.Layout(fold, order, subp=["subcluster", "sub2_", "s7-"][src.weighted([6, 1, 1])],
                    diagp=["diag_cluster", "diag_v3_", "10d"][src.weighted([6, 1, 1])], absolute=not src.flip(0.2))
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.p_preempt = [0.0, 0.05, 0.3, 1.0][src.choose(4)]
    sim.vary_buf = src.flip(0.3)
    window = [1, 3, 8, 30][src.choose(4)]
    pmode = src.choose(3)
    ctx.log("order", order, "folder", os.path.basename(fold), "window", window, "reuse", reuse)
    ncl = 0

    def spawn(st, idx=None, tag=""):
        nonlocal ncl
        ncl += 1
        pid = [None, 4242, 1000 + ncl % 3][pmode]
        host = f"node{ncl}"
        if reuse and st in ("find", "diag"):
            key = lay.key(st, idx)
            data = base[key]
            path = lay.path(key)

            def f(g):
                # stand-in for a task: publishes the undisturbed output under its name, atomically
                tmp = path + f".{ncl}.tmp"
                with open(tmp, "wb") as fh:
                    fh.write(data)
                os.replace(tmp, path)
            p = sim.spawn(f"{st}{idx}{tag}", f, cwd=lay.folder, pid=pid, host=host)
            p.meta.update(st=st, idx=idx, key=key)
            return p
        # the time that generation took is part of what it publishes
        clock = ("steady", 0) if st == "gen" or not src.flip(0.4) else (src.pick(clocks.MODES_ALL), src.choose(1000))
        if clock[0] != "steady":
            ctx.fault("clock_" + clock[0])
        return pl.spawn_stage(sim, lay, st, idx, tag, pid=pid, host=host, clock=clock)

    # generation, possibly twice at the same time
    gens = [spawn("gen")]
    if src.flip(0.2):
        gens.append(spawn("gen", None, "b"))
    sim.run()
    for p in gens:
        done(ctx, p, n)
    # per-cluster tasks: shuffled, some repeated
    tasks = [("find", i) for i in range(1, n + 1)] + [("diag", i) for i in range(1, n + 1)]
    for _ in range(src.geometric(0.4, 4)):
        tasks.append(tasks[src.choose(len(tasks))])
        ctx.fault("duplicate_task")
    if src.flip(0.8):
        tasks = src.shuffle(tasks)
    split = src.flip(0.3)
    if split:
        # as the driver does it: all subclusters first
        tasks.sort(key=lambda t: t[0] != "find")
    need_find = set(range(1, n + 1))
    queue = list(tasks)
    running = []
    agg = None
    aggdone = False
    order_done = []
    while queue or running or not aggdone:
        while queue and len(running) < window:
            st, i = queue.pop(0)
            running.append(spawn(st, i, f".{len(queue)}"))
        if agg is None and not need_find:
            agg = spawn("aggsub")
            running.append(agg)
        sim.step()
        for p in list(running):
            if p.dead:
                running.remove(p)
                done(ctx, p, n)
                order_done.append(p.name)
                ctx.state(order, tuple(sorted(order_done)))
                if p.meta["st"] == "find":
                    need_find.discard(p.meta["idx"])
                if p is agg:
                    aggdone = True
    late = None
    if src.flip(0.25):
        # a requeued task still running while results are aggregated
        st, i = [("find", "diag")[src.choose(2)], 1 + src.choose(n)]
        late = spawn(st, i, ".late")
        ctx.fault("task_during_aggregation")
    fin = spawn("aggres")
    sim.run()
    done(ctx, fin, n)
    if late is not None:
        done(ctx, late, n)
    ctx.state("order", tuple(order_done))
    ctx.counts[f"order_{order}"] += 1
    for key in lay.keys(n):
        if key == "cds":
            continue
        c = pl.read(lay.path(key))
        if c is None:
            raise Violation("output-missing", f"order {order}: {os.path.basename(lay.path(key))} does not exist")
        why = exp.check(key, c)
        if why:
            raise Violation("result-differs", f"order {order}: {os.path.basename(lay.path(key))} differs from the "
                                              f"undisturbed run: {why}")
    ctx.log("published ok")


def driven(ctx, order):
    """the run as the real driver and job scripts organise it"""
    from . import c05
    fold = os.path.join(ctx.scratch, pl.FOLDERS[ctx.src.choose(len(pl.FOLDERS))])
    w = c05.World(ctx, order, fold)
    try:
        ctx.log("driven, order", order, "limit", w.limit, "folder", os.path.basename(fold))
        ctx.counts["driven_runs"] += 1
        w.drive()
        w.check_outputs(pl.Expect(ctx.shared["base"][order]), w.n)
        ctx.counts[f"order_{order}"] += 1
    finally:
        w.sh.close()
    ctx.log("published ok")


def done(ctx, p, n):
    if p.code != 0:
        raise Violation("stage-fails", f"{p.name} failed without any fault: {p.exc} {p.err[-300:]}")
    if p.meta.get("st") == "gen" and p.out.strip() != str(n):
        raise Violation("wrong-cluster-count", f"{p.name} printed {p.out.strip()!r}, expected {n}")

"""Saves without a file name: same second, same process number, threads, processes, clocks of every kind."""
import os
import random
import sys
import threading

from . import calls, canon, clocks, core, pipeline as pl, procsim, saves, world
from .core import Violation
from .threads import Sched

LEVEL = "exploration"
COUNTS = {"quick": 700, "thorough": 20000}
RULE = ("one evaluation = 2-40 saves under automatic names into one folder, by one process in a row, by threads preempted at chosen "
        "lines, or by interleaved processes (same process numbers on several hosts, same seeds of the random generators, some "
        "killed and repeated), under clocks that stand still, jump back or repeat an hour; returned files are compared after every "
        "operation that changed the folder; distinct = different event logs")
STATE_MEASURE = "distinct (mode, clock mode, saves, faults enabled) tuples"
REAL = ["exact_diag save and load", "pickle", "Python threads"]
STUB = ["clocks", "pids and host names", "os.urandom (independent per process)", "process and thread scheduling", "disk faults"]
ASSUMPTIONS = ["os.urandom never repeats"]


def models(ctx, n):
    recs = [saves.recipe(ctx.src) for _ in range(n)]
    return recs, [saves.make(r) for r in recs]


def tell(ms):
    """make models distinguishable by value"""
    for k, m in enumerate(ms):
        m.edsim_tag = float(k) + 0.25
    return ms


class Book:
    """files returned so far and the model each must hold"""

    def __init__(self, ctx, fold):
        self.fold = fold
        self.held = {}
        self.ctx = ctx

    def add(self, name, model, who):
        if not isinstance(name, str):
            raise Violation("no-name", f"{who}: save returned {name!r} instead of a file name")
        path = os.path.realpath(os.path.join(self.fold, name))
        if path in self.held:
            raise Violation("same-name", f"{who}: two saves were given the same file name {name}")
        c = pl.read(path)
        if c is None:
            raise Violation("no-file", f"{who}: the returned file {name} does not exist")
        j = os.path.join(self.ctx.scratch, "judge" + os.path.splitext(path)[1])
        with procsim.R_OPEN(j, "wb") as f:
            f.write(c)
        o = saves.blank(model)
        try:
            with saves.quiet():
                o.load(j)
        except Exception as e:
            raise Violation("not-loadable", f"{who}: the returned file {name} cannot be loaded: {e!r}")
        e = canon.diff(canon.canon(o), canon.canon(model), tol=0)
        if e:
            raise Violation("other-model", f"{who}: the returned file {name} holds another model: {e}")
        self.held[path] = c

    def check(self, when):
        for p, c in self.held.items():
            if pl.read(p) != c:
                raise Violation("overwritten", f"{when}: an earlier automatically named file was {'removed' if pl.read(p) is None else 'changed'}")


def in_a_row(ctx, fold, mode):
    src = ctx.src
    recs, ms = models(ctx, 2)
    book = Book(ctx, fold)
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    n = 2 + src.choose(39)
    seeded = src.flip(0.3)

    def f(g):
        out = []
        for k in range(n):
            if seeded:
                random.seed(0)
                import numpy
                numpy.random.seed(0)
            m = ms[k % 2]
            m.edsim_tag = float(k)
            out.append(m.save())
        return out
    p = sim.spawn("client", f, clock_mode=mode, clock_seed=src.choose(1 << 16), cwd=fold)
    sim.run()
    if p.code != 0:
        raise Violation("save-fails", f"saving under an automatic name failed without any fault: {p.exc} {p.err[-300:]}")
    if len(set(p.value)) != n:
        raise Violation("same-name", f"{n} saves in a row gave {len(set(p.value))} names")
    for k, name in enumerate(p.value):
        m = ms[k % 2]
        m.edsim_tag = float(k)
        book.add(name, m, f"save {k} of {n}")
    ctx.counts["saves"] += n
    ctx.log(n, mode, seeded)
    ctx.state("row", mode, n, seeded)


def processes(ctx, fold, mode):
    src = ctx.src
    n = 2 + src.choose(4)
    recs, ms = models(ctx, n)
    tell(ms)
    book = Book(ctx, fold)
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.p_preempt = [0.0, 0.2, 0.5][src.choose(3)]
    sim.vary_buf = src.flip(0.5)
    sim.on_change = lambda p, kind, info: book.check(f"{p.name} {kind}")
    seeded = src.flip(0.4)
    cs = src.choose(1 << 16)
    faults = src.flip(0.4)
    for rnd in range(1 + src.choose(3)):
        sim.adopt_all()             # the disk has caught up between the rounds
        pl.no_faults(sim)
        if faults:
            pl.set_faults(sim, src)
        ps = []
        per = 1 + src.choose(3)
        for k in range(n):
            def f(g, k=k):
                if seeded:
                    random.seed(0)
                    import numpy
                    numpy.random.seed(0)
                return [ms[k].save() for _ in range(per)]
            ps.append(sim.spawn(f"w{rnd}.{k}", f, clock_mode=mode, clock_seed=cs, cwd=fold, pid=[4242, None][src.choose(2)],
                                host=["node0", f"node{k}"][src.choose(2)], np_inherit=src.flip(0.5)))
        powers = ctx.faults["power_loss"]
        sim.run()
        for k, p in enumerate(ps):
            if p.code == 0:
                if ctx.faults["power_loss"] != powers:
                    continue
                for name in p.value:
                    book.add(name, ms[k], p.name)
                    ctx.counts["saves"] += 1
            elif not faults:
                raise Violation("save-fails", f"{p.name}: saving under an automatic name failed without any fault: {p.exc} {p.err[-300:]}")
        if ctx.faults["power_loss"] != powers:
            # files of this round may be gone; earlier ones are on disk
            book.held = {p: c for p, c in book.held.items() if pl.read(p) == c}
        book.check(f"round {rnd}")
    ctx.state("processes", mode, n, sorted(sim.rates), seeded)


def threads(ctx, fold, mode):
    src = ctx.src
    n = 2 + src.choose(2)
    share = src.flip(0.3)
    recs, ms = models(ctx, 1 if share else n)
    if share:
        ms = ms * n
    else:
        tell(ms)
    book = Book(ctx, fold)
    os.chdir(fold)
    prng = random.Random(src.choose(1 << 16))
    core.seam_entropy(prng.randbytes)
    random.seed(7)
    clock = clocks.Clock(mode, src.choose(1 << 16))
    clocks.install(clock)
    for rnd in range(3):
        kind = ("line", "instr")[src.weighted([3, 1])]
        with saves.quiet(), Sched(kind) as sch:
            per = 1 + src.choose(2)
            tasks = [sch.add(f"t{k}", lambda k=k: [ms[k].save() for _ in range(per)]) for k in range(n)]
            for j in range(1 + src.geometric(0.6, 6)):
                alive = [t for t in tasks if not t.done]
                if not alive:
                    break
                t = alive[src.choose(len(alive))]
                sch.slice(t, (None, 1 + src.choose(40 if kind == "line" else 200)))
            for k in src.shuffle(range(n)):
                sch.slice(tasks[k], None)
            sch.finish()
        for x in sch.trace:
            if x[1] != "end":
                ctx.fault("preemption_" + kind)
        ctx.log(kind, sch.trace)
        for k, t in enumerate(tasks):
            if t.err is not None:
                raise Violation("save-fails", f"thread {k}: {t.err!r}")
            for name in t.out:
                book.add(name, ms[k], f"thread {k} round {rnd}")
                ctx.counts["saves"] += 1
        book.check(f"round {rnd}")
        ctx.steps += len(sch.trace)
    ctx.state("threads", mode, n, tuple(x[1] for x in sch.trace)[:3])
    os.chdir("/")


def run(ctx):
    src = ctx.src
    how = src.stratum(3)
    fold = pl.folder(ctx, src)
    mode = clocks.MODES[src.choose(len(clocks.MODES))]
    ctx.fault("clock_" + mode)
    [processes, threads, in_a_row][how](ctx, fold, mode)

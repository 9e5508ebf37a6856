"""Process-wide settings before and after calls that succeed, fail, are interrupted or overlap."""
import copy
import gc
import io
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from . import calls, core, ops, solverfaults, world
from .c11 import interrupted
from .c14 import ERRORS, Out
from .core import Violation
from .session import Session
from .threads import Sched

LEVEL = "exploration"
COUNTS = {"quick": 560, "thorough": 12000}
RULE = ("{n} catalogued calls, plus saving and loading (also of damaged files), made normally, with failing solvers, with failing output, interrupted at a chosen "
        "line, and overlapping in threads; before them the settings are put into drawn non-default states; after each call "
        "(and, for threads, in each thread) all settings are compared").format(n=len(ops.OPS))
STATE_MEASURE = "distinct (operation, mode, outcome) triples"
REAL = ["all of exact_diag except the batch scripts", "numpy", "scipy"]
STUB = ["thread scheduling", "sys.stdout", "the failing invocation of a solver or of output"]
ASSUMPTIONS = ["settings compared: random and numpy.random global state, numpy error handling and print options, warning filters, "
               "working directory, environment, standard streams, signal handlers, recursion limit, umask, module search path, garbage collection switch"]
SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGPIPE,
        signal.SIGCHLD]


def settings(main=True):
    u = os.umask(0o22)
    os.umask(u)
    st = np.random.get_state()
    d = {
        "random module state": hash(random.getstate()),
        "numpy.random state": (st[0], st[1].tobytes(), st[2:]),
        "numpy error handling": (tuple(sorted(np.geterr().items())), np.geterrcall()),
        "numpy print options": tuple(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": tuple(warnings.filters),
        "showwarning": warnings.showwarning,
        "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "recursion limit": sys.getrecursionlimit(),
        "umask": u,
        "module search path": tuple(sys.path),
        "garbage collection": gc.isenabled(),
        "excepthook": (sys.excepthook, threading.excepthook),
        "switch interval": sys.getswitchinterval(),
    }
    d["signal handlers"] = tuple(signal.getsignal(x) for x in SIGS)
    d["itimer"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    return d


def glance():
    """the settings a call is likely to change for a while, cheaply"""
    return (tuple(map(id, warnings.filters)), id(warnings.showwarning), id(sys.stdout), id(sys.stderr), sys.getrecursionlimit(), os.getcwd(),
            len(os.environ), tuple(np.geterr().values()), np.get_printoptions()["precision"], np.get_printoptions()["threshold"],
            random.getstate()[1][-1], np.random.get_state()[2], gc.isenabled(), signal.getsignal(signal.SIGINT))


def probe(c, kind, total):
    """instants of a call at which a setting is different from before"""
    first, found, n = glance(), [], [0]
    stride = max(1, total // 3000)

    def look(code, pos):
        n[0] += 1
        if n[0] % stride == 0 and len(found) < 64 and glance() != first:
            found.append(n[0])
    with calls.Monitor(kind) as m:
        m.handlers[threading.get_ident()] = look
        try:
            calls.perform(c)
        finally:
            m.handlers.clear()
    return found


def compare(a, b, name, d, how):
    for k in a:
        if a[k] != b[k]:
            raise Violation(f"setting:{k.replace(' ', '_')}", f"{name}({d}) {how} changed {k}")


def unusual(src, ctx):
    """put the settings into some state a program may have chosen"""
    random.seed(src.choose(5))
    np.random.seed(src.choose(5))
    if src.flip(0.3):
        np.random.standard_normal()      # a half-used pair is part of the state
    k = src.choose(5)
    np.seterr(**[dict(all="warn"), dict(all="ignore"), dict(divide="ignore", invalid="warn"), dict(over="print"),
                 dict(under="warn")][k])
    np.set_printoptions(precision=[8, 3, 12][src.choose(3)], suppress=src.flip(0.3))
    warnings.resetwarnings()
    warnings.simplefilter(["default", "ignore", "always"][src.choose(3)])
    if src.flip(0.5):
        warnings.filterwarnings("ignore", message="nothing like this", category=UserWarning)
    sys.setrecursionlimit([1000, 3000][src.choose(2)])
    if src.flip(0.3):
        os.environ["EDSIM_MARK"] = str(src.choose(9))
    for n in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "TMPDIR"):
        if src.flip(0.2):
            os.environ.pop(n, None)
        elif n != "TMPDIR":
            os.environ[n] = str(2 + src.choose(6))      # read when the libraries were loaded, so without effect by now
    os.chdir(ctx.scratch)
    sys.stderr = io.StringIO()


def extra_call(s, ctx):
    """saving and loading are calls too"""
    src = ctx.src
    slots = [n for n in sorted(s.E.obj) if n[0] in "sf"]
    m = s.E.obj[slots[src.choose(len(slots))]]
    ext = [".pkl", ".mat", ".txt"][src.choose(3)]
    how = src.choose(6)
    rel = src.flip(0.4)
    sub = os.path.join(ctx.scratch, "sub")
    os.makedirs(sub, exist_ok=True)
    cut = src.choose(400)

    def f():
        if how >= 4:
            # a file that is cut off or is something else
            name = m.save(os.path.join(sub, "b" + ext))
            with open(name, "rb") as h:
                data = h.read()
            with open(name, "wb") as h:
                h.write(data[:cut] if how == 4 else b"not a model " * 40)
            copy.copy(m).load(os.path.join("sub", os.path.basename(name)) if rel else name)
            return True
        if how == 0:
            return os.path.exists(os.path.join(ctx.scratch, m.save(os.path.join("sub", "m" + ext) if rel else os.path.join(sub, "m" + ext))))
        if how == 1:
            return os.path.exists(os.path.join(ctx.scratch, m.save()))
        name = m.save(os.path.join(sub, "m" + ext)) if how == 2 else os.path.join(sub, "missing" + ext)
        copy.copy(m).load(name)
        return True
    return "save_load", {"ext": ext, "how": how, "rel": rel}, ops.Call(f, post=lambda r: r)


def run(ctx):
    src = ctx.src
    s = Session(ctx)
    solverfaults.install()
    ctl = solverfaults.CTL
    allops = ops.names()
    for rnd in range(8 if ctx.tier == "quick" else 20):
        unusual(src, ctx)
        mode = ["plain", "interrupt", "solver", "output", "threads"][src.weighted([4, 3, 1.5, 1, 2])]
        if src.flip(0.1):
            name, d, c = extra_call(s, ctx)
            if mode == "threads":
                mode = "plain"
        else:
            name, d, c = s.new(allops[src.stratum(len(allops), rnd * 19)] if rnd % 4 != 3 else None)
        if c is None:
            continue
        how = mode
        ctl.reset()
        if mode == "interrupt":
            kind = ("line", "instr")[src.weighted([0.8, 0.2])]
            if name == "save_load":
                pf = calls.Profile()
                with calls.Monitor(kind) as mon:
                    mon.handlers[threading.get_ident()] = pf
                    calls.perform(c)
                prof = pf.data()
            else:
                _, prof = s.ref(name, d, kind=kind)
            tgt = calls.target(src, prof)
            if src.flip(0.5):
                a = settings()
                found = probe(c, kind, prof[0])
                compare(a, settings(), name, d, "undisturbed")
                if found:
                    tgt = (None, found[src.choose(len(found))])
                if name != "save_load":
                    c = s.again(name, d)[2]
            exc = (KeyboardInterrupt, MemoryError)[src.choose(2)]
            a = settings()
            at, err = interrupted(c, kind, tgt, exc)
            b = settings()
            if at.done:
                ctx.fault(exc.__name__)
            how = f"interrupted at {at.where}"
            ctx.log(name, sorted(d.items()), how, type(err).__name__)
        elif mode == "threads":
            kind = "line"
            found = []
            if src.flip(0.6):
                _, prof = s.ref(name, d, kind=kind)
                a = settings()
                found = probe(c, kind, prof[0])
                compare(a, settings(), name, d, "undisturbed")
                c = s.again(name, d)[2]
            todo = [(name, d, c), s.again(name, d) if found else s.near(name, d) if src.flip(0.6) else s.new()]
            todo = [t for t in todo if t[2] is not None]
            refs = [s.ref(t[0], t[1], kind=kind) for t in todo]
            a = settings()

            def body(c):
                x = settings(False)
                calls.perform(c)
                return x, settings(False)
            with Sched(kind) as sch:
                tasks = [sch.add(f"{i}:{t[0]}", lambda t=t: body(t[2])) for i, t in enumerate(todo)]
                if found:
                    # each in the middle of its own change
                    for k in src.shuffle(range(len(tasks))):
                        sch.slice(tasks[k], (None, found[src.choose(len(found))]))
                for j in range(0 if found else 1 + src.geometric(0.5, 3)):
                    k = src.choose(len(tasks))
                    sch.slice(tasks[k], calls.target(src, refs[k][1]))
                # whoever started first may finish first: settings saved by one thread are then restored by the other
                for k in src.shuffle(range(len(tasks))):
                    sch.slice(tasks[k], None)
                sch.finish()
            b = settings()
            for x in sch.trace:
                if x[1] != "end":
                    ctx.fault("preemption")
            ctx.log([(t[0], sorted(t[1].items())) for t in todo], sch.trace)
            for t, task in zip(todo, tasks):
                if task.err is not None:
                    raise task.err
                x, y = task.out
                for key in ("numpy error handling", "numpy print options"):
                    if key == "numpy error handling" and x[key] != y[key]:
                        raise Violation("setting:thread_" + key.replace(" ", "_"), f"{t[0]}({t[1]}) changed {key} of its thread")
            how = f"overlapping with {todo[-1][0]}"
        else:
            if mode == "solver":
                ctl.reset(1 + src.choose(6), ["raise", "partial", "memory"][src.choose(3)])
            if mode == "output":
                kind, make = ERRORS[src.choose(len(ERRORS))]
                sys.stdout = Out(1 + src.choose(4), make)
            a = settings()
            got, _ = calls.perform(c)
            b = settings()
            if mode == "solver" and ctl.fired:
                ctx.fault("solver_failure")
            if mode == "output":
                if sys.stdout.fired if isinstance(sys.stdout, Out) else False:
                    ctx.fault("output_failure")
            ctl.reset()
            ctx.log(name, sorted(d.items()), mode, calls.brief(got))
            ctx.state(name, mode, got[0])
        compare(a, b, name, d, how)
        sys.stdout = s.out
        ctx.steps += 1
        ctx.state(name, mode)
        ctx.counts["calls"] += 1
    os.chdir("/")
    s.close()

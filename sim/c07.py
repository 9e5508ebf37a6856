"""Histories of saving, loading, failing loads and computing."""
import copy
import errno
import io
import os
import pickle
import random
import sys
import threading

import numpy as np

from . import calls, canon, pipeline as pl, procsim, saves, world
from .c14 import ERRORS, Out
from .core import Violation

LEVEL = "fault_enumeration"
COUNTS = {"quick": 800, "thorough": 24000}
RULE = ("histories of 6-14 steps over three objects and several files in both formats: saves, loads, attribute changes, computations, files "
        "removed, truncated at any byte, emptied, overwritten with other data; loads with read errors, interrupts at a chosen instruction "
        "or operation, memory errors and failing output; also saving and loading by different processes of which the saver "
        "is killed; a load that succeeded is compared attribute by attribute with the last saved model, a failed one with the object before")
STATE_MEASURE = "distinct (step, format, state of the file, fault, outcome) tuples"
REAL = ["exact_diag save and load", "pickle", "scipy.io", "CPython file buffering"]
STUB = ["disk errors and process kills", "sys.stdout", "delivery of interrupts", "os.urandom"]
ASSUMPTIONS = ["a .mat file cut exactly between two variables is a valid smaller .mat file and not tried",
               "MATLAB format: numeric values compared, shapes only up to what the format can represent"]


def mat_ok(path):
    """would the library itself accept the file"""
    from scipy.io import loadmat
    try:
        loadmat(path)
        return True
    except Exception:
        return False


def client(plan, recs, fold, seed):
    """the history, run inside a simulated process; raises Violation"""
    def f(g):
        rng = random.Random(seed)
        objs = [saves.make(r) for r in recs]
        fresh = [copy.deepcopy(o) for o in objs]        # version of each object, for computing
        truth = {}                                       # file -> list of candidate models (deep copies), or None if unreadable
        seen = []
        for st in plan:
            kind = st[0]
            if kind == "save":
                _, i, name = st
                ref = copy.deepcopy(objs[i])
                try:
                    objs[i].save(name)
                    truth[name] = [ref]
                    seen.append(("save", name[-4:], "ok"))
                except Exception as e:
                    # with a fault the file holds either (C06)
                    truth[name] = (truth.get(name) or []) + [ref] if truth.get(name, []) is not None else None
                    seen.append(("save", name[-4:], type(e).__name__))
                e = canon.diff(canon.canon(objs[i]), canon.canon(ref), tol=0)
                if e:
                    raise Violation("save-changed-object", f"saving to {name} changed the object: {e}")
            elif kind == "set":
                _, i, k = st
                o = objs[i]
                names = sorted(n for n, v in vars(o).items() if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size and not n.startswith("_"))
                if names:
                    n = names[k % len(names)]
                    if k % 2:
                        setattr(o, n, getattr(o, n) * 1.5 + 0.25)
                    else:
                        a = getattr(o, n)
                        if a.flags.writeable:
                            a += 0.5
            elif kind == "corrupt":
                _, name, how, frac = st
                damage(name, how, frac, truth, seen, rng)
            elif kind == "compute":
                _, i = st
                seen.append(("compute", compute(objs[i], "")))
            elif kind == "load":
                _, i, name, fault, arg = st
                seen.append(load(objs, i, name, fault, arg, truth, g))
        return seen
    return f


def compute(o, where):
    """a loaded or changed model computes what an equal model made afresh computes"""
    if isinstance(getattr(o, "geometry", None), np.ndarray):
        return "mat"
    twin = copy.deepcopy(o)
    try:
        a = canon.canon(o.createH())
    except Exception as e:
        a = type(e).__name__
    try:
        b = canon.canon(twin.createH())
    except Exception as e:
        b = type(e).__name__
    if (a if isinstance(a, str) else None) != (b if isinstance(b, str) else None):
        raise Violation("computes-otherwise", f"createH {where}: {a if isinstance(a, str) else 'ok'} against {b if isinstance(b, str) else 'ok'}")
    if not isinstance(a, str):
        e = canon.diff(a, b)
        if e:
            raise Violation("computes-otherwise", f"createH {where}: {e}")
    return "ok" if not isinstance(a, str) else a


def damage(name, how, frac, truth, seen, rng):
    if truth.get(name, 0) == 0:
        return
    try:
        with procsim.R_OPEN(name, "rb") as fh:
            data = fh.read()
    except OSError:
        return
    if how == "remove":
        procsim.R["unlink"](name)
    else:
        new = {"truncate": data[:int(len(data) * frac)], "empty": b"", "garbage": bytes(rng.randrange(256) for _ in range(200)),
               "tail": data[: max(0, len(data) - 1 - int(frac * 20))],
               "other": pickle.dumps([1, 2, 3]) if name.endswith(".pkl") else data[:130]}[how]
        if new == data:
            return
        with procsim.R_OPEN(name, "wb") as fh:
            fh.write(new)
        if name.endswith(".mat") and mat_ok(name):
            # a valid file of fewer variables: put back
            with procsim.R_OPEN(name, "wb") as fh:
                fh.write(data)
            return
    truth[name] = None
    seen.append(("corrupt", how))


class Intr(KeyboardInterrupt):
    pass


def load(objs, i, name, fault, arg, truth, g):
    o = objs[i]
    before = canon.canon(o)
    cand = truth.get(name, 0)
    err = None
    fired = False
    out = sys.stdout
    mon = at = None
    if fault in ("intr", "mem"):
        exc = Intr if fault == "intr" else MemoryError

        def act():
            raise exc("injected")
        at = calls.At((None, 1 + arg), act)
        mon = calls.Monitor("instr")
        mon.start()
        mon.handlers[threading.get_ident()] = at
    elif fault == "out":
        sys.stdout = Out(1 + arg % 4, ERRORS[arg % len(ERRORS)][1])
    try:
        o.load(name)
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        err = e
    finally:
        if mon is not None:
            mon.handlers.clear()
            mon.stop()
            fired = at.done
        if fault == "out":
            fired = sys.stdout.fired is not None
            sys.stdout = out
    after = canon.canon(o)
    what = f"load of {os.path.basename(name)}" + (f" with {fault} at {arg}" if fault else "")
    if err is None or (fired and fault in ("intr", "mem") and canon.diff(after, before, tol=0)):
        # success, or interrupted after its completion
        if not cand:
            raise Violation("loaded-nothing", f"{what} {'succeeded' if err is None else 'was interrupted and changed the object'} although the file "
                                              f"{'was never saved' if cand == 0 else 'was removed or damaged'}")
        why = None
        for ref in cand:
            why = saves.mat_diff(ref, o) if name.endswith(".mat") else canon.diff(after, canon.canon(ref), tol=0)
            if why is None:
                break
        if why:
            raise Violation("wrong-content", f"{what} gave something else than the last saved model: {why}")
        if name.endswith(".pkl") and err is None:
            r = compute(o, "after " + what)
            # and what the saved model computed
            ref = [q for q in cand if canon.diff(after, canon.canon(q), tol=0) is None][0]
            if not isinstance(getattr(o, "geometry", None), np.ndarray):
                try:
                    a, b = canon.canon(o.createH()), canon.canon(copy.deepcopy(ref).createH())
                except Exception:
                    a = b = ()
                e = canon.diff(a, b)
                if e:
                    raise Violation("computes-otherwise", f"{what}: the loaded model's Hamiltonian is not that of the saved model: {e}")
        if err is None:
            truth[name] = cand if len(cand) == 1 else [ref for ref in cand if (saves.mat_diff(ref, o) if name.endswith(".mat") else canon.diff(after, canon.canon(ref), tol=0)) is None]
    else:
        e = canon.diff(after, before, tol=0)
        if e:
            raise Violation("failed-load-changed-object", f"{what} failed ({type(err).__name__}) but changed the object: {e}")
        if cand and len(cand) == 1 and not fired and fault is None and g is None:
            raise Violation("load-fails", f"{what} failed without any fault: {err!r}")
        if cand and len(cand) == 1 and not fired and not isinstance(err, (OSError, MemoryError, KeyboardInterrupt)):
            raise Violation("load-fails", f"{what} failed on a complete file: {err!r}")
    return ("load", name[-4:], "none" if cand == 0 else "bad" if cand is None else len(cand), fault or "", type(err).__name__ if err else "ok")


def history(ctx):
    src = ctx.src
    fold = pl.folder(ctx, src)
    names = [os.path.join(fold if src.flip(0.5) else "", n) for n in ("a.pkl", "b.mat", "c.pkl", "d.mat")]
    recs = []
    # models of one kind: loading a fermion model into a spin object is not a use of the package
    fam = [["s0", "s1", "s2"], ["f0", "f1", "f2"]][src.choose(2)]
    for k in range(3):
        for _ in range(4):
            r = saves.recipe(src, fam[src.choose(3)])
            if not saves.has_none(saves.make(r)) or src.flip(0.4):
                break
        recs.append(r)
    plan = []
    n = 8 if ctx.tier == "quick" else 16
    for j in range(n):
        k = src.weighted([4, 2, 6, 2.5, 1] if j else [1, 0, 0, 0, 0])
        name = names[src.choose(4)]
        i = src.choose(3)
        if k == 0:
            plan.append(("save", i, name))
        elif k == 1:
            plan.append(("set", i, src.choose(12)))
        elif k == 2:
            fault = [None, "intr", "mem", "out"][src.weighted([5, 3, 1, 1])]
            if fault:
                ctx.fault("load_" + fault)
            # loads mostly go to files that were saved in this history
            saved = [s[2] for s in plan if s[0] == "save"]
            if saved and src.flip(0.85):
                name = saved[src.choose(len(saved))]
            plan.append(("load", i, name, fault, src.choose(160 if name.endswith("pkl") else 400)))
        elif k == 3:
            saved = [s[2] for s in plan if s[0] == "save"]
            how = src.pick(["truncate", "tail", "remove", "empty", "garbage", "other"])
            nm = saved[src.choose(len(saved))]
            plan.append(("corrupt", nm, how, src.choose(1000) / 1000.0))
            ctx.fault("file_" + how)
            plan.append(("load", i, nm, None, 0))
        else:
            plan.append(("compute", i))
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.adopt_all()
    sim.vary_buf = src.flip(0.5)
    if src.flip(0.5):
        sim.rates = [dict(err_read=0.08), dict(err_read=0.05, err_write=0.05), dict(err_write=0.1), dict(mem=0.05), dict(err_write=0.03, short=0.2)][src.choose(5)]
    p = sim.spawn("client", client(plan, recs, fold, src.choose(1 << 16)), cwd=fold)
    sim.run()
    if p.exc and p.exc[0] == "Violation":
        kind, msg = eval(p.exc[1]) if p.exc[1].startswith("(") else ("violation", p.exc[1])
        raise Violation(kind, msg + f"   history: {[tuple(os.path.basename(x) if isinstance(x, str) else x for x in s) for s in plan]}")
    if p.code != 0:
        raise RuntimeError(p.err)
    for s in p.value:
        ctx.state(*s)
        ctx.counts[s[0]] += 1
    ctx.log(p.value)


def across(ctx):
    """one process saves and may be killed, another loads"""
    src = ctx.src
    fold = pl.folder(ctx, src)
    ext = saves.EXTS[src.choose(2)]
    name = os.path.join(fold, "m" + ext)
    recs = {}
    fam = [["s0", "s1", "s2"], ["f0", "f2", "f2"]][src.choose(2)]
    for k in range(3):
        for _ in range(6):
            recs[k] = saves.recipe(src, fam[src.choose(3)])
            if ext != ".mat" or not saves.has_none(saves.make(recs[k])):
                break
    models = {k: saves.make(r) for k, r in recs.items()}
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.adopt_all()
    cand = None
    for k in range(2):
        pl.no_faults(sim)
        if k or src.flip(0.5):
            pl.set_faults(sim, src)
        p = sim.spawn(f"saver{k}", lambda g, r=recs[k]: saves.make(r).save(name), cwd=fold)
        powers = ctx.faults["power_loss"]
        sim.run()
        if p.code == 0 and ctx.faults["power_loss"] == powers:
            cand = {k}
        else:
            cand = (cand if cand is not None else {None}) | {k}
            if ctx.faults["power_loss"] != powers:
                cand |= {None} | set(range(k))       # a power loss may bring back what was there before the last save
    pl.no_faults(sim)
    if src.flip(0.3):
        sim.rates = dict(err_read=0.15, mem=0.05)

    def loader(g):
        o = saves.make(recs[2])
        before = canon.canon(o)
        try:
            o.load(name)
        except Exception as e:
            d = canon.diff(canon.canon(o), before, tol=0)
            if d:
                raise Violation("failed-load-changed-object", f"load failed with {e!r} but changed the object: {d}")
            return ("failed", type(e).__name__)
        hit = set()
        why = ""
        for k in (0, 1):
            d = saves.mat_diff(models[k], o) if ext == ".mat" else canon.diff(canon.canon(o), canon.canon(models[k]), tol=0)
            if d is None:
                hit.add(k)
            why = why or d
        return ("loaded", hit, why)
    p = sim.spawn("loader", loader, cwd=fold)
    sim.run()
    if p.exc and p.exc[0] == "Violation":
        raise Violation(*eval(p.exc[1]))
    if p.code != 0:
        raise RuntimeError(p.err)
    ctx.log(p.value, cand)
    ctx.state(ext, p.value[0], sorted(map(str, cand)))
    if p.value[0] == "loaded":
        if not (p.value[1] & (cand - {None})):
            raise Violation("wrong-content", f"another process loaded something else than a completely saved model ({ext}): {p.value[2]}; expected version {cand}")
    elif None not in cand and not p.faulted:
        raise Violation("load-fails", f"loading a saved {ext} model failed without any fault: {p.value[1]}")


def run(ctx):
    if ctx.src.stratum(4) == 3:
        across(ctx)
    else:
        history(ctx)

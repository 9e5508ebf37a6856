"""Interrupts and memory shortage at a chosen line or instruction of a call."""
import threading

from . import calls, core, ops, world
from .core import Violation
from .session import Session

LEVEL = "fault_enumeration"
COUNTS = {"quick": 400, "thorough": 16000}
RULE = ("rounds over {n} catalogued calls: a KeyboardInterrupt or MemoryError is raised at a chosen line or bytecode instruction "
        "that the call passes (70% uniform over distinct positions, 30% uniform in time; also several continuations of one state); then every object and argument must be "
        "as before, and the same call, a near-duplicate and another call must give the answers of a fresh process").format(n=len(ops.OPS))
STATE_MEASURE = "distinct (operation, interrupted position, kind) triples"
REAL = ["all of exact_diag except the batch scripts", "numpy", "scipy"]
STUB = ["delivery of the interrupt (raised by the simulator at the chosen instant)", "sys.stdout (memory)"]
ASSUMPTIONS = ["interrupts arrive between lines or instructions of the package, not inside numpy and scipy"]


class Interrupt(KeyboardInterrupt):
    pass


def interrupted(c, kind, tgt, exc):
    """make the call with exc raised at the instant; (fired at, escaped exception or None)"""
    def act():
        raise exc("injected")
    at = calls.At(tgt, act)
    err = None
    with calls.Monitor(kind) as m:
        m.handlers[threading.get_ident()] = at
        try:
            calls.perform_raw(c)
        except BaseException as e:
            err = e
        finally:
            m.handlers.clear()
    return at, err


BRANCHES = {"quick": 4, "thorough": 16}


def branches(ctx, s, kind, name, d, c, want, prof):
    """several continuations of this state: in each the call is interrupted elsewhere, then made again, and one like it"""
    src = ctx.src
    name2, d2, c2 = s.near(name, d)
    want2 = s.ref(name2, d2)[0] if c2 is not None else None

    def go(tgt, exc):
        objs, args = s.objects(), calls.snap(c)
        at, err = interrupted(c, kind, tgt, exc)
        if not at.done:
            return None
        e = calls.same_snap(args, calls.snap(c)) or calls.same_snap(objs, s.objects())
        if e:
            raise Violation("args:" + name, f"{name}({d}) interrupted at {at.where} left something changed: {e}")
        calls.check("after-interrupt", calls.perform(c)[0], want, name, d)
        if c2 is not None:
            calls.check("near-after-interrupt", calls.perform(c2)[0], want2, name2, d2)
        return at.where
    for _ in range(BRANCHES[ctx.tier]):
        tgt = calls.target(src, prof)
        exc = (KeyboardInterrupt, MemoryError)[src.weighted([0.6, 0.4])]
        where = core.branch(lambda: go(tgt, exc))
        ctx.steps += 1
        ctx.counts["branches"] += 1
        ctx.log("branch", kind, name, sorted(d.items()), tgt, exc.__name__, where)
        if where:
            ctx.fault(exc.__name__ + "_" + kind)
            ctx.state(name, where, exc.__name__)


def run(ctx):
    src = ctx.src
    s = Session(ctx)
    allops = ops.names()
    rounds = 6 if ctx.tier == "quick" else 14
    for rnd in range(rounds):
        kind = ("line", "instr")[src.weighted([0.6, 0.4])]
        name, d, c = s.new(allops[src.stratum(len(allops), rnd * 17)] if rnd % 3 != 2 else None)
        if c is None:
            continue
        want, prof = s.ref(name, d, kind=kind)
        if src.flip(0.3):
            s.plain(name, d, c, want=want)
            name, d, c = s.again(name, d)
        dirty = None
        if src.flip(0.35):
            # are there instants at which something is temporarily different? then interrupt there
            w, _ = calls.watched(c, kind, s.everything(), prof[0])
            ctx.counts["looks"] += w.looks
            if w.found:
                dirty = (None, w.found[src.choose(len(w.found))][0])
            name, d, c = s.again(name, d)
        if prof[0] <= 2000 and src.flip(0.5):
            branches(ctx, s, kind, name, d, c, want, prof)
        for j in range(1 + src.geometric(0.4, 2)):
            tgt = calls.target(src, prof)
            if dirty is not None and j == 0:
                tgt = dirty
            exc = (KeyboardInterrupt, MemoryError)[src.weighted([0.6, 0.4])]
            objs = s.objects()
            args = calls.snap(c)
            at, err = interrupted(c, kind, tgt, exc)
            ctx.steps += 1
            ctx.log(kind, name, sorted(d.items()), tgt, exc.__name__, at.where, type(err).__name__)
            if not at.done:
                ctx.counts["instant_not_reached"] += 1
                continue
            ctx.fault(exc.__name__ + "_" + kind)
            ctx.state(name, at.where, exc.__name__)
            e = calls.same_snap(args, calls.snap(c))
            if e:
                raise Violation("args:" + name, f"{name}({d}) interrupted at {at.where} left what it was given changed: {e}")
            e = calls.same_snap(objs, s.objects())
            if e:
                raise Violation("objects:" + name, f"{name}({d}) interrupted at {at.where} left an object changed: {e}")
        s.plain(name, d, c, what="after-interrupt", want=want)
        if src.flip(0.6):
            s.plain(*s.near(name, d), what="near-after-interrupt")
        if src.flip(0.3):
            s.plain(*s.new(), what="other-after-interrupt")
    s.recheck()
    s.close()

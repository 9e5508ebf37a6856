"""Numerical routines that fail at a chosen invocation."""
from . import calls, core, ops, solverfaults
from .core import Violation
from .session import Session

LEVEL = "fault_enumeration"
COUNTS = {"quick": 480, "thorough": 8000}
RULE = ("calls that use numerical routines; for each drawn call the invocations of all routines are counted, then chosen "
        "invocations fail (error raised, partial convergence, success flag false with a displaced answer, out of memory); "
        "the call must raise or give the fault-free answer, and give it again once the routine works")
STATE_MEASURE = "distinct (operation, failed routine, invocation number, way of failing, outcome) tuples"
REAL = ["exact_diag", "numpy", "scipy, when no failure is injected"]
STUB = ["the failing invocation of the numerical routine"]
ASSUMPTIONS = ["routines fail by raising what they raise, or by their success flag; silently wrong numbers of a library are out of scope"]
HOW = ["raise", "partial", "memory"]


def run(ctx):
    src = ctx.src
    s = Session(ctx)
    solverfaults.install()
    ctl = solverfaults.CTL
    names = ops.names("solver") + ops.names("build")
    more = ops.names()
    for rnd in range(7 if ctx.tier == "quick" else 16):
        if rnd % 5 != 4:
            nm = names[src.stratum(len(names), rnd * 3)]
        else:
            nm = more[src.stratum(len(more), rnd * 7)]
        name, d, c = s.new(nm)
        if c is None:
            continue
        want, _ = s.ref(name, d)
        ctl.reset()
        s.plain(name, d, c, what="before", want=want)
        total = ctl.n
        ctx.counts["invocations"] += total
        if not total:
            continue
        for j in range(3):
            at = 1 + src.choose(total)
            how = HOW[src.weighted([4, 2, 1])]
            persist = src.flip(0.25)
            name, d, c = s.again(name, d)
            before = calls.snap(c)
            ctl.reset(at, how, persist)
            got, r = calls.perform(c)
            fired = ctl.fired
            ctl.reset()
            ctx.steps += 1
            if fired:
                ctx.fault(fired + ":" + how + ("_and_later" if persist else ""))
            ctx.state(name, fired, at, how, got[0])
            ctx.log(name, sorted(d.items()), fired, at, how, calls.brief(got))
            if got[0] == "ok":
                if want[0] != "ok":
                    raise Violation("result-instead-of-error:" + name, f"{name}({d}) with {fired} failing ({how}, invocation {at}) returned, normally it raises {want[1]}")
                e = calls.diff(got[1], want[1], tol=1e-7)
                if e:
                    raise Violation("wrong-result:" + name, f"{name}({d}) with {fired} failing ({how}, invocation {at} of {total}) returned a wrong result: {e}")
            e = calls.same_snap(before, calls.snap(c))
            if e:
                raise Violation("modified:" + name, f"{name}({d}) with {fired} failing changed what it was given: {e}")
            s.plain(name, d, c, what="after-solver-failure", want=want)
    s.recheck()
    s.close()

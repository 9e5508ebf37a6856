"""Histories of calls on shared objects: every answer equals that of a fresh process, and nothing given to a call changes."""
from . import calls, ops, world
from .core import Violation
from .session import Session, scribble

LEVEL = "exploration"
COUNTS = {"quick": 640, "thorough": 16000}
RULE = ("seeded histories of 10-24 calls over {n} catalogued calls on models sharing geometries; each history mixes "
        "repeats, near-duplicates (one argument changed), other objects, attribute changes, relabellings, edits of the caller's "
        "own arrays in place, scribbling over returned results, and calls that fail; each answer is compared with the same call "
        "in a fresh process, each argument with its value before").format(n=len(ops.OPS))
STATE_MEASURE = "distinct (operation, preceding kind of step, outcome) triples"
REAL = ["all of exact_diag except the batch scripts", "numpy", "scipy"]
STUB = ["sys.stdout (memory)"]
ASSUMPTIONS = ["the reference is the same code in a fresh process: a defect that does not depend on history is not seen",
               "numerical results compared to 1e-9; eigenvectors up to phase and basis of a degenerate space"]


def run(ctx):
    src = ctx.src
    s = Session(ctx)
    n = 14 if ctx.tier == "quick" else 30
    first = ops.names()[src.stratum(len(ops.OPS))]
    hist = []          # (name, params)
    live = None        # a call whose argument objects are still in the caller's hands
    for step in range(n):
        kinds = ["new", "repeat", "near", "mutate", "edit", "focus"]
        k = kinds[src.weighted([2, 2, 4, 2, 1.5, 2] if hist else [1, 0, 0, 0, 0, 6])]
        ctx.log("step", k)
        if k == "mutate":
            slot = sorted(s.E.obj)[src.choose(len(s.E.obj))]
            p = world.P(src=src)
            world.mutate(s.E, slot, p)
            s.E.events.append(("mut", slot, p.d))
            ctx.fault("attribute_change" if slot[0] != "g" else "relabelling")
            ctx.log(slot, sorted(p.d.items()))
            # what was computed last, on the changed object
            name, d, c = s.again(*hist[-1 - src.choose(min(3, len(hist)))]) if hist else s.new()
        elif k == "repeat":
            name, d, c = s.again(*hist[-1 - src.choose(min(4, len(hist)))])
        elif k == "near":
            name, d, c = s.near(*hist[-1 - src.choose(min(3, len(hist)))])
        elif k == "edit" and live is not None:
            name, d, c, edits = live
            e = src.choose(6)
            # a function returned by the call may refer to the caller's array
            s.kept = [x for x in s.kept if not (x[0] == name and x[1] is d)]
            if calls.edit(c, e):
                edits = edits + [e]
                ctx.fault("argument_edited_in_place")
                s.plain(name, d, c, edits=edits, keep=False)
                live = (name, d, c, edits)
                ctx.state(name, "edit")
            continue
        elif k == "focus":
            name, d, c = s.new(first)
        else:
            name, d, c = s.new()
        if c is None:
            continue
        will_scribble = src.flip(0.3)
        r = s.plain(name, d, c, keep=not will_scribble)
        if r is None:
            ctx.counts["failed_calls"] += 1
        ctx.state(name, k, r is None)
        hist.append((name, dict(d)))
        live = (name, d, c, [])
        if will_scribble and r is not None:
            # the caller uses the returned arrays as its own
            before = s.objects()
            if scribble(r):
                ctx.fault("result_scribbled")
                e = calls.same_snap(before, s.objects())
                if e:
                    raise Violation("aliased", f"changing a returned array changed an object: {hist[-1]}: {e}")
                live = None          # the result may legitimately be (a view of) what the caller passed in
                if src.flip(0.6):
                    name, d, c = s.again(*hist[-1])
                    if c is not None:
                        s.plain(name, d, c)
                        ctx.state(name, "scribbled", False)
        del c, r
    s.recheck()
    s.close()

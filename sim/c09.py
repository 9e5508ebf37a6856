"""Threads on shared objects, scheduled line by line or instruction by instruction."""
from . import calls, core, ops
from .core import Violation
from .session import Session
from .threads import Sched

LEVEL = "exploration"
COUNTS = {"quick": 360, "thorough": 16000}
RULE = ("seeded rounds of 2-3 threads making catalogued calls ({n} operations) on shared geometries, models and arrays; "
        "the scheduler preempts a thread at a chosen line or bytecode instruction of the package, runs others, and resumes "
        "(1-5 hand-overs per round), and sweeps the position of one preemption over the same pair of calls, also from the state before any of them; every answer is compared with the same call alone in a fresh process, "
        "all shared objects with their values before").format(n=len(ops.OPS))
STATE_MEASURE = "distinct (operation, position where it was preempted, operation run meanwhile) triples"
REAL = ["all of exact_diag except the batch scripts", "Python threads", "numpy", "scipy"]
STUB = ["thread scheduling (one thread at a time, hand-over decided by the seed)", "sys.stdout (memory)"]
ASSUMPTIONS = ["no hand-over inside numpy and scipy code, which the package does not own"]

SWEEP = {"quick": 6, "thorough": 40}


def sweep(ctx, s, kind, todo, refs):
    """the same two calls again and again, the first preempted somewhere else each time; half of the tries start from the
    state the process was in before (whatever the calls may keep is not there yet)"""
    src = ctx.src
    left = [k for k, _ in refs[0][1][1]]
    times, other = dict(refs[0][1][1]), dict(refs[1][1][1])

    def go(k, n, n2):
        with Sched(kind) as sch:
            a, b = [sch.add(f"{i}:{t[0]}", lambda t=t: calls.perform(t[2])) for i, t in enumerate(todo)]
            sch.slice(a, (k, n))
            if n2:
                sch.slice(b, (k, n2))
                sch.slice(a, None)
            sch.slice(b, None)
            sch.finish()
        for t, task, (want, _) in zip(todo, (a, b), refs):
            if task.err is not None:
                raise task.err
            calls.check("threads", task.out[0], want, t[0], t[1])
        return sch.trace
    for j in range(min(SWEEP[ctx.tier], len(left))):
        k = left.pop(src.choose(len(left)))
        n = 1 + src.choose(times[k])
        n2 = 1 + src.choose(other[k]) if k in other and src.flip(0.3) else 0
        ctx.log("sweep", kind, todo[0][0], sorted(todo[0][1].items()), todo[1][0], sorted(todo[1][1].items()), k, n, n2)
        trace = core.branch(lambda: go(k, n, n2)) if j < SWEEP[ctx.tier] * 2 // 3 else go(k, n, n2)
        ctx.log(trace)
        ctx.steps += len(trace)
        ctx.counts["sweep_steps"] += 1
        ctx.fault("preemption_" + kind)
        ctx.state(todo[0][0], trace[0][1], todo[1][0])


def run(ctx):
    src = ctx.src
    # pyplot keeps one current figure per process: drawing is not meant for threads
    allops = ops.names(without=("once",))
    s = Session(ctx, names=allops)
    rounds = 8 if ctx.tier == "quick" else 16
    for rnd in range(rounds):
        kind = ("line", "instr")[src.weighted([0.75, 0.25])]
        name, d, c = s.new(allops[src.stratum(len(allops), rnd * 13)] if rnd % 2 == 0 else None)
        if c is None:
            continue
        todo = [(name, d, c)]
        for _ in range(1 + src.flip(0.25)):
            k = src.weighted([2, 5, 3])
            if k == 0:
                todo.append((name, d, c))
            elif k == 1:
                todo.append(s.near(name, d))
            else:
                todo.append(s.new())
        todo = [t for t in todo if t[2] is not None]
        refs = [s.ref(n, q, kind=kind) for n, q, _ in todo]
        if src.flip(0.4):
            # an observer at every position
            w, (got, r) = calls.watched(c, kind, s.everything(), refs[0][1][0])
            ctx.fault("observed_call")
            ctx.counts["looks_by_observer"] += w.looks
            ctx.log("observed", kind, name, sorted(d.items()), w.n, w.looks)
            if w.found:
                raise Violation("visible:" + name, f"{name}({d}) at {w.found[0][1]}: other threads see {w.found[0][2]}")
            calls.check("observed", got, refs[0][0], name, d)
        before = s.objects()
        args = [calls.snap(t[2]) for t in todo]
        if len(todo) > 1 and refs[0][1][0] <= 1500 and refs[1][1][0] <= 1500:
            sweep(ctx, s, kind, todo[:2], refs[:2])
        with Sched(kind) as sch:
            tasks = [sch.add(f"{i}:{t[0]}", lambda t=t: calls.perform(t[2])) for i, t in enumerate(todo)]
            switches = 1 + src.geometric(0.45, 4)
            cur = 0
            if len(tasks) > 1 and src.flip(0.25):
                # two calls in the same place
                tgt = calls.target(src, refs[0][1])
                both = {k for k, _ in refs[1][1][1]} & {tgt[0]} if tgt else ()
                if both:
                    switches = 0
                    sch.slice(tasks[0], tgt)
                    sch.slice(tasks[1], (tgt[0], 1 + src.choose(min(tgt[1], dict(refs[1][1][1])[tgt[0]]))))
                    sch.slice(tasks[0], None if src.flip(0.6) else calls.target(src, refs[0][1]))
            for j in range(switches):
                alive = [i for i in range(len(tasks)) if not tasks[i].done]
                if not alive:
                    break
                cur = alive[src.choose(len(alive))] if j else 0
                if j and src.flip(0.4):
                    sch.slice(tasks[cur], None)
                else:
                    sch.slice(tasks[cur], calls.target(src, refs[cur][1]))
            rest = src.shuffle([i for i in range(len(tasks)) if not tasks[i].done])
            # usually everybody else finishes before the thread that was preempted goes on
            for i in rest:
                if i != cur:
                    sch.slice(tasks[i], None)
            sch.finish()
        ctx.steps += len(sch.trace)
        ctx.counts["rounds"] += 1
        for i, (who, where) in enumerate(sch.trace):
            if where != "end":
                ctx.fault("preemption_" + kind)
                nxt = sch.trace[i + 1][0] if i + 1 < len(sch.trace) else ""
                ctx.state(who[2:], where, nxt[2:])
        ctx.log(kind, [(t[0], sorted(t[1].items())) for t in todo], sch.trace)
        for t, task, (want, _) in zip(todo, tasks, refs):
            if task.err is not None:
                raise task.err
            got, r = task.out
            calls.check("threads", got, want, t[0], t[1])
            if got[0] == "ok":
                s.kept.append((t[0], t[1], t[2].post, r, got[1]))
        for t, a in zip(todo, args):
            e = calls.same_snap(a, calls.snap(t[2]))
            if e:
                raise Violation("threads-modified:" + t[0], f"{t[0]}({t[1]}) left what it was given changed: {e}")
        e = calls.same_snap(before, s.objects())
        if e:
            raise Violation("threads-objects", f"shared objects changed by {[t[0] for t in todo]}: {e}")
    s.recheck()
    s.close()

"""C02: a batch output file is absent, the previous complete one, or the new one"""
import os

from . import pipeline as pl
from . import procsim
from .core import Violation
from .pipeline import Layout

LEVEL = "fault_enumeration"
COUNTS = {"quick": 900, "thorough": 40000}
RULE = ("one evaluation = one simulated execution of one or several instances of a stage with injected faults, the published files "
        "compared after every operation that changed the disk; distinct = different event logs")
STATE_MEASURE = "distinct (stage, operation at which a fault fired, fault kind, state of the output before and after)"
REAL = ["cluster/*.py stage scripts", "exact_diag.ed_io", "CPython file buffering", "pickle"]
STUB = ["disk (errors, short and torn writes, full disk, power loss with unsynced data lost or torn)", "process scheduler", "clocks",
        "os.urandom", "pids and host names"]
ASSUMPTIONS = ["fsync makes the data of its file and all earlier metadata operations durable; anything else may be lost, metadata in "
               "order, data in any way (journalling file system)",
               "after a power loss the complete previous version may be back even if the stage had exited successfully"]


def prepare(tier):
    return {"base": {o: pl.baseline(o) for o in (2, 3)}}


STAGES = ["gen", "gens", "find", "aggsub", "diag", "aggres"]
NEEDS = {"gen": [], "gens": [], "find": ["cd"], "aggsub": ["cd", "sub*"], "diag": ["cd"], "aggres": ["agg", "diag*"]}


def expand(keys, n):
    out = []
    for k in keys:
        if k.endswith("*"):
            out += [f"{k[:-1]}{i}" for i in range(1, n + 1)]
        else:
            out.append(k)
    return out


def run(ctx):
    src = ctx.src
    st = STAGES[src.stratum(len(STAGES))]
    order = [2, 3][src.weighted([4, 1])]
    base = ctx.shared["base"][order]
    n = pl.NCLUSTERS[order]
    exp = pl.Expect(base)
    fold = pl.folder(ctx, src)
    lay = Layout(fold, order, absolute=not src.flip(0.3))
    idx = 1 + src.choose(n) if st in ("find", "diag") else None
    key = lay.key(st, idx)
    files = {}
    for k in expand(NEEDS[st], n):
        files[k] = base[k]
    # other published files lying around must survive as well
    if src.flip(0.3):
        for k in base:
            if k not in files and k != key and not (st in ("aggsub", "aggres") and False):
                files[k] = base[k]
    prev = None
    if src.flip(0.5):
        prev = pl.repickle(base[key])
        files[key] = prev
    for k, b in files.items():
        with open(lay.path(k), "wb") as f:
            f.write(b)
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.adopt_all()
    sim.vary_buf = src.flip(0.7)
    sim.p_preempt = 0.2
    known = {k: v for k, v in files.items() if k != key}
    must_exist = prev is not None
    last = {"where": "start"}

    def look(p, kind, info):
        last["where"] = f"{p.name} {kind}"
        c = pl.read(lay.path(key))
        if c is None:
            if must_exist:
                raise Violation("previous-version-lost", f"{st}: {os.path.basename(lay.path(key))} vanished during "
                                                         f"{last['where']}")
        elif c != prev:
            why = exp.check(key, c)
            if why:
                raise Violation("partial-output", f"{st}: {os.path.basename(lay.path(key))} ({len(c)} bytes) is neither "
                                                  f"the previous nor the complete new version at {last['where']}: {why}")
        for k, b in known.items():
            c = pl.read(lay.path(k))
            if c != b and (c is None or exp.check(k, c)):
                raise Violation("other-file-damaged", f"{st}: {os.path.basename(lay.path(k))} was changed at "
                                                      f"{last['where']}")
    sim.on_change = look
    ctx.log("stage", st, idx or "", "order", order, "previous" if prev else "absent")
    # up to three attempts, faults on in all but perhaps the last; some with a duplicate running beside
    for attempt in range(1 + src.geometric(0.4, 2)):
        pl.set_faults(sim, src)
        if attempt and src.flip(0.4):
            pl.no_faults(sim)
        gated = "err_stdout" in sim.rates
        ps = [pl.spawn_stage(sim, lay, st, idx, f"#{attempt}", pid=[None, 77][src.choose(2)], stdout_gated=gated)]
        if src.flip(0.25):
            ps.append(pl.spawn_stage(sim, lay, st, idx, f"#{attempt}b", pid=77, host="node1", stdout_gated=gated))
        powers = ctx.faults["power_loss"]
        sim.run()
        for p in ps:
            ctx.state(st, p.code, p.exc[0] if p.exc else "", sorted(sim.rates), prev is not None)
            if p.code == 0:
                ctx.counts["successful_stages"] += 1
                c = pl.read(lay.path(key))
                if ctx.faults["power_loss"] == powers:
                    if c is None:
                        raise Violation("success-without-output", f"{st} exited successfully but "
                                                                  f"{os.path.basename(lay.path(key))} does not exist")
                    why = exp.check(key, c)
                    if why:
                        raise Violation("success-with-partial-output", f"{st} exited successfully but its output is "
                                                                       f"not complete: {why}")
                if not must_exist and ctx.faults["power_loss"] == powers and len(ps) == 1:
                    pass
            elif not p.faulted and sim.full_after is None and all(not q.faulted for q in ps):
                raise Violation("stage-fails", f"{p.name} failed without any fault: {p.exc} {p.err[-300:]}")
    if src.flip(0.4):
        sim.power_loss()
        look(type("P", (), {"name": "power loss at the end"}), "power", {})
    if prev is not None and not st.startswith("gen") and src.flip(0.0):
        pass


def expect(tier):
    return ["power_loss", "kill", "torn_write_kill", "short_write", "disk_full", "keyboard_interrupt", "memory_error",
            "power_loss_unsynced_data_lost"]

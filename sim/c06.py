"""Saving over a saved model, with every file operation failing, cut short or followed by a crash."""
import os

from . import pipeline as pl
from . import procsim, saves
from .core import Violation

LEVEL = "fault_enumeration"
COUNTS = {"quick": 900, "thorough": 30000}
RULE = ("one evaluation = a file with or without a previously saved model, and one to three processes saving other models to it with "
        "injected kills, power losses, full disk, I/O errors, short and torn writes, interrupts, and models that cannot be "
        "serialised; the file is judged by loading it after every operation that changed the disk; distinct = different event logs")
STATE_MEASURE = "distinct (format, previous version or none, outcome of the save, fault kinds enabled) tuples"
REAL = ["exact_diag save and load, ed_io", "pickle", "scipy.io", "CPython file buffering"]
STUB = ["disk (errors, short and torn writes, full disk, power loss with unsynced data lost or torn)", "process scheduler", "clocks",
        "os.urandom", "pids and host names"]
ASSUMPTIONS = ["fsync makes the data of its file and all earlier metadata operations durable; anything else may be lost, metadata in order",
               "after a power loss the complete previous version may be back even if the save had reported success"]


def saver(rec, name, spoil, retry):
    def f(g):
        m = saves.make(rec)
        if spoil:
            # pickle cannot serialise a lambda, the MATLAB format has no None
            m.zzz_note = (lambda: 0) if name.endswith(".pkl") else None
        for k in range(1 + retry):
            try:
                return m.save(name)
            except Exception:
                if k == retry:
                    raise
    return f


def run(ctx):
    src = ctx.src
    ext = saves.EXTS[src.weighted([3, 2])]
    fold = pl.folder(ctx, src)
    name = src.pick(["model", "m 1", "a.b", "x.pkl"]) + ext
    path = os.path.join(fold, name)
    arg = path if src.flip(0.5) else name
    slot = None
    recs = {}
    for k in range(3):
        if ext == ".mat":
            slot = ["s0", "s2", "f2"][src.choose(3)]
        for _ in range(6):
            recs[k] = saves.recipe(src, slot)
            if ext != ".mat" or not saves.has_none(saves.make(recs[k])):
                break
    models = {k: saves.make(r) for k, r in recs.items()}
    judge = saves.Judge(ctx, models)
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    sim.adopt_all()
    prev = src.flip(0.65)
    other = os.path.join(fold, "other" + ext)
    if prev:
        for p in (arg, other):
            q = sim.spawn("first", saver(recs[0], p, 0, 0), cwd=fold)
            sim.run()
            if q.code != 0:
                if ext == ".mat" and saves.has_none(models[0]):
                    prev = False
                    break
                raise Violation("save-fails", f"saving a model to {p} failed without any fault: {q.exc}")
    if prev:
        c = pl.read(path)
        w = judge.which(c, ext) if c is not None else "no file"
        if isinstance(w, str) or 0 not in w:
            raise Violation("save-incomplete", f"an undisturbed save to {name}: {w}")
        for fn in os.listdir(fold):
            if fn not in (name, "other" + ext):
                ctx.counts["leftover_files"] += 1
        keep = pl.read(other)
    sim.adopt_all()
    sim.vary_buf = src.flip(0.7)
    sim.p_preempt = 0.2
    # versions the file may hold, whether it may be absent; and the same before the last success, which a power loss can bring back
    S = {"ok": {0} if prev else set(), "absent": not prev, "ok0": set(), "absent0": False}
    ctx.log("ext", ext, "previous", prev)

    def look(p, kind, info):
        if kind == "power":
            S["ok"] = S["ok"] | S["ok0"]
            S["absent"] = S["absent"] or S["absent0"]
        c = pl.read(path)
        if c is None:
            if not S["absent"]:
                raise Violation("previous-version-lost", f"{name} vanished at {p.name} {kind}")
        else:
            w = judge.which(c, ext)
            if isinstance(w, str) or not (w & S["ok"]):
                raise Violation("partial-file", f"{name} ({len(c)} bytes) is neither the previous nor the complete new model at "
                                                f"{p.name} {kind}: {w}")
        if prev and pl.read(other) != keep:
            raise Violation("other-file-damaged", f"other{ext} changed at {p.name} {kind}")
    sim.on_change = look
    for attempt in range(1 + src.geometric(0.45, 2)):
        pl.set_faults(sim, src)
        if attempt and src.flip(0.3):
            pl.no_faults(sim)
        gated = "err_stdout" in sim.rates
        who = []
        before = (set(S["ok"]), S["absent"])
        for j in range(2 if src.flip(0.2) else 1):
            v = src.choose(3)
            spoil = src.flip(0.2)
            if spoil:
                ctx.fault("unserialisable_model")      # such a model is never completely in the file
            else:
                S["ok"] = S["ok"] | {v}
            who.append((v, spoil, sim.spawn(f"save{attempt}{'ab'[j]}", saver(recs[v], arg, spoil, src.choose(2)), cwd=fold,
                                            stdout_gated=gated, pid=[None, 77][src.choose(2)])))
        powers = ctx.faults["power_loss"]
        sim.run()
        for v, spoil, p in who:
            ctx.state(ext, prev, p.code, p.exc[0] if p.exc else "", sorted(sim.rates))
            if p.code == 0:
                ctx.counts["successful_saves"] += 1
                if spoil and ext == ".mat":
                    continue            # a format that drops what it cannot hold is not a failed save
                if spoil:
                    raise Violation("success-without-file", f"save reported success for a model that cannot be serialised")
                if ctx.faults["power_loss"] == powers:
                    c = pl.read(path)
                    w = judge.which(c, ext) if c is not None else "does not exist"
                    if isinstance(w, str) or (len(who) == 1 and v not in w):
                        raise Violation("success-without-file", f"save reported success but {name} {w}, not the new model")
                    S["absent"], S["absent0"], S["ok0"] = False, before[1], before[0]
                    if len(who) == 1:
                        S["ok"] = set(w)
            elif not spoil and sim.full_after is None and not any(q.faulted for _, _, q in who):
                if not (ext == ".mat" and saves.has_none(models[v])):
                    raise Violation("save-fails", f"{p.name} failed without any fault: {p.exc} {p.err[-300:]}")
    if src.flip(0.3):
        sim.power_loss()
        look(type("P", (), {"name": "power loss"}), "power", {})


def expect(tier):
    return ["power_loss", "kill", "torn_write_kill", "short_write", "disk_full", "keyboard_interrupt", "memory_error",
            "unserialisable_model"]

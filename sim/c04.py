"""C04: aggregation never publishes from an incomplete or unreadable set of files"""
import errno
import os
import pickle

import numpy as np

from . import pipeline as pl
from . import procsim
from .core import Violation
from .pipeline import Layout

LEVEL = "fault_enumeration"
COUNTS = {"quick": 1300, "thorough": 60000}
RULE = ("one evaluation = one simulated aggregation of a set of per-cluster files of which some were removed, truncated, emptied, "
        "garbled, made unreadable or joined by files that do not belong, before or while it ran; distinct = different event logs")
STATE_MEASURE = "distinct (stage, order, kinds and clusters of damage, moment)"
REAL = ["cluster/aggregate_subclusters.py", "cluster/aggregate_results.py", "exact_diag.ed_nlce", "pickle"]
STUB = ["disk (damaged files, read errors, listing order)", "clocks"]
ASSUMPTIONS = ["a file is damaged only in ways that change its bytes to a proper prefix, nothing, or garbage, to an unrelated object, or to "
               "the output of a task with other dimensions, or make reading it fail",
               "the damage is confined to files the aggregation reads"]


def prepare(tier):
    return {"base": {o: pl.baseline(o, ("gen", "find", "aggsub", "diag", "aggres")) for o in (2, 3, 4)},
            "base5": pl.baseline(5, ("gen", "find", "aggsub"))}


KINDS = ["missing", "empty", "truncated", "garbage", "eio", "eacces", "extra_number", "extra_copy", "vanish", "swap_count",
         "input_missing", "input_truncated", "input_eio", "renumbered", "torn_tail", "input_vanish", "foreign"]


def other_run(o, n):
    """a task output left behind by a run with another temperature grid or another order"""
    import scipy.sparse as sp
    r, changed = list(o), False
    for k, x in enumerate(r):
        if sp.issparse(x):
            r[k] = sp.csr_matrix((n + 3, n + 3))
        elif isinstance(x, np.ndarray) and x.size == 50:
            r[k] = x.ravel()[:7]
        else:
            continue
        changed = True
    return r if changed else None


def run(ctx):
    src = ctx.src
    st = ["aggsub", "aggres"][src.stratum(2)]
    kind = KINDS[src.stratum(len(KINDS), salt=src.index // 2 if src.script is None else 0)]
    order = [2, 3, 4, 5][src.weighted([3, 5, 3, 2 if st == "aggsub" else 0])]
    base = ctx.shared["base"][order] if order < 5 else ctx.shared["base5"]
    n = pl.NCLUSTERS[order]
    exp = pl.Expect(base)
    fold = pl.folder(ctx, src)
    lay = Layout(fold, order, absolute=not src.flip(0.3))
    pre, inp, out = ("sub", "cd", "agg") if st == "aggsub" else ("diag", "agg", "res")
    files = {inp: base[inp]}
    for i in range(1, n + 1):
        files[f"{pre}{i}"] = base[f"{pre}{i}"]
    prev = None
    pv = src.choose(3)
    if pv == 1:
        prev = pl.repickle(base[out])
    elif pv == 2:
        prev = b"something published earlier"
    for k, b in files.items():
        with open(lay.path(k), "wb") as f:
            f.write(b)
    if prev is not None:
        with open(lay.path(out), "wb") as f:
            f.write(prev)
    sim = procsim.Sim(ctx, ctx.scratch + "/d")
    victim = 1 + src.choose(n)
    # last, first and middle clusters are all of interest
    if src.flip(0.3):
        victim = [1, n][src.choose(2)]
    prefix = lay.subp if pre == "sub" else lay.diagp
    vpath = lay.path(f"{pre}{victim}")
    deny = {}
    vanish = None

    def put(path, data):
        with open(path, "wb") as f:
            f.write(data)

    orig = base[f"{pre}{victim}"]
    if kind == "missing":
        os.unlink(vpath)
        for _ in range(src.geometric(0.3, n - 1)):
            q = lay.path(f"{pre}{1 + src.choose(n)}")
            if os.path.exists(q):
                os.unlink(q)
    elif kind == "empty":
        put(vpath, b"")
    elif kind == "truncated":
        put(vpath, orig[:src.choose(len(orig))])
    elif kind == "torn_tail":
        put(vpath, orig[:len(orig) - 1 - src.choose(min(20, len(orig) - 1))])
    elif kind == "garbage":
        k = src.choose(len(orig))
        put(vpath, [b"\0" * len(orig), orig[:k] + b"\0" * (len(orig) - k) if k < len(orig) - 1 else b"\0", b"garbage",
                    b"\x80\x04N."][src.choose(4)])
    elif kind == "foreign":
        # readable, but not the output of a task of this stage
        o = [None, [], {}, 0, "done", [None] * 3, pickle.loads(base["cd"]), object,
             other_run(pickle.loads(orig), n)][src.weighted([1] * 8 + [6])]
        put(vpath, pickle.dumps(o))
    elif kind in ("eio", "eacces"):
        deny[vpath] = errno.EIO if kind == "eio" else errno.EACCES
    elif kind == "extra_number":
        m = n + 1 + src.choose(3)
        put(os.path.join(fold, f"{prefix}{m}.dat"), base[f"{pre}{1 + src.choose(n)}"])
    elif kind == "extra_copy":
        nm = [f"{prefix}{victim}_old.dat", f"{prefix}_backup.dat", f"{prefix}0{victim}.dat", f"{prefix}0.dat",
              f"{prefix}{victim}.dat.1.dat"][src.choose(5)]
        put(os.path.join(fold, nm), orig)
    elif kind == "swap_count":
        # the number of files is right, but one is missing and one does not belong
        os.unlink(vpath)
        m = [n + 1, n + 7, 0][src.choose(3)]
        put(os.path.join(fold, f"{prefix}{m}.dat"), orig)
    elif kind == "renumbered":
        # shifted numbering
        os.rename(vpath, os.path.join(fold, f"{prefix}{victim + n}.dat"))
    elif kind == "vanish":
        vanish = vpath
    elif kind == "input_missing":
        os.unlink(lay.path(inp))
    elif kind == "input_truncated":
        b = base[inp]
        put(lay.path(inp), b[:src.choose(len(b))])
    elif kind == "input_eio":
        deny[lay.path(inp)] = errno.EIO
    elif kind == "input_vanish":
        vanish = lay.path(inp)
    sim.adopt_all()
    state = {"denied": 0, "read": set(), "vanished": False, "n": 0}
    when = src.choose(2 * n + 6)
    once = src.flip(0.3)
    orig_decide = sim.decide

    def decide(p, k, info):
        path = info.get("path")
        if path in deny and k in ("open", "read"):
            if not (once and state["denied"]):
                # either opening or reading fails
                if k == "read" or deny[path] == errno.EACCES or when % 2:
                    state["denied"] += 1
                    ctx.fault("err_" + k)
                    return ("fail_quiet", deny[path])
        if vanish and not state["vanished"]:
            if path == vanish and k == "open":
                state["read"].add(path)
            if state["n"] >= when or (path == vanish and k == "open"):
                if vanish not in state["read"] or (k == "open" and path == vanish):
                    os.unlink(vanish)
                    state["vanished"] = True
                    ctx.fault("file_vanished")
                    ctx.log("vanished before", k)
            state["n"] += 1
        return orig_decide(p, k, info)
    sim.decide = decide
    ctx.log(st, "order", order, kind, "cluster", victim, "previous", pv)
    ctx.state(st, order, kind, victim, pv, when if vanish else 0)
    ctx.fault("damage_" + kind)
    p = pl.spawn_stage(sim, lay, st)
    sim.run()
    damaged = True
    if deny and not state["denied"]:
        damaged = False
    if vanish and not state["vanished"]:
        damaged = False
    c = pl.read(lay.path(out))
    if kind == "extra_copy" and p.code == 0 and c is not None and exp.check(out, c) is None:
        return      # a stray file that is no cluster's output may also be ignored
    if damaged and once and deny:
        # a read error that goes away may be retried successfully
        ok = (p.code == 0 and c is not None and exp.check(out, c) is None) or (p.code != 0 and c == prev)
        if not ok:
            raise Violation("published-from-unreadable", f"{st}: exit {p.code} after a read error of cluster {victim}; "
                                                         f"aggregate is wrong or changed")
        return
    if damaged:
        ctx.counts["damaged"] += 1
        if p.code == 0:
            what = "correct" if c is not None and exp.check(out, c) is None else "wrong"
            raise Violation("published-from-damaged-set", f"{st} order {order} succeeded although {kind} (cluster {victim} "
                                                          f"of {n}); the published aggregate is {what}")
        if c != prev:
            raise Violation("failed-aggregation-changed-aggregate",
                            f"{st} order {order} failed ({p.exc}) with {kind} (cluster {victim}) but the aggregate "
                            f"published earlier was {'removed' if c is None else 'replaced' if prev else 'created'}")
    else:
        if p.code != 0:
            raise Violation("stage-fails", f"{p.name} failed without damage: {p.exc} {p.err[-300:]}")
        if c is None or exp.check(out, c):
            raise Violation("result-differs", f"{st} order {order}: wrong aggregate without damage")


def expect(tier):
    return ["file_vanished", "err_open", "err_read"] + ["damage_" + k for k in KINDS]

"""The batch linked-cluster pipeline under simulation: real stage scripts, simulated processes and disk."""
import hashlib
import io
import os
import pickle
import runpy
import shutil
import sys

import numpy as np

from . import canon, core, procsim, refmodel
from .core import HarnessError, Violation

REPO = os.environ.get("EDSIM_REPO", "/repo")
CLUSTER = os.path.join(REPO, "cluster")
SCRIPTS = {"gen": "generate_clusters_no_subs.py", "gens": "generate_clusters.py", "find": "find_subclusters.py",
           "aggsub": "aggregate_subclusters.py", "diag": "diag_cluster.py", "aggres": "aggregate_results.py"}
NCLUSTERS = {1: 1, 2: 2, 3: 4, 4: 9, 5: 21, 6: 56}


def stage(script, argv):
    path = os.path.join(CLUSTER, SCRIPTS[script])

    def f(g):
        sys.argv = [path] + [str(a) for a in argv]
        sys.path.insert(0, CLUSTER)
        runpy.run_path(path, run_name="__main__")
    return f


class Layout:
    """names of the files of one batch run, as the driver would choose them"""

    def __init__(self, folder, order, subp="subcluster", diagp="diag_cluster", absolute=True):
        self.folder = folder
        self.order = order
        self.subp, self.diagp = subp, diagp
        pre = folder + "/" if absolute else ""
        self.cd = f"{pre}cluster_data_order={order}.dat"
        self.agg = f"{pre}cluster_data_with_subclusters_order={order}.dat"
        self.res = f"{pre}nlce_results_order={order}.dat"
        self.cds = f"{pre}clusters_all_order={order}.dat"

    def argv(self, st, idx=None):
        return {"gen": [self.cd, self.order], "gens": [self.cds, self.order],
                "find": [idx, f"{self.subp}{idx}.dat", self.cd],
                "aggsub": [f"{self.subp}*.dat", self.agg, self.cd],
                "diag": [idx, f"{self.diagp}{idx}.dat", self.cd],
                "aggres": [f"{self.diagp}*.dat", self.agg, self.res]}[st]

    def path(self, key):
        """absolute path of the file with a baseline key"""
        if key.startswith("sub"):
            n = f"{self.subp}{key[3:]}.dat"
        elif key.startswith("diag"):
            n = f"{self.diagp}{key[4:]}.dat"
        else:
            n = getattr(self, key)
        return os.path.join(self.folder, n)

    @staticmethod
    def key(st, idx=None):
        return {"gen": "cd", "gens": "cds", "find": f"sub{idx}", "aggsub": "agg", "diag": f"diag{idx}",
                "aggres": "res"}[st]

    def keys(self, n):
        return ["cd", "cds", "agg", "res"] + [f"sub{i}" for i in range(1, n + 1)] + \
               [f"diag{i}" for i in range(1, n + 1)]


def baseline(order, want=("gen", "gens", "find", "aggsub", "diag", "aggres")):
    """fault-free run of every stage once, one cluster after another; returns {key: bytes}"""
    import tempfile
    d = tempfile.mkdtemp(prefix="edsim-base-", dir=core.scratch_base())
    try:
        root = os.path.join(d, "run")
        os.mkdir(root)
        ctx = core.Ctx(core.Source(script=[]), "quick", d)
        sim = procsim.Sim(ctx, root, max_steps=10 ** 7)
        sim.shuffle = False
        lay = Layout(root, order)
        out = {}
        n = NCLUSTERS[order]

        def do(st, idx=None):
            p = sim.spawn(f"{st}{idx or ''}", stage(st, lay.argv(st, idx)), cwd=root)
            sim.run()
            if p.code != 0:
                raise Violation("undisturbed-stage-fails",
                                f"stage {st} {idx or ''} of an undisturbed order {order} run failed: {p.exc} "
                                f"{p.err[-400:]}")
            if st in ("gen", "gens"):
                if p.out.strip() != str(n):
                    raise Violation("wrong-cluster-count", f"{st} printed {p.out.strip()!r}, expected {n}")
            k = lay.key(st, idx)
            try:
                with open(lay.path(k), "rb") as f:
                    out[k] = f.read()
            except OSError:
                raise Violation("undisturbed-stage-no-output", f"stage {st} {idx or ''} left no output {lay.path(k)}")

        for st in want:
            if st in ("find", "diag"):
                for i in range(1, n + 1):
                    do(st, i)
            else:
                do(st)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_reference(res_obj, order):
    """the published results against the independent linked-cluster calculation"""
    contrib = refmodel.nlce(order)
    lv = [np.asarray(a) for a in canon.leaves(res_obj) if a.dtype.kind in "fc"]
    names = ["energy", "entropy", "specific heat", "szsz"]
    for q in range(4):
        tot = contrib[:, q].sum(0)
        if not any(a.size == tot.size and np.allclose(a.ravel(), tot, atol=1e-7, rtol=1e-7) for a in lv):
            return f"{names[q]} is not the order {order} linked-cluster sum"
        per = contrib[:, q]
        if not any(a.shape == per.shape and np.allclose(a, per, atol=1e-7, rtol=1e-7) for a in lv):
            return f"{names[q]} contributions by order are not those of the linked-cluster sum"
    return None


class Expect:
    """decides whether the content of a published file is the complete, correct one"""

    def __init__(self, base):
        self.base = base
        self.canon = {}
        self.cache = {}

    def check(self, key, content):
        h = (key, hashlib.sha1(content).digest())
        if h in self.cache:
            return self.cache[h]
        if content == self.base[key]:
            r = None
        else:
            if key not in self.canon:
                self.canon[key] = canon.canon(pickle.loads(self.base[key]))
            try:
                f = io.BytesIO(content)
                obj = pickle.load(f)
                rest = f.read(1)
                r = "trailing bytes after the data" if rest else \
                    canon.diff(canon.canon(obj), self.canon[key], tol=1e-8)
            except Exception as e:
                r = f"cannot be read: {type(e).__name__}: {str(e)[:100]}"
        self.cache[h] = r
        return r


def repickle(b):
    """the same content in other bytes: a complete previous version that can be told from a new one"""
    o = pickle.loads(b)
    for proto in (2, 3, 5, 4):
        r = pickle.dumps(o, protocol=proto)
        if r != b:
            return r
    return b


def read(path):
    try:
        with procsim.R_OPEN(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError):
        return None


FOLDERS = ["run", "order=9", "run 2 of 10", "2024-06-12", "v1.5/job007", "[x]7 *new*", "subcluster3.dat.d", "ünï7"]


def folder(ctx, src, base="root"):
    name = FOLDERS[src.choose(len(FOLDERS))]
    p = os.path.join(ctx.scratch, "d", name)
    os.makedirs(p)
    return os.path.realpath(p)


FAULT_SETS = [
    dict(kill=0.06),
    dict(kill=0.03, torn=0.15),
    dict(power=0.06),
    dict(err_write=0.05),
    dict(err_read=0.05),
    dict(err_write=0.03, short=0.2),
    dict(intr=0.04),
    dict(mem=0.05),
    dict(err_stdout=0.2),
    dict(kill=0.02, power=0.02, err_write=0.02, err_read=0.01, intr=0.01, short=0.05),
    dict(full=1),
]


PUBLISHING = {"write", "fsync", "close", "rename", "unlink", "link", "truncate", "open"}


def set_faults(sim, src, scale=1.0):
    fs = dict(FAULT_SETS[src.choose(len(FAULT_SETS))])
    sim.full_after = None
    sim.target_ops = None
    if not src.flip(0.3):
        # concentrate on the operations that publish
        sim.target_ops = PUBLISHING - ({"open"} if src.flip(0.5) else set())
        scale *= 4
    if fs.pop("full", None):
        sim.full_after = src.pick([0, 1, 100, 1000, 3000, 10000, 30000])
    sim.rates = {k: v * scale for k, v in fs.items()}
    return sim.rates


def no_faults(sim):
    sim.rates = {}
    sim.full_after = None
    sim.target_ops = None


def spawn_stage(sim, lay, st, idx=None, tag="", pid=None, host="node0", stdout_gated=False, clock=("steady", 0)):
    p = sim.spawn(f"{st}{idx or ''}{tag}", stage(st, lay.argv(st, idx)), cwd=lay.folder, pid=pid, host=host,
                  stdout_gated=stdout_gated, clock_mode=clock[0], clock_seed=clock[1])
    p.meta.update(st=st, idx=idx, key=lay.key(st, idx))
    return p

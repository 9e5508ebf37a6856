"""C05: the batch driver submits each cluster once, never runs ahead, and finishes"""
import os
import pickle

from . import clocks
from . import driver as dr
from . import pipeline as pl
from .core import HarnessError, Violation

LEVEL = "exploration"
COUNTS = {"quick": 260, "thorough": 9000}
RULE = ("one evaluation = one or several simulated executions of the real driver script with the real job scripts until it ended; "
        "distinct = different event logs")
STATE_MEASURE = "distinct (clusters, array limit, stage, finished jobs, polls so far) at driver calls"
REAL = ["cluster/run_on_cluster.sh", "cluster/slurm_array.sh", "cluster/slurm_single.sh (real bash)", "in a part of the runs all stage scripts"]
STUB = ["sbatch and the Slurm scheduler", "sleep and the clock", "python (records its arguments; tasks write stand-in outputs, in a part of "
        "the runs the real scripts run)"]
ASSUMPTIONS = ["the script is run by bash from its root folder; only the root path, the environment file and, in a part of the runs, the "
               "array limit are replaced in its text", "sbatch never refuses a valid job; killed jobs are requeued and finish eventually",
               "sampled tasks of large arrays stand for the whole array when their commands differ in the task number only"]


def prepare(tier):
    return {"base": {o: pl.baseline(o, ("gen", "find", "aggsub", "diag", "aggres")) for o in (2, 3)}}


class Job:
    def __init__(self, jid, script, env, task):
        self.jid, self.script, self.env, self.task = jid, script, env, task
        self.req = None            # waiting in python
        self.argv = None
        self.state = "pending"
        self.who = None
        self.runs = 0


class World:
    def __init__(self, ctx, order=None, root=None):
        """with an order: all stages really run, and only what they publish matters (strict is off)"""
        src = ctx.src
        self.ctx, self.src = ctx, src
        self.strict = order is None
        self.real = order is not None or src.flip(0.08)
        self.outputs = {}
        if self.real:
            self.order = order or [2, 3][src.choose(2)]
            self.n = pl.NCLUSTERS[self.order]
            self.base = ctx.shared["base"][self.order]
            self.limit = [500, 1, 2, 3][src.choose(4)]
        else:
            big = src.flip(0.12)
            if big:
                self.n = [500, 501, 499, 1000, 1001, 999, 1037, 1500, 250][src.choose(9)]
                self.limit = 500
            else:
                self.limit = 1 + src.choose(7)
                k = src.choose(4)
                self.n = [1 + src.choose(12), self.limit * (1 + src.choose(3)), self.limit * (1 + src.choose(3)) + 1,
                          max(1, self.limit * (1 + src.choose(3)) - 1)][k]
        self.root = root or os.path.join(ctx.scratch, "root")
        self.sh = dr.Shell(ctx, self.root, None if self.limit == 500 else self.limit)
        if self.limit != 500 and not self.sh.limit_changed:
            self.limit = 500
        for s in pl.SCRIPTS.values():
            os.symlink(os.path.join(pl.CLUSTER, s), os.path.join(self.root, s))
        self.jobs = []
        self.njob = 0
        self.polls = 0
        self.pass_no = 0
        self.template = {}
        self.aggregates = 0
        self.junk = []
        if src.flip(0.4):
            for nm in ("subcluster1.log", "diag_cluster2.log", "slurm_output.out", "subcluster1.dat.0f3a.tmp",
                       "diag_cluster1.dat.77aa.tmp", "subcluster.txt", "notes.dat"):
                if src.flip(0.5):
                    self.write(nm, b"junk")
                    self.junk.append(nm)
        self.reset_pass()

    def reset_pass(self):
        self.submitted = {"find": [], "diag": []}
        self.closed = {"find": False, "diag": False}
        self.polls_since_done = 0
        self.waiting_for = None
        self.done_agg = {"aggsub": 0, "aggres": 0}

    # -- files
    def write(self, name, data):
        p = os.path.join(self.root, name)
        with open(p + ".new", "wb") as f:
            f.write(data)
        os.replace(p + ".new", p)

    def has(self, path):
        return os.path.isfile(os.path.join(self.root, path))

    def complete(self, path):
        p = os.path.join(self.root, path)
        if not os.path.isfile(p):
            return False
        if not self.real:
            with open(p, "rb") as f:
                return f.read().endswith(b"complete")
        with open(p, "rb") as f:
            try:
                pickle.load(f)
                return True
            except Exception:
                return False

    # -- what a python call is
    def classify(self, args, cwd):
        if not args:
            raise Violation("bad-command", "python called without a script")
        script = os.path.basename(args[0])
        st = {v: k for k, v in pl.SCRIPTS.items()}.get(script)
        if st is None:
            raise Violation("bad-command", f"python called with {args}")
        a = args[1:]
        if st in ("find", "diag"):
            if len(a) < 3 or not a[0].isdigit():
                raise Violation("bad-command", f"{script} called with {a}")
            return st, int(a[0]), a
        return st, None, a

    def output_of(self, st, a):
        return {"gen": lambda: a[0], "gens": lambda: a[0], "find": lambda: a[1], "diag": lambda: a[1],
                "aggsub": lambda: a[1], "aggres": lambda: a[2]}[st]()

    def inputs_of(self, st, a):
        import fnmatch
        if st in ("gen", "gens"):
            return []
        if st in ("find", "diag"):
            return [a[2]]
        pre = os.path.basename(a[0]).split("*")[0]
        fs = [f"{pre}{i}.dat" for i in range(1, self.n + 1)]
        return fs + ([a[2]] if st == "aggsub" else [a[1]])

    def execute(self, st, a, cwd, who):
        """the effect of a stage; returns (code, stdout)"""
        for f in self.inputs_of(st, a) if self.strict else ():
            if not self.complete(f):
                raise Violation("stage-ahead-of-inputs", f"{st} started by {who} although {os.path.basename(f)} is not "
                                                         f"there ({self.n} clusters, limit {self.limit})")
        if self.real:
            script = os.path.join(pl.CLUSTER, pl.SCRIPTS[st])
            b = list(a)
            if st in ("gen", "gens"):
                b[1] = str(self.order)
            clock = ("steady", 0)
            if st not in ("gen", "gens") and not self.strict and self.src.flip(0.3):
                clock = (self.src.pick(clocks.MODES_ALL), self.src.choose(1000))
                self.ctx.fault("clock_" + clock[0])
            r = dr.run_real(script, b, cwd, clock)
            if r[0] == 0:
                key = pl.Layout.key(st, a[0] if st in ("find", "diag") else None)
                self.outputs[key] = os.path.join(self.root, self.output_of(st, a))
            return r
        if st == "gen":
            if not self.has(a[0]):
                self.write(a[0], b"clusters complete")
            return 0, f"{self.n}\n"
        self.write(self.output_of(st, a), st.encode() + b" complete")
        return 0, ""

    # -- scheduler
    def submit(self, args):
        env, array, script = dr.parse_sbatch(args)
        if script is None:
            raise Violation("bad-submission", f"sbatch called with {args}")
        sname = os.path.basename(script)
        if array is None:
            ids = [None]
        else:
            ids = dr.parse_array(array)
            if not ids:
                raise Violation("bad-submission", f"Slurm rejects the array {array!r} ({self.n} clusters, limit "
                                                  f"{self.limit})")
            if len(ids) > self.limit and self.strict:
                raise Violation("array-too-large", f"array {array!r} exceeds the limit {self.limit}")
        new = []
        for t in ids:
            self.njob += 1
            new.append(Job(self.njob, script, env, t))
        self.ctx.log("sbatch", sname, array or "", "env", str(sorted(env.items())).replace(self.root, "ROOT"))
        # what will these jobs do?
        todo = new
        tmpl = None
        if len(new) > 40:
            probe = [new[0], new[1], new[len(new) // 2], new[-1]]
            for j in probe:
                self.begin(j, dry=True)
            tmpl = self.template_of(probe)
            if tmpl is None:
                for j in new:
                    if j.argv is None:
                        self.begin(j, dry=True)
            else:
                for j in new:
                    if j.argv is None:
                        j.argv = [x if isinstance(x, str) else x[0] + str(j.task + x[1]) + x[2] for x in tmpl]
        else:
            for j in new:
                self.begin(j, dry=True)
        for j in new:
            st, idx, a = self.classify(j.argv, self.root)
            if st in self.submitted and not self.strict:
                self.submitted[st].append(idx)
            elif st in self.submitted:
                if self.closed[st]:
                    raise Violation("submitted-twice", f"another {st} array submitted after waiting for it")
                if idx in self.submitted[st]:
                    raise Violation("submitted-twice", f"cluster {idx} of {self.n} submitted twice for {st} (limit "
                                                       f"{self.limit})")
                if not 1 <= idx <= self.n:
                    raise Violation("wrong-cluster-submitted", f"{st} submitted for cluster {idx} of {self.n} (limit "
                                                               f"{self.limit})")
                self.submitted[st].append(idx)
                for f in self.inputs_of(st, a):
                    if not self.complete(f):
                        raise Violation("stage-ahead-of-inputs", f"{st} submitted although {os.path.basename(f)} is not "
                                                                 f"there")
        self.jobs += new

    def template_of(self, probe):
        import re
        out = []
        for k, parts in enumerate(zip(*[j.argv for j in probe])):
            if len(set(parts)) == 1:
                out.append(parts[0])
                continue
            m0 = re.fullmatch(r"(.*?)(\d+)(\D*)", parts[0])
            if not m0:
                return None
            off = int(m0.group(2)) - probe[0].task
            for p, j in zip(parts, probe):
                if p != m0.group(1) + str(j.task + off) + m0.group(3):
                    return None
            out.append((m0.group(1), off, m0.group(3)))
        return out

    def begin(self, j, dry=False):
        """start the job script; it runs up to its python call"""
        j.runs += 1
        j.who = f"job{j.jid}.{j.runs}"
        env = dict(j.env)
        if j.task is not None:
            env["SLURM_ARRAY_TASK_ID"] = str(j.task)
        r = self.sh.start(j.who, j.script, self.sh.env(env))
        if not isinstance(r, dr.Req) or r.kind not in ("python", "python3"):
            raise Violation("job-does-nothing", f"{os.path.basename(j.script)} task {j.task} does not call python "
                                                f"({r if not isinstance(r, dr.Req) else r.kind})")
        j.argv = r.args
        if dry:
            self.sh.kill(j.who)
            self.cleanup(r)
        else:
            j.req = r
            j.state = "running"

    def cleanup(self, r):
        for f in (f"{self.sh.dir}/rep.{r.pid}", f"{self.sh.dir}/out.{r.pid}"):
            try:
                os.unlink(f)
            except OSError:
                pass

    def finish(self, j):
        st, idx, a = self.classify(j.argv, self.root)
        code, out = self.execute(st, a, self.root, f"job {j.jid}")
        if j.req is not None:
            r = self.sh.answer(j.req, code, out)
            if not (isinstance(r, tuple) and r[0] == "exit"):
                raise Violation("bad-command", f"job script goes on after its task: {r}")
            j.req = None
        if code != 0:
            raise Violation("stage-fails", f"{st} {idx or ''} failed: started by the driver with {a}")
        j.state = "done"
        self.ctx.log("job done", st, idx or "")

    def killjob(self, j):
        if j.req is not None:
            self.sh.kill(j.who)
            self.cleanup(j.req)
            j.req = None
        st, idx, a = self.classify(j.argv, self.root)
        self.ctx.fault("job_killed_requeued")
        if not self.real:
            self.write(os.path.basename(self.output_of(st, a)) + f".{j.jid:x}.tmp", b"half")
        j.state = "pending"
        self.ctx.log("job killed", st, idx or "")

    def progress(self):
        """something happens in the cluster while the driver waits"""
        src = self.src
        open_jobs = [j for j in self.jobs if j.state in ("pending", "running")]
        if not open_jobs:
            return
        if self.patience == 0 and src.flip(self.p_patience):
            # the queue is full: nothing happens for a long time
            self.patience = [350, 800, 1300][src.choose(3)]
            self.p_patience = 0
            self.ctx.fault("long_wait")
        if self.patience > 0:
            self.patience -= 1
            self.waited += 1
            return
        if len(open_jobs) > 40:
            # large arrays advance in blocks; a few straggle
            keep = [0, 1, 3, len(open_jobs) // 2][src.choose(4)]
            for j in open_jobs[:len(open_jobs) - keep]:
                self.finish(j)
            return
        k = [len(open_jobs), 0, 1, 2, 5][src.choose(5)]
        if k == 0:
            self.stall += 1
            if self.stall > 3:
                k = 1
        else:
            self.stall = 0
        for _ in range(min(k, len(open_jobs))):
            open_jobs = [j for j in self.jobs if j.state in ("pending", "running")]
            if not open_jobs:
                break
            j = open_jobs[src.choose(len(open_jobs))]
            if j.state == "pending" and src.flip(0.15):
                self.begin(j)
                continue
            if src.flip(0.06) and j.runs < 4:
                j.runs += 1
                self.killjob(j)
                continue
            self.finish(j)

    stall = 0
    patience = 0
    p_patience = 0
    waited = 0

    def all_submitted(self, st):
        if not self.strict:
            return
        if sorted(self.submitted[st]) != list(range(1, self.n + 1)):
            miss = sorted(set(range(1, self.n + 1)) - set(self.submitted[st]))
            raise Violation("cluster-not-submitted", f"{st}: clusters {miss[:10]} of {self.n} were never submitted (limit "
                                                     f"{self.limit})")

    # -- the driver
    def drive(self, die_after=None):
        """run the driver; False if it was killed on the way"""
        self.pass_no += 1
        self.reset_pass()
        calls = 0
        who = f"driver{self.pass_no}"
        r = self.sh.start(who, os.path.join(self.root, "run_on_cluster.sh"), self.sh.env())
        idle = 0
        while True:
            if isinstance(r, tuple):
                if r[1] != 0:
                    raise Violation("driver-fails", f"driver exit code {r[1]}: {self.tail(who)}")
                break
            calls += 1
            self.ctx.steps += 1
            if calls - self.waited > 4000:
                raise Violation("driver-does-not-finish", "driver made 4000 calls")
            if die_after is not None and calls > die_after:
                self.sh.kill(who)
                self.cleanup(r)
                self.ctx.fault("driver_killed")
                self.ctx.log("driver killed at", r.kind)
                return False
            self.ctx.state(self.n, self.limit, r.kind, len(self.submitted["find"]), len(self.submitted["diag"]),
                           sum(j.state == "done" for j in self.jobs), calls if calls < 6 else 6)
            if r.kind == "sleep":
                self.ctx.simtime += 5
                self.polls += 1
                for st in ("find", "diag"):
                    if self.submitted[st] and not self.closed[st]:
                        self.all_submitted(st)
                        self.closed[st] = True
                if not any(j.state in ("pending", "running") for j in self.jobs):
                    idle += 1
                    if idle > 1:
                        fs = sorted(os.listdir(self.root))
                        raise Violation("driver-does-not-proceed",
                                        f"driver keeps polling although every submitted job has produced its output "
                                        f"({self.n} clusters, limit {self.limit}); {len(fs)} files")
                else:
                    idle = 0
                self.ctx.log("poll")
                self.progress()
                r = self.sh.answer(r)
            elif r.kind == "sbatch":
                idle = 0
                self.submit(r.args)
                if self.src.flip(0.3):
                    self.progress()
                r = self.sh.answer(r, 0, f"Submitted batch job {self.njob}\n")
            elif r.kind in ("python", "python3"):
                idle = 0
                st, idx, a = self.classify(r.args, r.cwd)
                self.ctx.log("driver runs", st)
                if st == "aggsub":
                    self.all_submitted("find")
                    self.closed["find"] = True
                if st == "aggres":
                    self.all_submitted("diag")
                    self.closed["diag"] = True
                code, out = self.execute(st, a, self.root, "the driver")
                if st in self.done_agg:
                    self.done_agg[st] += 1
                if code != 0:
                    raise Violation("stage-fails", f"{st} called by the driver with {a} failed")
                r = self.sh.answer(r, code, out)
            else:
                r = self.sh.answer(r, 0, "")
        for st in ("aggsub", "aggres") if self.strict else ():
            if self.done_agg[st] != 1:
                raise Violation("driver-skips-stage", f"driver ended after running {st} {self.done_agg[st]} times")
        self.ctx.log("driver done, polls", self.polls)
        return True

    def dead_driver(self):
        """the driver is killed on the way; its jobs go on, or are cancelled"""
        src = self.src
        if self.drive(die_after=src.choose(12)):
            return
        if src.flip(0.5):
            # the jobs of the dead driver are still there
            for _ in range(src.choose(3)):
                self.progress()
            return
        self.ctx.fault("jobs_cancelled")
        for j in self.jobs:
            if j.state in ("pending", "running"):
                if j.req is not None:
                    self.sh.kill(j.who)
                    self.cleanup(j.req)
                    j.req = None
                j.state = "cancelled"

    def check_outputs(self, exp, n):
        """every published file of a completed run is the one of the undisturbed run"""
        for key in ["cd", "agg", "res"] + [f"{k}{i}" for k in ("sub", "diag") for i in range(1, n + 1)]:
            if key not in self.outputs:
                raise Violation("output-missing", f"order {self.order}: the driver ended without {key} "
                                                  f"({n} clusters, limit {self.limit})")
            name = os.path.basename(self.outputs[key])
            c = pl.read(self.outputs[key])
            if c is None:
                raise Violation("output-missing", f"order {self.order}: {name} does not exist")
            why = exp.check(key, c)
            if why:
                raise Violation("result-differs", f"order {self.order}: {name} of the driver run differs from the "
                                                  f"undisturbed run: {why} (limit {self.limit})")

    def tail(self, who):
        try:
            with open(f"{self.sh.dir}/stderr.{who}") as f:
                return f.read()[-300:]
        except OSError:
            return ""


def run(ctx):
    src = ctx.src
    w = World(ctx)
    if w.n <= 40 and not w.real and src.flip(0.1):
        w.p_patience = 0.3
    try:
        ctx.log("clusters", w.n, "limit", w.limit, "real" if w.real else "stub")
        ctx.counts["real_stage_runs" if w.real else "stub_stage_runs"] += 1
        if src.flip(0.25):
            w.dead_driver()
        w.drive()
        if src.flip(0.2):
            ctx.counts["second_complete_pass"] += 1
            w.drive()
        # jobs still queued may finish after the end
        if w.real:
            exp = pl.Expect(w.base)
            res = [f for f in os.listdir(w.root) if f.startswith("nlce_results") and f.endswith(".dat")]
            if len(res) != 1:
                raise Violation("output-missing", f"driver ended without results: {res}")
            why = exp.check("res", pl.read(os.path.join(w.root, res[0])))
            if why:
                raise Violation("result-differs", f"results of the driver run differ from the undisturbed run: {why}")
    finally:
        w.sh.close()


def expect(tier):
    return ["job_killed_requeued", "driver_killed", "long_wait", "real_stage_runs", "second_complete_pass"]

"""Seeded choices, run isolation, minimisation, replay and evidence.

One run = one child process forked from a worker that has numpy, scipy and exact_diag imported but never used.  Every
decision in a run is drawn from one Source, so the recorded list of integers is the whole execution: replaying the list
reproduces it.  0 is always the benign choice (no fault, first runnable task, first item), which is what minimisation
moves towards and what a replay falls back to beyond the end of its list.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

# real primitives, kept before anything is patched
REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_SLEEP = time.sleep

NHASH = 8
RUN_TIMEOUT = 150.0


class Violation(Exception):
    """the property is violated; kind is what minimisation must preserve"""

    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    pass


class TooLong(Exception):
    """run exceeded its step budget although nothing is wrong (discarded)"""


class Source:
    def __init__(self, seed=None, script=None, index=0):
        self.script = script
        self.index = index
        self.rec = []
        self.rng = random.Random(seed)

    def _next(self, n, gen):
        if n <= 1:
            return 0
        if self.script is not None:
            k = len(self.rec)
            v = self.script[k] if k < len(self.script) else 0
            v = max(0, min(int(v), n - 1))
        else:
            v = gen()
        self.rec.append(v)
        return v

    def choose(self, n, label=""):
        return self._next(n, lambda: self.rng.randrange(n))

    def weighted(self, weights):
        tot = float(sum(weights))

        def gen():
            x = self.rng.random() * tot
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return len(weights) - 1
        return self._next(len(weights), gen)

    def flip(self, p):
        if p <= 0:
            return False
        return bool(self._next(2, lambda: 1 if self.rng.random() < p else 0))

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def stratum(self, n, salt=0):
        """like choose(n), but consecutive run indices visit every value in turn"""
        return self._next(n, lambda: (self.index + salt) % n)

    def geometric(self, p, cap):
        k = 0
        while k < cap and self.flip(p):
            k += 1
        return k

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    def __init__(self, src, tier, scratch, shared=None):
        self.src = src
        self.tier = tier
        self.scratch = scratch
        self.shared = shared or {}
        self.counts = collections.Counter()      # plain statistics
        self.faults = collections.Counter()      # faults that actually fired
        self.states = set()                      # distinct situations reached, as short hashes
        self.events = []                         # event log; its digest defines "the same execution"
        self.steps = 0
        self.simtime = 0.0

    def log(self, *parts):
        self.events.append(" ".join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] += 1

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        return h.hexdigest()[:16]


# --------------------------------------------------------------------------------------------------------------
# pipe messages

def send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<I", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = _os_write(fd, mv)
        mv = mv[n:]


_os_write = os.write
_os_read = os.read


def recv(fd):
    h = _readn(fd, 4)
    if h is None:
        return None
    n, = struct.unpack("<I", h)
    b = _readn(fd, n)
    if b is None:
        return None
    return pickle.loads(b)


def _readn(fd, n):
    out = b""
    while len(out) < n:
        c = _os_read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


# --------------------------------------------------------------------------------------------------------------
# one run in its own process

SCRATCH_BASE = None


def die_with_parent():
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def branch(fn):
    """fn() in a copy of this process, thrown away afterwards: several continuations of the same state can be tried"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(r)
            try:
                a = ("ok", fn())
            except Violation as v:
                a = ("violation", v.kind, v.msg)
            except BaseException:
                a = ("error", traceback.format_exc())
            send(w, a)
        finally:
            os._exit(0)
    os.close(w)
    try:
        a = recv(r)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if a is None or a[0] == "error":
        raise HarnessError("branch: " + (a[1] if a else "no answer"))
    if a[0] == "violation":
        raise Violation(a[1], a[2])
    return a[1]


def scratch_base():
    global SCRATCH_BASE
    if SCRATCH_BASE is None and os.environ.get("EDSIM_SCRATCH"):
        SCRATCH_BASE = os.environ["EDSIM_SCRATCH"]
    if SCRATCH_BASE is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 200e6:
                base = tempfile.gettempdir()
        except OSError:
            base = tempfile.gettempdir()
        SCRATCH_BASE = base
    return SCRATCH_BASE


def seam_entropy(urandom):
    """everything in Python that draws unseeded randomness draws it from here"""
    import uuid
    os.urandom = urandom
    random._urandom = urandom
    uuid._generate_time_safe = None

    class Seeded(_RANDOM):
        def __init__(self, x=None):
            super().__init__(int.from_bytes(urandom(16), "big") if x is None else x)

        def seed(self, a=None, version=2):
            super().seed(int.from_bytes(urandom(16), "big") if a is None else a, version)
    random.Random = Seeded
    tempfile._Random = Seeded
    tempfile._name_sequence = None


_RANDOM = random.Random


def run_once(mod, tier, seed=None, script=None, index=0, timeout=RUN_TIMEOUT, shared=None, want_log=False):
    """fork, run mod.run(ctx) in the child, return its result as a dict"""
    scratch = tempfile.mkdtemp(prefix="edsim-", dir=scratch_base())
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            die_with_parent()
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)      # nothing a run starts may hold the worker's output open
            src = Source(seed=seed, script=script, index=index)
            random.seed(12345)
            seam_entropy(_RANDOM(12345).randbytes)
            ctx = Ctx(src, tier, scratch, shared)
            res = {"viol": None, "error": None}
            try:
                mod.run(ctx)
            except Violation as v:
                res["viol"] = (v.kind, v.msg)
            except TooLong as e:
                ctx.counts["discarded_too_long"] += 1
            except BaseException:
                res["error"] = traceback.format_exc()
            if res["viol"]:
                ctx.log("VIOLATION", res["viol"][0])
            res.update(rec=src.rec, counts=dict(ctx.counts), faults=dict(ctx.faults), states=sorted(ctx.states),
                       steps=ctx.steps, simtime=ctx.simtime, digest=ctx.digest(), nev=len(ctx.events))
            if want_log or res["viol"] or res["error"]:
                res["events"] = ctx.events[-3000:]
            send(w, res)
        except BaseException:
            try:
                send(w, {"viol": None, "error": traceback.format_exc(), "rec": [], "counts": {}, "faults": {},
                         "states": [], "steps": 0, "simtime": 0, "digest": "", "nev": 0})
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    deadline = REAL_MONO() + timeout
    buf = b""
    res = None
    hang = False
    while True:
        left = deadline - REAL_MONO()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hang = True
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
        if len(buf) >= 4:
            n, = struct.unpack("<I", buf[:4])
            if len(buf) >= 4 + n:
                res = pickle.loads(buf[4:4 + n])
                break
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.close(r)
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if res is None:
        res = {"viol": None, "error": None, "rec": [], "counts": {}, "faults": {}, "states": [], "steps": 0,
               "simtime": 0, "digest": "", "nev": 0}
        if hang:
            res["hang"] = True
        else:
            res["error"] = "run process died without an answer"
    return res


# --------------------------------------------------------------------------------------------------------------
# minimisation

def shrink(mod, tier, script, kind, budget_s, shared=None):
    """smaller choice list with the same violation kind"""
    t_end = REAL_MONO() + budget_s
    best = list(script)
    best_res = None
    tried = set()

    def ok(cand):
        nonlocal best, best_res
        key = tuple(cand)
        if key in tried:
            return False
        tried.add(key)
        if REAL_MONO() > t_end:
            return False
        res = run_once(mod, tier, script=cand, shared=shared)
        if res["viol"] and res["viol"][0] == kind:
            rec = list(res["rec"])
            while rec and rec[-1] == 0:
                rec.pop()
            if (sum(1 for x in rec if x), len(rec), sum(rec)) < (sum(1 for x in best if x), len(best), sum(best)):
                best = rec
                best_res = res
                return True
        return False

    def cost(s):
        return (sum(1 for x in s if x), len(s), sum(s))

    improved = True
    while improved and REAL_MONO() < t_end:
        improved = False
        # drop or zero blocks
        size = max(1, len(best) // 2)
        while size >= 1 and REAL_MONO() < t_end:
            i = 0
            while i < len(best) and REAL_MONO() < t_end:
                blk = best[i:i + size]
                if any(blk) and ok(best[:i] + [0] * len(blk) + best[i + size:]):
                    improved = True
                elif ok(best[:i] + best[i + size:]):
                    improved = True
                    continue
                i += size
            size //= 2
        # lower single values
        for i in range(len(best)):
            if REAL_MONO() > t_end or i >= len(best):
                break
            for v in (1, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 < v < best[i]:
                    if ok(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best, best_res


# --------------------------------------------------------------------------------------------------------------
# patched environment helpers shared by engines

def deep_digest(obj):
    return hashlib.sha256(pickle.dumps(obj, protocol=4)).hexdigest()

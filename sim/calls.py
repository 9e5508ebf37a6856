"""Executing catalogue calls: observation and interruption at line or instruction granularity, reference answers.

Reference answers come from a server forked at the start of a run, before any call was made: for each question it forks
again, builds only the objects the call needs by replaying the events, and makes the call once.  So the reference is the
same code in a fresh process, alone, undisturbed.
"""
import ast
import io
import os
import signal
import sys
import threading
import time
import warnings

import numpy as np
import scipy.sparse as sp

from . import core, ops, world
from .canon import canon, diff

MON = sys.monitoring
TOOL = 4
ROOT = os.path.join(os.path.realpath(os.environ.get("EDSIM_REPO", "/repo")), "exact_diag") + os.sep
ROOT2 = os.path.join(os.environ.get("EDSIM_REPO", "/repo"), "exact_diag") + os.sep


class Monitor:
    """calls handler(code, position) for every line or instruction of the package run by a registered thread"""

    def __init__(self, kind):
        self.kind = kind
        self.handlers = {}
        self.on = False

    def start(self):
        ev = MON.events.LINE if self.kind == "line" else MON.events.INSTRUCTION
        MON.use_tool_id(TOOL, "edsim")
        ident = threading.get_ident
        handlers = self.handlers

        def cb(code, pos):
            fn = code.co_filename
            if not (fn.startswith(ROOT) or fn.startswith(ROOT2)):
                return MON.DISABLE
            h = handlers.get(ident())
            if h is not None:
                h(code, pos)
        MON.register_callback(TOOL, ev, cb)
        MON.set_events(TOOL, ev)
        MON.restart_events()
        self.on = True

    def stop(self):
        if self.on:
            MON.set_events(TOOL, 0)
            MON.free_tool_id(TOOL)
            self.on = False

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        self.stop()


class Profile:
    """which positions a call passes, and how often"""

    def __init__(self):
        self.total = 0
        self.count = {}

    def __call__(self, code, pos):
        self.total += 1
        k = (code.co_qualname, code.co_firstlineno, pos)
        self.count[k] = self.count.get(k, 0) + 1

    def data(self):
        return (self.total, list(self.count.items()))


def target(src, prof):
    """an instant of a call: (position, occurrence); half uniformly in time, half uniformly over positions"""
    total, items = prof
    if not items:
        return None
    if src.flip(0.7):
        k, n = items[src.choose(len(items))]
        return (k, src.choose(min(n, 1 << 20)) + 1)
    return (None, src.choose(min(total, 1 << 30)) + 1)


def _spans(tree):
    """lines where no program can be asked to survive an interrupt: the clean-up code itself (finally, handlers that raise
    again), the header of a with statement (its events include the instant before __exit__, at which CPython never delivers
    a signal), and the step from taking something to the try that gives it back"""
    out = set()

    def add(a, b):
        out.update(range(a.lineno, (b.end_lineno or b.lineno) + 1))
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, max(node.lineno + 1, node.body[0].lineno)))
        for field in ("body", "orelse", "finalbody"):
            block = getattr(node, field, None)
            if not isinstance(block, list):
                continue
            for x, y in zip(block, block[1:]):
                if isinstance(y, ast.Try) and y.finalbody and not hasattr(x, "body"):
                    add(x, x)
        if isinstance(node, ast.Try):
            if node.finalbody:
                out.add(node.lineno)
                add(node.finalbody[0], node.finalbody[-1])
            for h in node.handlers:
                broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
                if broad or any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)):
                    add(h, h.body[-1])
    return out


def _load():
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for root in {ROOT, ROOT2}:
            for d, _, names in os.walk(root):
                for n in names:
                    if n.endswith(".py"):
                        fn = os.path.join(d, n)
                        try:
                            with open(fn, "rb") as h:
                                out[fn] = _spans(ast.parse(h.read()))
                        except (SyntaxError, OSError):
                            pass
    return out


_shelter = _load()


def sheltered():
    """is a frame of the package, at or below the current event, in such a place?"""
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(ROOT) or fn.startswith(ROOT2):
            if f.f_lineno in _shelter.get(fn, ()):
                return True
        f = f.f_back
    return False


class At:
    """handler which calls act() when the instant is reached; with guard, at the first later instant that is not sheltered"""

    def __init__(self, tgt, act, guard=True):
        self.key, self.n = tgt if tgt else (None, -1)
        self.seen = 0
        self.act = act
        self.guard = guard
        self.due = False
        self.done = False
        self.where = None

    def __call__(self, code, pos):
        if self.done:
            return
        if not self.due:
            if self.key is not None and (code.co_qualname, code.co_firstlineno, pos) != self.key:
                return
            self.seen += 1
            if self.seen != self.n:
                return
            self.due = True
        if self.guard and sheltered():
            return
        self.done = True
        self.where = (code.co_qualname, pos)
        self.act()


def fingerprint(roots):
    """cheap summary of the public attributes of objects and of arrays, following references"""
    out, seen, todo = [], set(), list(roots)
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (int, float, complex, str, bool, bytes, np.generic)):
            out.append(o)
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            out.append((o.shape, o.tobytes() if o.dtype != object else None))
        elif sp.issparse(o):
            out.append(o.shape)
            todo.extend(v for k, v in sorted(vars(o).items()) if isinstance(v, np.ndarray))
        elif isinstance(o, (list, tuple)):
            out.append(len(o))
            todo.extend(o)
        elif isinstance(o, dict):
            todo.extend(v for k, v in sorted(o.items(), key=lambda t: str(t[0])))
        elif not callable(o) and hasattr(o, "__dict__"):
            todo.extend(v for k, v in sorted(vars(o).items()) if k[0] != "_")
    return out


def statics():
    """what the classes of the package themselves hold"""
    if not _classes:
        for n, m in list(sys.modules.items()):
            if m is not None and n.startswith("exact_diag."):
                _classes.extend(c for c in vars(m).values() if isinstance(c, type) and c.__module__ == n)
    out = {}
    for c in _classes:
        for a, v in list(vars(c).items()):
            if a[0] != "_" and isinstance(v, (np.ndarray, int, float, complex, list)):
                out[c.__name__ + "." + a] = v
    return out


_classes = []


class Watch:
    """looks, at every stride-th position a call passes, at everything other threads can see"""

    def __init__(self, roots, full, stride=1):
        self.roots, self.full, self.stride = roots, full, stride
        self.before = full()
        self.last = fingerprint(roots + [statics()])
        self.n = self.looks = 0
        self.busy = False
        self.found = []

    def __call__(self, code, pos):
        self.n += 1
        if self.busy or self.n % self.stride or len(self.found) >= 64:
            return
        self.busy = True
        try:
            self.looks += 1
            try:
                now = fingerprint(self.roots + [statics()])
                if same(now, self.last):
                    return
            except Exception:
                now = None
            e = same_snap(self.before, self.full())
            if e:
                self.found.append((self.n, (code.co_qualname, pos), e))
            else:
                self.last = now
        finally:
            self.busy = False


def same(a, b):
    try:
        return a == b or repr(a) == repr(b)
    except ValueError:
        return False


def watched(c, kind, objs, total):
    """make the call and look at the objects and at what it was given on the way"""
    w = Watch(list(objs) + [a for a in c.args if not callable(a)] + [v for v in c.kw.values() if not callable(v)],
              lambda: snap(c) + [canon(o) for o in objs] + [canon(statics())], max(1, total // 1000))
    with Monitor(kind) as m:
        m.handlers[threading.get_ident()] = w
        try:
            out = perform(c)
        finally:
            m.handlers.clear()
    return w, out


# ------------------------------------------------------------------------------------------------------ one call

def build(E, name, p):
    try:
        return ops.OPS[name](E, p), None
    except core.HarnessError:
        raise
    except Exception as e:
        return None, ("build", type(e).__name__)


def perform(c):
    """outcome of a call and the raw result"""
    try:
        r = c.fn(*c.args, **c.kw)
    except Exception as e:
        return ("exc", type(e).__name__), None
    return value(c, r), r


def perform_raw(c):
    r = c.fn(*c.args, **c.kw)
    return c.post(r) if c.post else r


def value(c, r):
    try:
        return ("ok", canon(c.post(r) if c.post else r))
    except Exception as e:
        return ("post", type(e).__name__)


def numeric_args(x, out, depth=0):
    if depth > 4:
        return
    if sp.issparse(x):
        if hasattr(x, "data") and isinstance(x.data, np.ndarray) and x.data.dtype.kind in "fc":
            out.append(x.data)
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "fc" and x.size and x.flags.writeable:
            out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            numeric_args(y, out, depth + 1)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            numeric_args(x[k], out, depth + 1)


def edit(c, k):
    """the caller changes one of its own arrays in place between two calls"""
    out = []
    numeric_args(c.args, out)
    numeric_args(c.kw, out)
    if out:
        out[k % len(out)][...] *= (1.25, 0.5)[k % 2]
    return len(out)


def snap(c):
    """value of everything the call is given"""
    return [canon(a) for a in c.args if not callable(a)] + [canon({k: v for k, v in c.kw.items() if not callable(v)})] + \
        [canon(o) for o in c.objs]


def kept(before, after):
    """difference between two snapshots, ignoring attributes that only exist afterwards"""
    return diff(prune(after, before), before, tol=0)


def prune(a, b):
    """a without the attributes of objects that b does not have"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == "obj" and b[0] == "obj" and len(a) == 3 and len(b) == 3:
            names = {k for k, _ in b[2][1]}
            bd = dict(b[2][1])
            return (a[0], a[1], (a[2][0], tuple((k, prune(v, bd[k])) for k, v in a[2][1] if k in names)))
        if len(a) == len(b):
            return tuple(prune(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return tuple(prune(x, y) for x, y in zip(a, b)) if len(a) == len(b) else tuple(a)
    return a


def same_snap(before, after):
    return diff(prune(tuple(after), tuple(before)), tuple(before), tol=0)


# ------------------------------------------------------------------------------------------------------ reference

class Oracle:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                core.die_with_parent()
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.pid = w1, r2, pid
        self.memo = {}

    def serve(self, r, w):
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        while True:
            q = core.recv(r)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    core.die_with_parent()
                    try:
                        a = self.answer(q)
                    except BaseException as e:
                        import traceback
                        a = ("harness", traceback.format_exc())
                    core.send(w, a)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def answer(self, q):
        events, name, d, edits, kind, used = q
        sys.stdout = io.StringIO()
        E = world.Env(world.api(), events, used)
        c, err = build(E, name, world.P(d))
        if err:
            return err, None, (0, [])
        for k in edits:
            edit(c, k)
        if kind is None:
            return perform(c)[0], None, (0, [])
        prof = Profile()
        with Monitor(kind) as m:
            m.handlers[threading.get_ident()] = prof
            out = perform(c)[0]
        return out, None, prof.data()

    def ask(self, events, name, d, edits=(), kind=None, used=None):
        core.send(self.w, (list(events), name, dict(d), list(edits), kind, used))
        a = core.recv(self.r)
        if a is None or a[0] == "harness":
            raise core.HarnessError("reference: " + (a[1] if a else "no answer"))
        return a[0], a[2]

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def check(what, got, want, name, d):
    """compare an outcome with the reference"""
    if got[0] != want[0] or (got[0] != "ok" and got != want):
        raise core.Violation(f"{what}:{name}", f"{name}({d}): got {brief(got)}, alone in a fresh process {brief(want)}")
    if got[0] == "ok":
        e = diff(got[1], want[1])
        if e:
            raise core.Violation(f"{what}:{name}", f"{name}({d}): differs from the same call alone in a fresh process: {e}")


def brief(o):
    return o[0] if o[0] == "ok" else f"{o[0]} {o[1]}"


def redraw(src, d):
    """the same call with one or two parameters drawn again"""
    d2 = dict(d)
    if d2:
        for _ in range(1 + src.flip(0.3)):
            k = sorted(d2)[src.choose(len(d2))]
            d2[k] = d2[k] + 1 + src.choose(3)
    return d2

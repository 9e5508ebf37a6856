"""A run against one world: live objects that keep their history, and the reference that has none."""
import io
import sys

import numpy as np
import scipy.sparse as sp

from . import calls, core, ops, world
from .canon import canon, diff

PATTERNS = [["s0", "s1", "f0", "g3"], ["s0", "s2", "s3", "f2"], ["s0", "f1", "f0", "g3"], ["s1", "f2", "f0", "g2"],
            ["s0", "s1", "f0", "f2", "g2", "g3"], ["s1", "s0", "f1", "f2"], ["s0", "s4", "f0", "g3"], ["f3", "s4", "f2"]]


class Session:
    def __init__(self, ctx, names=None, slots=None):
        self.ctx, self.src = ctx, ctx.src
        self.stdout = sys.stdout
        sys.stdout = self.out = io.StringIO()
        self.oracle = calls.Oracle()
        self.names = names or ops.names()
        ev = world.new_world(self.src, slots or PATTERNS[self.src.choose(len(PATTERNS))])
        self.E = world.Env(world.api(), ev)
        self.E.build_all()
        self.kept = []
        self.used = {}
        self.numbers = {}
        self.world0 = None

    # ------------------------------------------------------------------ drawing
    def new(self, name=None):
        """a call that has not been made yet: (name, params, Call)"""
        if name is None:
            name = self.names[self.src.choose(len(self.names))]
        return self.made(name, world.P(src=self.src))

    def again(self, name, d):
        return self.made(name, world.P(d, src=self.src))

    def made(self, name, p):
        self.E.used = set()
        c, err = calls.build(self.E, name, p)
        self.used[name, tuple(sorted(p.d.items()))] = sorted(self.E.used)
        self.numbers.setdefault(name, set()).update(p.numbers)
        if err:
            want, _ = self.ref(name, p.d)
            if want != err:
                raise core.Violation(f"build:{name}", f"{name}({p.d}): cannot be called here ({err[1]}), in a fresh process {calls.brief(want)}")
            return name, p.d, None
        return name, p.d, c

    def near(self, name, d):
        """nearly the same call: other numbers in the same shapes, or one or two parameters drawn again"""
        keys = sorted(k for k in self.numbers.get(name, ()) if k in d)
        if keys and self.src.flip(0.5):
            return self.again(name, {**d, **{k: d[k] + 1 + self.src.choose(3) for k in keys}})
        return self.again(name, calls.redraw(self.src, d))

    # ------------------------------------------------------------------ calling
    def objects(self):
        return [canon(self.E.obj[s]) for s in sorted(self.E.obj)] + [canon(calls.statics())]

    def everything(self):
        return [self.E.obj[s] for s in sorted(self.E.obj)]

    def ref(self, name, d, edits=(), kind=None):
        return self.oracle.ask(self.E.events, name, d, edits, kind, self.used.get((name, tuple(sorted(d.items())))))

    def plain(self, name, d, c, what="history", edits=(), want=None, keep=True, check_args=True):
        """make the call, compare with the reference and see that nothing given to it changed; returns the result"""
        if c is None:
            return None
        if want is None:
            want, _ = self.ref(name, d, edits)
        before = calls.snap(c) if check_args else None
        got, r = calls.perform(c)
        self.ctx.steps += 1
        self.ctx.counts["calls"] += 1
        self.ctx.log(what, name, sorted(d.items()), calls.brief(got))
        if check_args:
            e = calls.same_snap(before, calls.snap(c))
            if e:
                raise core.Violation(f"modified:{name}", f"{name}({d}) changed what it was given: {e}")
        calls.check(what, got, want, name, d)
        if keep and got[0] == "ok" and "once" not in ops.TAGS[name]:
            self.kept.append((name, d, c.post, r, got[1]))
        return r if got[0] == "ok" else None

    def recheck(self):
        """results handed out earlier must still be what they were"""
        for name, d, post, r, v in self.kept:
            try:
                w = canon(post(r) if post else r)
            except Exception as e:
                raise core.Violation(f"changed-later:{name}", f"result of {name}({d}) no longer usable: {type(e).__name__} {e}")
            e = diff(w, v, tol=1e-12)
            if e:
                raise core.Violation(f"changed-later:{name}", f"result of {name}({d}) was changed by later calls: {e}")

    def close(self):
        self.oracle.close()
        sys.stdout = self.stdout


def scribble(r, depth=0):
    """what a caller may do to a result: overwrite its numbers, drop list entries"""
    n = 0
    if sp.issparse(r):
        if isinstance(getattr(r, "data", None), np.ndarray) and r.data.dtype.kind in "biufc" and r.data.flags.writeable and r.data.size:
            r.data[...] = 1 if r.data.dtype.kind == "b" else 77
            n += 1
    elif isinstance(r, np.ndarray):
        if r.dtype.kind in "biufc" and r.flags.writeable and r.size:
            r[...] = 1 if r.dtype.kind == "b" else 77
            n += 1
    elif isinstance(r, (list, tuple)) and depth < 3:
        for x in r:
            n += scribble(x, depth + 1)
        if isinstance(r, list) and r:
            r.pop()
            n += 1
    return n

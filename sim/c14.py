"""Progress output on and off, clocks of every kind, output that fails."""
import errno
import io
import sys

from . import calls, clocks, ops, world
from .core import Violation
from .session import Session

LEVEL = "fault_enumeration"
COUNTS = {"quick": 560, "thorough": 12000}
RULE = ("catalogued calls, preferably those with progress output, made with output on under simulated clocks (standing "
        "still, fast, backwards, jumping at any reading, also the interval clocks) and compared with the same call with output "
        "off under a steady clock in a fresh process; then with standard output failing at a chosen write")
STATE_MEASURE = "distinct (operation, clock mode, kind of output failure, failing write, outcome) tuples"
REAL = ["all of exact_diag except the batch scripts", "numpy", "scipy"]
STUB = ["clocks", "sys.stdout"]
ASSUMPTIONS = []
ERRORS = [("full", lambda: OSError(errno.ENOSPC, "No space left on device")),
          ("pipe", lambda: BrokenPipeError(errno.EPIPE, "Broken pipe")),
          ("closed", lambda: ValueError("I/O operation on closed file")),
          ("encode", lambda: UnicodeEncodeError("ascii", "\u00e9", 0, 1, "ordinal not in range(128)"))]


class Out(io.StringIO):
    """standard output whose n-th write fails"""

    def __init__(self, n=None, make=None, later=False):
        super().__init__()
        self.count = 0
        self.n, self.make, self.later = n, make, later
        self.fired = None

    def write(self, s):
        self.count += 1
        if self.n is not None and (self.count == self.n or (self.later and self.count > self.n)):
            self.fired = self.make()
            raise self.fired
        return super().write(s)


def run(ctx):
    src = ctx.src
    s = Session(ctx)
    clock = clocks.Clock("steady")
    clocks.install(clock)
    talk = ops.names("print") + ops.names("print_progress")
    rest = [n for n in ops.names() if n not in talk]
    for rnd in range(7 if ctx.tier == "quick" else 16):
        clock.set("steady")
        sys.stdout = s.out
        nm = talk[src.stratum(len(talk), rnd * 11)] if rnd % 4 != 3 else rest[src.stratum(len(rest), rnd * 5)]
        name, d, c = s.new(nm)
        if c is None:
            continue
        quiet = dict(d)
        if "print" in d:
            quiet["print"] = 0
        want, _ = s.ref(name, quiet)
        writes = 0
        for on in ([1, 0] if "print" in d else [None]):
            d2 = dict(d) if on is None else dict(d, print=on)
            mode = clocks.MODES_ALL[src.choose(len(clocks.MODES_ALL))]
            clock.set(mode, src.choose(1 << 16))
            name, d2, c = s.again(name, d2)
            r0 = clock.reads
            out = sys.stdout = Out()
            s.plain(name, d2, c, what="clock-" + mode, want=want)
            sys.stdout = s.out
            if clock.reads > r0:
                ctx.fault("clock_" + mode)
            ctx.simtime += max(0.0, clock.mono - 1000.0)
            if on != 0:
                writes, loud = out.count, d2
            ctx.state(name, mode, "ok")
        if not writes:
            continue
        for j in range(2):
            kind, make = ERRORS[src.choose(len(ERRORS))]
            n = 1 + src.choose(writes)
            later = src.flip(0.5)
            mode = clocks.MODES_ALL[src.choose(len(clocks.MODES_ALL))]
            clock.set(mode, src.choose(1 << 16))
            name, loud, c = s.again(name, loud)
            objs, args = s.objects(), calls.snap(c)
            out = sys.stdout = Out(n, make, later)
            try:
                got, r, err = None, None, None
                r = c.fn(*c.args, **c.kw)
                got = calls.value(c, r)
            except Exception as e:
                err = e
            finally:
                sys.stdout = s.out
            ctx.steps += 1
            if out.fired is not None:
                ctx.fault("output_" + kind)
            ctx.state(name, mode, kind, n, type(err).__name__)
            ctx.log(name, sorted(loud.items()), mode, kind, n, type(err).__name__)
            if err is None:
                if got[0] == "ok" or want[0] == "ok":
                    calls.check("output-failure", got, want, name, loud)
            elif out.fired is None:
                calls.check("output-failure", ("exc", type(err).__name__), want, name, loud)
            elif not isinstance(err, type(out.fired)):
                if want[0] != "exc" or want[1] != type(err).__name__:
                    raise Violation("error-replaced:" + name, f"{name}({loud}): output failed with {out.fired!r} but the call raised {err!r}")
            e = calls.same_snap(args, calls.snap(c))
            if e:
                raise Violation("args:" + name, f"{name}({loud}), output failing at write {n}, left what it was given changed: {e}")
            e = calls.same_snap(objs, s.objects())
            if e:
                raise Violation("objects:" + name, f"{name}({loud}), output failing at write {n}, left an object changed: {e}")
            s.plain(name, loud, c, what="after-output-failure", want=want)
    s.recheck()
    s.close()

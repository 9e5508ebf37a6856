"""Simulated clocks.  Modes are chosen by the caller; every reading is a function of the mode and the reading count."""
import datetime as _dt
import random
import sys
import time as _time

REAL = {n: getattr(_time, n) for n in
        ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
         "process_time_ns", "thread_time", "thread_time_ns", "sleep", "localtime", "gmtime", "strftime", "ctime",
         "asctime", "clock_gettime", "clock_gettime_ns")}
REAL_DATETIME = _dt.datetime
REAL_DATE = _dt.date

MODES = ["steady", "frozen", "fast", "backward", "jumpy", "repeat_hour", "zero", "negative"]
# also the interval clocks misbehave (broken counters, resumed virtual machines)
MODES_ALL = MODES + ["mono_back", "mono_jumpy"]


class Clock:
    def __init__(self, mode="steady", seed=0, start=1.7e9):
        self.mode = mode
        self.rng = random.Random(f"clock:{seed}")
        self.t = start
        self.start = start
        self.cpu = 1.0
        self.mono = 1000.0
        self.reads = 0

    def _tick(self):
        self.reads += 1
        m = self.mode
        if m == "steady":
            d = 1e-4
        elif m in ("frozen", "zero", "negative"):
            d = 0.0
        elif m == "fast":
            d = 7200.0
        elif m == "backward":
            d = -1.0
        elif m == "jumpy":
            d = self.rng.choice([0.0, 1e-6, 1e-3, 1.0, 3600.0, 1e6])
        elif m == "repeat_hour":
            d = 1800.0
        else:
            d = 1e-4
        return d

    def wall(self):
        d = self._tick()
        m = self.mode
        if m == "jumpy" and self.rng.random() < 0.5:
            d = -d
        self.t += d
        if m == "repeat_hour":
            return self.start + (self.t - self.start) % 3600.0
        if m == "zero":
            return 0.0
        if self.t < 0 or self.t > 4e9:
            self.t = self.start
        return self.t

    def monotonic(self):
        # monotonic clocks never run backwards; in the other modes they stall or leap
        if self.mode == "mono_back":
            self.reads += 1
            self.mono -= 3.0
            return self.mono
        if self.mode == "mono_jumpy":
            self.reads += 1
            self.mono += self.rng.choice([0.0, -1e6, 1e6, 1e-9, -1e-3, 3600.0])
            return self.mono
        self.mono += abs(self._tick())
        if self.mode == "zero":
            return 0.0
        if self.mode == "negative":
            return -5.0
        return self.mono

    def set(self, mode, seed=0):
        self.mode = mode
        self.rng = random.Random(f"clock:{seed}")
        self.t, self.cpu, self.mono = self.start, 1.0, 1000.0

    def cputime(self):
        self.cpu += abs(self._tick())
        if self.mode == "zero":
            return 0.0
        return self.cpu


def install(clock, on_sleep=None):
    """replace the clocks in the time and datetime modules and wherever exact_diag modules imported them by name"""
    c = clock
    f = {
        "time": lambda: c.wall(),
        "time_ns": lambda: int(c.wall() * 1e9),
        "monotonic": lambda: c.monotonic(),
        "monotonic_ns": lambda: int(c.monotonic() * 1e9),
        "perf_counter": lambda: c.monotonic(),
        "perf_counter_ns": lambda: int(c.monotonic() * 1e9),
        "process_time": lambda: c.cputime(),
        "process_time_ns": lambda: int(c.cputime() * 1e9),
        "thread_time": lambda: c.cputime(),
        "thread_time_ns": lambda: int(c.cputime() * 1e9),
        "localtime": lambda s=None: REAL["gmtime"](c.wall() if s is None else s),
        "gmtime": lambda s=None: REAL["gmtime"](c.wall() if s is None else s),
        "ctime": lambda s=None: REAL["ctime"](c.wall() if s is None else s),
        "strftime": lambda fmt, t=None: REAL["strftime"](fmt, REAL["gmtime"](c.wall()) if t is None else t),
        "asctime": lambda t=None: REAL["asctime"](REAL["gmtime"](c.wall()) if t is None else t),
        "clock_gettime": lambda clk: c.wall() if clk == 0 else c.monotonic(),
        "clock_gettime_ns": lambda clk: int((c.wall() if clk == 0 else c.monotonic()) * 1e9),
    }

    def sleep(s):
        c.t += float(s)
        c.mono += float(s)
        if on_sleep:
            on_sleep(s)
    f["sleep"] = sleep

    class SimDatetime(REAL_DATETIME):
        @classmethod
        def now(cls, tz=None):
            d = REAL_DATETIME.fromtimestamp(c.wall(), _dt.timezone.utc)
            d = d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()

    class SimDate(REAL_DATE):
        @classmethod
        def today(cls):
            d = REAL_DATETIME.fromtimestamp(c.wall(), _dt.timezone.utc)
            return cls(d.year, d.month, d.day)

    subst = {}
    for name, fake in f.items():
        subst[id(REAL[name])] = fake
        setattr(_time, name, fake)
    subst[id(REAL_DATETIME)] = SimDatetime
    subst[id(REAL_DATE)] = SimDate
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    patch_names(subst)
    return f


def uninstall():
    for name, fn in REAL.items():
        setattr(_time, name, fn)
    _dt.datetime = REAL_DATETIME
    _dt.date = REAL_DATE


def patch_names(subst, extra=()):
    """apply a substitution to names that exact_diag modules bound at import"""
    mods = [m for n, m in list(sys.modules.items()) if m is not None and
            (n == "exact_diag" or n.startswith("exact_diag.") or n in extra)]
    for m in mods:
        for k, v in list(vars(m).items()):
            if id(v) in subst:
                setattr(m, k, subst[id(v)])

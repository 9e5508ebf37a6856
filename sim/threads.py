"""Real threads, one running at a time; the scheduler hands over at chosen lines or instructions of the package."""
import os
import threading

from . import calls
from .core import Violation

QUIET = 6          # this many polls without a trace of life and without cpu time: the thread waits for another one
POLL_S = 0.15


def life(tid):
    """state and cpu time of a thread of this process"""
    try:
        with open(f"/proc/self/task/{tid}/stat") as f:
            x = f.read().rsplit(")", 1)[1].split()
        return x[0], x[11], x[12]
    except OSError:
        return None


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.out = None
        self.err = None
        self.at = None
        self.started = False
        self.thread = None


class Sched:
    def __init__(self, kind, on_event=None, mon=None):
        self.kind = kind
        self.main = threading.Semaphore(0)
        self.tasks = []
        self.given = mon is not None        # a monitor that is already running and goes on afterwards
        self.mon = mon or calls.Monitor(kind)
        self.trace = []
        self.on_event = on_event

    def add(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        self.mon.handlers[threading.get_ident()] = lambda code, pos: self._event(t, code, pos)
        try:
            t.out = t.fn()
        except BaseException as e:
            t.err = e
        finally:
            self.mon.handlers.pop(threading.get_ident(), None)
            t.done = True
            self.main.release()

    def _event(self, t, code, pos):
        if self.on_event is not None:
            self.on_event(t, code, pos)
        a = t.at
        if a is not None:
            a(code, pos)

    def _pause(self, t):
        self.main.release()
        t.sem.acquire()

    def slice(self, t, tgt):
        """let t run until tgt (None: to its end); returns True if it is done"""
        if t.done:
            return True
        if tgt is None:
            t.at = None
        else:
            t.at = calls.At(tgt, lambda: self._pause(t), guard=False)
        if not t.started:
            t.started = True
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        at = t.at
        t.sem.release()
        quiet, last = 0, None
        while not self.main.acquire(timeout=POLL_S):
            now = life(t.thread.native_id)
            quiet = quiet + 1 if now == last and now is not None and now[0] == "S" else 0
            last = now
            if quiet >= QUIET and any(o is not t and o.started and not o.done for o in self.tasks):
                # t waits for something another thread holds: let the others go on
                return self._unblock(t)
        self.trace.append((t.name, at.where if at is not None and at.where else "end"))
        return t.done

    def _unblock(self, t):
        t.at = None
        for o in self.tasks:
            if o is not t and o.started and not o.done:
                o.at = None
                o.sem.release()
        for _ in range(60):
            if all(o.done for o in self.tasks if o.started):
                break
            self.main.acquire(timeout=1.0)
        else:
            raise Violation("deadlock", "threads wait for each other: " + ", ".join(o.name for o in self.tasks if o.started and not o.done))
        self.main = threading.Semaphore(0)
        self.trace.append((t.name, "blocked"))
        return True

    def __enter__(self):
        if not self.given:
            self.mon.start()
        return self

    def __exit__(self, *a):
        if not self.given:
            self.mon.stop()

    def finish(self):
        for t in self.tasks:
            self.slice(t, None)
        for t in self.tasks:
            if t.thread is not None:
                t.thread.join(5)

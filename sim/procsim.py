"""Simulated processes on a simulated shared disk.

A simulated process is a forked child that runs real code.  Every file operation below the scratch root, every sleep and
every lock wait is a request to the scheduler; the child stands still until the scheduler answers.  Exactly one process
runs at a time, so the order of operations, the listing order of folders, buffer sizes, errors, short and torn writes,
kills and power losses are all chosen by the seed.
"""
import builtins
import errno
import io
import os
import random
import signal
import sys
import traceback

from . import clocks, core
from .core import send, recv, Violation, HarnessError, TooLong

R = {n: getattr(os, n) for n in
     ("open", "write", "read", "close", "fsync", "fdatasync", "replace", "rename", "remove", "unlink", "link",
      "symlink", "mkdir", "rmdir", "truncate", "ftruncate", "listdir", "scandir", "stat", "lstat", "getpid", "urandom",
      "uname", "pwrite", "writev", "sync", "sendfile", "utime", "chmod", "access")}
R_OPEN = io.open


# --------------------------------------------------------------------------------------------------------- child side

class Killed(BaseException):
    pass


class Gate:
    def __init__(self, rfd, wfd, root, prng):
        self.rfd, self.wfd = rfd, wfd
        self.root = os.path.realpath(root)
        self.fds = {}
        self.nh = 0
        self.prng = prng
        self.stdout_gated = False
        self.busy = False

    def mine(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root or p.startswith(self.root + "/"):
            return p
        rp = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if rp == self.root or rp.startswith(self.root + "/"):
            return rp
        return None

    def req(self, kind, **info):
        send(self.wfd, ("op", kind, info))
        rep = recv(self.rfd)
        if rep is None:
            os._exit(99)
        if rep[0] == "fail":
            raise OSError(rep[1], os.strerror(rep[1]), info.get("path"))
        if rep[0] == "intr":
            raise KeyboardInterrupt()
        if rep[0] == "mem":
            raise MemoryError()
        return rep

    def note(self, kind, **info):
        send(self.wfd, ("note", kind, info))

    def hang(self):
        recv(self.rfd)
        os._exit(99)

    # -- handles
    def opened(self, fd, path, existed, trunc):
        self.nh += 1
        self.fds[fd] = (self.nh, path)
        self.note("opened", h=self.nh, path=path, existed=existed, trunc=trunc)
        return self.nh

    def write(self, fd, data, pos, fn):
        h, path = self.fds[fd]
        data = bytes(data)
        rep = self.req("write", path=path, n=len(data))
        if rep[0] in ("short", "torn"):
            data = data[:rep[1]]
        n = fn(data)
        if n is None:
            n = 0
        self.note("written", h=h, pos=pos, data=data[:n])
        if rep[0] == "torn":
            self.hang()
        return n


def install_child(gate, clock, pid, host, stdout_gated=False, np_inherit=False):
    g = gate
    g.stdout_gated = stdout_gated

    class GateFileIO(io.FileIO):
        def __init__(self, file, mode="r", closefd=True, opener=None):
            path = g.mine(file) if not isinstance(file, int) else None
            self._g = None
            if path is not None:
                existed = os.path.lexists(path) if False else _lexists(path)
                rep = g.req("open", path=path, mode=mode, existed=existed)
                self._bufsize = rep[1] if len(rep) > 1 else None
                super().__init__(file, mode, closefd, opener)
                self._g = g.opened(self.fileno(), path, existed, "w" in mode and "x" not in mode and existed)
                self._path = path
            else:
                super().__init__(file, mode, closefd, opener)
                self._bufsize = None
                if isinstance(file, int) and file in g.fds:
                    self._g, self._path = g.fds[file]

        def write(self, b):
            if self._g is None:
                return super().write(b)
            with memoryview(b) as mv:
                data = mv.tobytes()
            pos = self.tell() if "a" not in self.mode else R["stat"](self.fileno()).st_size
            return g.write(self.fileno(), data, pos, super().write)

        def readinto(self, b):
            if self._g is not None:
                g.req("read", path=self._path)
            return super().readinto(b)

        def read(self, n=-1):
            if self._g is not None:
                g.req("read", path=self._path)
            return super().read(n)

        def readall(self):
            if self._g is not None:
                g.req("read", path=self._path)
            return super().readall()

        def truncate(self, size=None):
            if self._g is not None:
                g.req("truncate", path=self._path)
                r = super().truncate(size)
                g.note("truncated", h=self._g, size=r)
                return r
            return super().truncate(size)

        def close(self):
            if self._g is not None and not self.closed:
                fd = self.fileno()
                err = None
                if self.writable():
                    try:
                        g.req("close", path=self._path)
                    except BaseException as e:
                        err = e
                g.fds.pop(fd, None)
                g.note("closed", h=self._g)
                self._g = None
                super().close()
                if err is not None:
                    raise err
                return
            super().close()

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in g.fds:
                return R_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        elif g.mine(file) is None:
            return R_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        rawmode = "".join(c for c in mode if c in "rwxa+")
        raw = GateFileIO(file, rawmode, closefd, opener)
        if buffering == 0:
            return raw
        bs = raw._bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, bs)
        elif "r" in rawmode:
            buf = io.BufferedReader(raw, max(bs, 4096))
        else:
            buf = io.BufferedWriter(raw, bs)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        return t

    builtins.open = sim_open
    io.open = sim_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        p = g.mine(path)
        if p is None or dir_fd is not None or (flags & os.O_DIRECTORY):
            return R["open"](path, flags, mode, dir_fd=dir_fd)
        existed = _lexists(p)
        if os.path.isdir(p):
            return R["open"](path, flags, mode)
        g.req("open", path=p, mode="w" if flags & (os.O_WRONLY | os.O_RDWR) else "r", existed=existed)
        fd = R["open"](path, flags, mode)
        g.opened(fd, p, existed, bool(flags & os.O_TRUNC) and existed)
        return fd

    def os_write(fd, data):
        if fd in g.fds:
            pos = os.lseek(fd, 0, os.SEEK_CUR)
            return g.write(fd, data, pos, lambda d: R["write"](fd, d))
        return R["write"](fd, data)

    def os_close(fd):
        if fd in g.fds:
            h, p = g.fds.pop(fd)
            g.note("closed", h=h)
        return R["close"](fd)

    def os_fsync(fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd in g.fds:
            g.req("fsync", path=g.fds[fd][1])
            r = R["fsync"](fd)
            g.note("synced", h=g.fds[fd][0])
            return r
        try:
            if os.path.isdir(os.readlink(f"/proc/self/fd/{fd}")):
                g.req("fsync", path=os.readlink(f"/proc/self/fd/{fd}"))
                g.note("dirsynced")
                return None
        except OSError as e:
            if e.errno in (errno.EIO, errno.ENOSPC):
                raise
        return R["fsync"](fd)

    def os_ftruncate(fd, n):
        if fd in g.fds:
            g.req("truncate", path=g.fds[fd][1])
            R["ftruncate"](fd, n)
            g.note("truncated", h=g.fds[fd][0], size=n)
            return
        return R["ftruncate"](fd, n)

    def two(kind, real):
        def f(a, b, *args, **kw):
            pa, pb = g.mine(a), g.mine(b)
            if pa is None and pb is None:
                return real(a, b, *args, **kw)
            g.req(kind, path=pa, path2=pb)
            r = real(a, b, *args, **kw)
            g.note("did", op=kind, path=pa, path2=pb)
            return r
        return f

    def one(kind, real):
        def f(a, *args, **kw):
            p = g.mine(a) if not isinstance(a, int) else None
            if p is None or kw.get("dir_fd") is not None:
                return real(a, *args, **kw)
            g.req(kind, path=p)
            r = real(a, *args, **kw)
            g.note("did", op=kind, path=p, path2=None)
            return r
        return f

    os.open, os.write, os.close, os.fsync, os.fdatasync, os.ftruncate = \
        os_open, os_write, os_close, os_fsync, os_fsync, os_ftruncate
    os.replace = two("rename", R["replace"])
    os.rename = two("rename", R["rename"])
    os.link = two("link", R["link"])
    os.symlink = two("symlink", R["symlink"])
    os.remove = one("unlink", R["remove"])
    os.unlink = one("unlink", R["unlink"])
    os.mkdir = one("mkdir", R["mkdir"])
    os.rmdir = one("rmdir", R["rmdir"])
    os.truncate = one("truncate_path", R["truncate"])

    def os_sync():
        g.note("syncall")
    os.sync = os_sync

    def os_stat(path, *args, **kw):
        p = g.mine(path) if not isinstance(path, int) else None
        if p is not None and not kw.get("dir_fd"):
            g.req("stat", path=p)
        return R["stat"](path, *args, **kw)
    os.stat = os_stat

    def _sorted_names(path):
        return sorted(R["listdir"](path))

    def os_listdir(path="."):
        p = g.mine(path)
        if p is None:
            return R["listdir"](path)
        rep = g.req("list", path=p)
        names = _sorted_names(path)
        random.Random(rep[1] if len(rep) > 1 else 0).shuffle(names)
        return names

    class Scan:
        def __init__(self, ents):
            self.it = iter(ents)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def os_scandir(path="."):
        p = g.mine(path)
        if p is None:
            return R["scandir"](path)
        rep = g.req("list", path=p)
        with R["scandir"](path) as it:
            ents = sorted(it, key=lambda e: e.name)
        random.Random(rep[1] if len(rep) > 1 else 0).shuffle(ents)
        return Scan(ents)
    os.listdir, os.scandir = os_listdir, os_scandir

    import shutil
    shutil._USE_CP_SENDFILE = False

    import fcntl
    r_flock, r_lockf = fcntl.flock, fcntl.lockf

    def flock(fd, op):
        while True:
            try:
                return r_flock(fd, op | fcntl.LOCK_NB if not op & fcntl.LOCK_UN else op)
            except BlockingIOError:
                if op & fcntl.LOCK_NB:
                    raise
                g.req("lockwait")

    def lockf(fd, op, *a):
        while True:
            try:
                return r_lockf(fd, op | fcntl.LOCK_NB if not op & fcntl.LOCK_UN else op, *a)
            except BlockingIOError:
                if op & fcntl.LOCK_NB:
                    raise
                g.req("lockwait")
    fcntl.flock, fcntl.lockf = flock, lockf

    # identity, randomness, clocks
    os.getpid = lambda: pid
    import socket
    import platform
    socket.gethostname = lambda: host
    platform.node = lambda: host

    def urandom(n):
        return g.prng.randbytes(n)
    core.seam_entropy(urandom)
    random.seed(g.prng.randrange(1 << 62))
    import uuid
    uuid._node = g.prng.randrange(1 << 48)
    import tempfile
    tempfile.tempdir = None
    np = sys.modules.get("numpy")
    if np is not None and not np_inherit:      # a forked worker has its parent's numpy generator
        np.random.seed(g.prng.randrange(1 << 31))
    clocks.install(clock, on_sleep=lambda s: g.req("sleep", s=s))


def _lexists(p):
    try:
        R["lstat"](p)
        return True
    except OSError:
        return False


class Out(io.TextIOBase):
    encoding = "utf-8"

    def __init__(self, gate, name):
        self.buf = []
        self.g = gate
        self.nm = name

    def writable(self):
        return True

    def write(self, s):
        if self.g.stdout_gated and self.nm == "stdout":
            self.g.req("stdout", n=len(s))
        self.buf.append(s)
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def text(self):
        return "".join(self.buf)


# -------------------------------------------------------------------------------------------------------- parent side

class Inode:
    __slots__ = ("cur", "durable", "pend", "id")
    n = 0

    def __init__(self, durable=None):
        Inode.n += 1
        self.id = Inode.n
        self.cur = bytearray(durable or b"")
        self.durable = bytes(durable or b"")
        self.pend = []

    def apply(self, op):
        _apply(self.cur, op)
        self.pend.append(op)


def _apply(buf, op):
    if op[0] == "w":
        _, pos, data = op
        if pos > len(buf):
            buf.extend(b"\0" * (pos - len(buf)))
        buf[pos:pos + len(data)] = data
    elif op[0] == "t":
        n = op[1]
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))
    elif op[0] == "set":
        buf[:] = op[1]


class Proc:
    def __init__(self, name, pid, rfd, wfd):
        self.name = name
        self.pid = pid
        self.rfd, self.wfd = rfd, wfd      # parent reads rfd, writes wfd
        self.req = None
        self.dead = False
        self.code = None                   # exit code; None while alive, -9 if killed
        self.out = ""
        self.err = ""
        self.exc = None
        self.value = None
        self.handles = {}
        self.ops = 0
        self.faulted = False               # an error, interrupt or kill was injected into this process
        self.meta = {}


ERRNOS = {
    "open": [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE],
    "open_r": [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT],
    "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    "read": [errno.EIO, errno.ESTALE],
    "fsync": [errno.EIO, errno.ENOSPC],
    "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    "rename": [errno.EIO, errno.ENOSPC, errno.EACCES],
    "truncate": [errno.EIO],
    "list": [errno.EIO, errno.EACCES],
    "mkdir": [errno.ENOSPC],
    "link": [errno.EIO, errno.EPERM],
    "stdout": [errno.EPIPE, errno.ENOSPC, errno.EIO],
}


class Sim:
    def __init__(self, ctx, root, max_steps=60000):
        self.ctx = ctx
        self.src = ctx.src
        self.root = os.path.realpath(root)
        self.procs = []
        self.current = None
        self.max_steps = max_steps
        # knobs
        self.p_preempt = 0.0
        self.rates = {}                   # fault kind -> probability per eligible operation
        self.bufsizes = [None, 1 << 20, 512, 64, 16]
        self.vary_buf = False
        self.shuffle = True
        self.full_after = None            # disk full once this many bytes have been written
        self.bytes_written = 0
        self.on_change = None             # callback(proc, kind, info) after each operation that changed the disk
        self.target_ops = None            # restrict faults to these operation kinds
        # disk model
        self.names = {}
        self.durable_names = {}
        self.meta = []
        self.node_pids = 1000

    # ---- processes
    def spawn(self, name, fn, clock_mode="steady", clock_seed=0, clock_start=1.7e9, pid=None, host="node0", cwd=None,
              stdout_gated=False, np_inherit=False):
        r1, w1 = os.pipe()     # child -> parent
        r2, w2 = os.pipe()     # parent -> child
        if pid is None:
            self.node_pids += 1
            pid = self.node_pids
        prng_seed = f"{name}:{len(self.procs)}"
        sys.stdout.flush()
        cpid = os.fork()
        if cpid == 0:
            try:
                core.die_with_parent()
                os.close(r1)
                os.close(w2)
                if cwd:
                    os.chdir(cwd)
                g = Gate(r2, w1, self.root, random.Random(prng_seed))
                out, err = Out(g, "stdout"), Out(g, "stderr")
                sys.stdout, sys.stderr = out, err
                clk = clocks.Clock(clock_mode, clock_seed, clock_start)
                install_child(g, clk, pid, host, stdout_gated, np_inherit)
                code, exc, val = 0, None, None
                try:
                    g.req("start")
                    val = fn(g)
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException as e:
                    code = 1
                    exc = (type(e).__name__, str(e)[:500])
                    traceback.print_exc(file=err)
                try:
                    import atexit
                    atexit._run_exitfuncs()
                except BaseException:
                    pass
                g.stdout_gated = False
                send(w1, ("exit", code, out.text(), err.text(), exc, val))
            except BaseException:
                try:
                    send(w1, ("crash", traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        p = Proc(name, cpid, r1, w2)
        self.procs.append(p)
        self._advance(p)
        return p

    def _advance(self, p):
        """read messages of p up to its next request or its end"""
        while True:
            m = recv(p.rfd)
            if m is None:
                self._reap(p, -9 if p.code is None else p.code)
                raise HarnessError(f"simulated process {p.name} vanished")
            if m[0] == "op":
                p.req = (m[1], m[2])
                return
            if m[0] == "note":
                self._note(p, m[1], m[2])
            elif m[0] == "exit":
                _, code, p.out, p.err, p.exc, p.value = m
                self._reap(p, code)
                self.ctx.log(p.name, "exit", code, p.exc[0] if p.exc else "")
                return
            elif m[0] == "crash":
                self._reap(p, 70)
                raise HarnessError(m[1])

    def _reap(self, p, code):
        if p.dead:
            return
        p.dead = True
        p.code = code
        p.req = None
        os.close(p.rfd)
        os.close(p.wfd)
        try:
            os.kill(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p.pid, 0)
        except OSError:
            pass

    def kill(self, p, why="kill"):
        if not p.dead:
            self.ctx.fault(why)
            self.ctx.log(p.name, "KILLED", why, p.req[0] if p.req else "")
            p.faulted = True
            self._reap(p, -9)

    def alive(self):
        return [p for p in self.procs if not p.dead]

    # ---- disk model bookkeeping
    def adopt(self, path):
        """an existing file is durable as it is"""
        with R_OPEN(path, "rb") as f:
            ino = Inode(f.read())
        self.names[path] = ino
        self.durable_names[path] = ino

    def adopt_all(self):
        self.names.clear()
        self.durable_names.clear()
        self.meta.clear()
        for d, _, fs in os.walk(self.root):
            for f in fs:
                self.adopt(os.path.join(d, f))

    def _note(self, p, kind, i):
        if kind == "opened":
            path = i["path"]
            if path not in self.names:
                ino = Inode()
                if i["existed"]:
                    try:
                        with R_OPEN(path, "rb") as f:
                            ino = Inode(f.read())
                        self.durable_names[path] = ino
                    except OSError:
                        pass
                elif _lexists(path):
                    self.meta.append(("create", path, ino))
                self.names[path] = ino
            ino = self.names[path]
            p.handles[i["h"]] = ino
            if i["trunc"]:
                ino.apply(("t", 0))
            changed = i["trunc"] or not i["existed"]
        elif kind == "written":
            p.handles[i["h"]].apply(("w", i["pos"], i["data"]))
            self.bytes_written += len(i["data"])
            changed = True
        elif kind == "truncated":
            p.handles[i["h"]].apply(("t", i["size"]))
            changed = True
        elif kind == "closed":
            p.handles.pop(i["h"], None)
            changed = False
        elif kind == "synced":
            self._drift()
            ino = p.handles[i["h"]]
            ino.durable = bytes(ino.cur)
            ino.pend = []
            self._force_meta()
            changed = False
        elif kind in ("dirsynced", "syncall"):
            self._force_meta()
            if kind == "syncall":
                for ino in self.names.values():
                    ino.durable = bytes(ino.cur)
                    ino.pend = []
            changed = False
        elif kind == "did":
            k, a, b = i["op"], i["path"], i["path2"]
            changed = True
            if k == "rename":
                if a in self.names:
                    self.names[b] = self.names.pop(a)
                    self.meta.append(("rename", a, b))
            elif k == "unlink":
                self.names.pop(a, None)
                self.meta.append(("unlink", a))
            elif k == "link":
                if a in self.names:
                    self.names[b] = self.names[a]
                    self.meta.append(("create", b, self.names[a]))
            elif k == "truncate_path":
                self._drift()
        else:
            changed = False
        if changed and self.on_change is not None:
            self.on_change(p, kind, i)

    def _force_meta(self):
        for op in self.meta:
            self._apply_meta(self.durable_names, op)
        self.meta = []

    @staticmethod
    def _apply_meta(names, op):
        if op[0] == "create":
            names[op[1]] = op[2]
        elif op[0] == "rename":
            if op[1] in names:
                names[op[2]] = names.pop(op[1])
        elif op[0] == "unlink":
            names.pop(op[1], None)

    def _drift(self):
        """changes that bypassed the gates (C level writes) count as written but not synced"""
        seen = set()
        for d, _, fs in os.walk(self.root):
            for f in fs:
                path = os.path.join(d, f)
                seen.add(path)
                try:
                    with R_OPEN(path, "rb") as fh:
                        real = fh.read()
                except OSError:
                    continue
                ino = self.names.get(path)
                if ino is None:
                    ino = Inode()
                    self.names[path] = ino
                    self.meta.append(("create", path, ino))
                if bytes(ino.cur) != real:
                    ino.apply(("set", real))
        for path in list(self.names):
            if path not in seen:
                self.names.pop(path)
                self.meta.append(("unlink", path))

    def power_loss(self):
        """all processes die; what was not synced is kept, lost or torn as the seed says"""
        self._drift()
        for p in self.alive():
            p.faulted = True
            self._reap(p, -9)
        self.ctx.fault("power_loss")
        lost = self.src.choose(len(self.meta) + 1)
        keep = len(self.meta) - lost
        names = dict(self.durable_names)
        for op in self.meta[:keep]:
            self._apply_meta(names, op)
        content = {}
        for path in sorted(names):
            ino = names[path]
            if ino.id in content:
                continue
            if not ino.pend:
                content[ino.id] = bytes(ino.cur)
                continue
            how = self.src.choose(4)
            if how == 0:
                data = bytes(ino.cur)
            elif how == 1:
                data = ino.durable
            elif how == 2:
                data = ino.durable + b"\0" * max(0, len(ino.cur) - len(ino.durable))
            else:
                buf = bytearray(ino.durable)
                k = self.src.choose(len(ino.pend) + 1)
                for op in ino.pend[:k]:
                    _apply(buf, op)
                if k < len(ino.pend) and ino.pend[k][0] == "w":
                    _, pos, d = ino.pend[k]
                    cut = self.src.choose(len(d) + 1)
                    _apply(buf, ("w", pos, d[:cut]))
                data = bytes(buf)
                self.ctx.counts["power_loss_torn"] += 1
            if how:
                self.ctx.counts["power_loss_unsynced_data_lost"] += 1
            content[ino.id] = data
        for d, _, fs in os.walk(self.root):
            for f in fs:
                R["unlink"](os.path.join(d, f))
        for path in sorted(names):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with R_OPEN(path, "wb") as f:
                f.write(content[names[path].id])
        self.ctx.log("POWER LOSS metadata lost", lost, "files", len(names))
        self.adopt_all()

    # ---- scheduling
    def decide(self, p, kind, info):
        """reply for a request; the fault policy"""
        src, r = self.src, self.rates
        elig = self.target_ops is None or kind in self.target_ops
        if elig and kind not in ("start",):
            if r.get("kill") and src.flip(r["kill"]):
                return ("kill",)
            if r.get("power") and src.flip(r["power"]):
                return ("power",)
            if r.get("intr") and src.flip(r["intr"]):
                return ("intr",)
            if r.get("mem") and kind in ("open", "read", "write") and src.flip(r["mem"]):
                return ("mem",)
        key = kind
        if kind == "open" and not any(c in info.get("mode", "") for c in "wxa+"):
            key = "open_r"
        if elig and key in ERRNOS:
            rate = r.get("err_" + key, r.get("err_read" if key in ("read", "open_r", "list") else "err_write", 0))
            if kind == "stdout":
                rate = r.get("err_stdout", 0)
            if rate and src.flip(rate):
                return ("fail", src.pick(ERRNOS[key]))
        if kind == "write":
            if self.full_after is not None and self.bytes_written >= self.full_after:
                self.ctx.fault("disk_full")
                return ("fail_quiet", errno.ENOSPC)
            if elig and r.get("short") and info["n"] > 1 and src.flip(r["short"]):
                return ("short", 1 + src.choose(min(info["n"] - 1, 1 << 16)))
            if elig and r.get("torn") and src.flip(r["torn"]):
                return ("torn", src.choose(min(info["n"] + 1, 1 << 16)))
        if kind == "open":
            if self.full_after is not None and self.bytes_written >= self.full_after and not info["existed"] and \
                    key == "open":
                self.ctx.fault("disk_full")
                return ("fail_quiet", errno.ENOSPC)
            return ("go", src.pick(self.bufsizes) if self.vary_buf else None)
        if kind == "list":
            return ("go", src.choose(1 << 16) if self.shuffle else 0)
        return ("go",)

    def step(self):
        alive = self.alive()
        if not alive:
            return False
        self.ctx.steps += 1
        if self.ctx.steps > self.max_steps:
            raise TooLong()
        p = self.current
        if p is None or p.dead or p.req[0] in ("lockwait", "sleep") or \
                (self.p_preempt and len(alive) > 1 and self.src.flip(self.p_preempt)):
            p = alive[self.src.choose(len(alive))]
        self.current = p
        kind, info = p.req
        self.ctx.simtime += 0.001 if kind != "sleep" else float(info["s"])
        rep = self.decide(p, kind, info)
        rel = lambda q: os.path.basename(q) if q else ""
        self.ctx.log(p.name, kind, _logname(rel(info.get("path"))), rep[0], rep[1] if len(rep) > 1 and kind != "list"
                     else "")
        p.ops += 1
        if rep[0] == "kill":
            self.kill(p, "kill")
            self._changed(p, "kill", {})
            return True
        if rep[0] == "power":
            self.power_loss()
            self._changed(p, "power", {})
            return True
        if rep[0] == "fail":
            p.faulted = True
            self.ctx.fault("err_%s_%s" % (kind, errno.errorcode[rep[1]]))
        elif rep[0] == "fail_quiet":
            p.faulted = True
            rep = ("fail", rep[1])
        elif rep[0] in ("intr", "mem"):
            p.faulted = True
            self.ctx.fault({"intr": "keyboard_interrupt", "mem": "memory_error"}[rep[0]])
        elif rep[0] == "short":
            self.ctx.fault("short_write")
        elif rep[0] == "torn":
            self.ctx.fault("torn_write_kill")
        p.req = None
        send(p.wfd, rep)
        if rep[0] == "torn":
            p.faulted = True
            while True:
                m = recv(p.rfd)
                if m is None:
                    break
                if m[0] == "note":
                    self._note(p, m[1], m[2])
                    if m[1] == "written":
                        break
                elif m[0] == "exit":
                    self._reap(p, m[1])
                    return True
                elif m[0] == "op":
                    break
            self._reap(p, -9)
            self.ctx.log(p.name, "KILLED in write")
            self._changed(p, "kill", {})
            return True
        self._advance(p)
        return True

    def _changed(self, p, kind, info):
        if self.on_change is not None:
            self.on_change(p, kind, info)

    def run(self, until=None):
        while self.alive():
            if until is not None and until():
                return
            self.step()

    def close(self):
        for p in self.alive():
            self._reap(p, -9)


def _logname(n):
    """random parts of temporary names are seeded, but keep the log short"""
    return n if len(n) < 60 else n[:28] + ".." + n[-20:]

"""The real batch driver and job scripts (bash) against a simulated scheduler, clock and python."""
import os
import re
import select
import signal
import subprocess
import sys
import runpy

from . import core, pipeline as pl
from .core import HarnessError, Violation

ROOT_LITERAL = "/scratch/ptbrown/exact_diag"
ACTIVATE_LITERAL = "/home/ptbrown/python_env/bin/activate"
SH = ["run_on_cluster.sh", "slurm_array.sh", "slurm_single.sh"]

SHIM = r'''#!/bin/bash
# stand-in for %(kind)s: asks the simulator and does what it says
d="$EDSIM_DIR"
printf '%%s\0' "$PWD" "$@" > "$d/args.$$"
mkfifo "$d/rep.$$"
echo "%(kind)s $$ ${EDSIM_TASK:-driver}" > "$d/req"
read -t 1200 -r code < "$d/rep.$$"
if [ -f "$d/out.$$" ]; then cat "$d/out.$$"; fi
exit "$code"
'''


class Req:
    def __init__(self, kind, pid, who, cwd, args):
        self.kind, self.pid, self.who, self.cwd, self.args = kind, pid, who, cwd, args


class Shell:
    """bash processes in lock-step: at most one runs at any time, all others wait in a stand-in"""

    def __init__(self, ctx, root, limit=None):
        self.ctx = ctx
        self.root = root
        self.dir = os.path.join(ctx.scratch, "shim")
        self.bin = os.path.join(self.dir, "bin")
        os.makedirs(self.bin)
        os.makedirs(root, exist_ok=True)
        os.mkfifo(os.path.join(self.dir, "req"))
        self.fd = os.open(os.path.join(self.dir, "req"), os.O_RDWR)
        self.buf = b""
        for kind in ("sleep", "sbatch", "python", "python3", "squeue", "scancel"):
            p = os.path.join(self.bin, kind)
            with open(p, "w") as f:
                f.write(SHIM % {"kind": kind})
            os.chmod(p, 0o755)
        act = os.path.join(self.dir, "activate")
        open(act, "w").close()
        self.limit_changed = False
        for s in SH:
            with open(os.path.join(pl.CLUSTER, s), "rb") as f:
                t = f.read().decode()
            t = t.replace(ROOT_LITERAL, root).replace(ACTIVATE_LITERAL, act)
            if limit is not None and s == "run_on_cluster.sh":
                t2 = re.sub(r'(?m)^(num_limit_per_job=)"?500"?\s*$', r'\g<1>"%d"' % limit, t)
                self.limit_changed = t2 != t
                t = t2
            with open(os.path.join(root, s), "wb") as f:
                f.write(t.encode())
        self.procs = {}
        self.pend = {}
        # a script that starts something in the background has several requests open at once
        self.background = False
        for name in SH:
            with open(os.path.join(root, name), "rb") as f:
                t = re.sub(r"(?m)(^|\s)#.*$", "", f.read().decode())
            if re.search(r"(?<![&<>])&(?![&>\d])|\bcoproc\b|\bxargs\b", t):
                self.background = True

    def env(self, extra=None):
        e = {"PATH": self.bin + ":/usr/local/bin:/usr/bin:/bin", "EDSIM_DIR": self.dir, "LC_ALL": "C", "HOME": self.root}
        e.update(extra or {})
        return e

    def start(self, who, script, env):
        """start a bash script; returns its first request, or ("exit", code)"""
        cmd = f'bash "{script}" > "{self.dir}/stdout.{who}" 2> "{self.dir}/stderr.{who}"; ' \
              f'echo "exit $? {who}" > "{self.dir}/req"'
        env = dict(env)
        env["EDSIM_TASK"] = who
        self.pend[who] = []
        p = subprocess.Popen(["bash", "-c", cmd], env=env, cwd=self.root, stdin=subprocess.DEVNULL,
                             start_new_session=False, preexec_fn=os.setpgrp)
        self.procs[who] = p
        return self.wait(who)

    def quiet(self, who):
        """nothing of this script's process group is on its way: all sleep and use no cpu time"""
        last = None
        for _ in range(2000):
            now = []
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        with open(f"/proc/{d}/stat") as f:
                            x = f.read().rsplit(")", 1)[1].split()
                    except OSError:
                        continue
                    if int(x[2]) == self.procs[who].pid and x[0] != "Z":
                        now.append((d, x[0], x[11], x[12]))
            rd, _, _ = select.select([self.fd], [], [], 0.01)
            if rd:
                self.buf += os.read(self.fd, 65536)
                last = None
            elif now == last and all(x[1] == "S" for x in now):
                return
            else:
                last = now

    def wait(self, who):
        if not self.background:
            return self.next(who)
        pend = self.pend.setdefault(who, [])
        while True:
            if not pend:
                r = self.next(who)
                if isinstance(r, tuple):
                    return r
                pend.append(r)
            self.quiet(who)
            new = False
            while b"\n" in self.buf:
                r = self.next(who)
                if isinstance(r, tuple):
                    if pend:
                        self.ctx.counts["ended_with_background_work"] += 1
                    return r
                pend.append(r)
                new = True
            if not new:
                break
        pend.sort(key=lambda r: (r.kind, r.args))
        if len(pend) > 1:
            self.ctx.fault("background_order")
        return pend.pop(self.ctx.src.choose(len(pend)) if len(pend) > 1 else 0)

    def next(self, who):
        deadline = core.REAL_MONO() + 60
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                kind, a, w = line.decode().split()
                if w != who:
                    raise HarnessError(f"message from {w} while {who} runs: {line}")
                if kind == "exit":
                    self.procs[who].wait()
                    return ("exit", int(a))
                pid = a
                with open(f"{self.dir}/args.{pid}", "rb") as f:
                    parts = f.read().decode().split("\0")[:-1]
                os.unlink(f"{self.dir}/args.{pid}")
                return Req(kind, pid, w, parts[0], parts[1:])
            left = deadline - core.REAL_MONO()
            if left <= 0:
                raise Violation("driver-stuck", f"{who} neither ends nor calls sleep, sbatch or python for a minute")
            rd, _, _ = select.select([self.fd], [], [], left)
            if rd:
                self.buf += os.read(self.fd, 65536)

    def answer(self, req, code=0, out=None):
        if out is not None:
            with open(f"{self.dir}/out.{req.pid}", "w") as f:
                f.write(out)
        rep = f"{self.dir}/rep.{req.pid}"
        fd = os.open(rep, os.O_WRONLY)
        os.write(fd, f"{code}\n".encode())
        os.close(fd)
        r = self.wait(req.who)
        for f in (rep, f"{self.dir}/out.{req.pid}"):
            try:
                os.unlink(f)
            except OSError:
                pass
        return r

    def kill(self, who):
        p = self.procs[who]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def close(self):
        for who in list(self.procs):
            if self.procs[who].poll() is None:
                self.kill(who)
        os.close(self.fd)


def parse_sbatch(args):
    env, array, script, rest = {}, None, None, []
    i = 0
    while i < len(args):
        a = args[i]
        if a.startswith("--export="):
            for kv in a[len("--export="):].split(","):
                if "=" in kv:
                    k, v = kv.split("=", 1)
                    env[k] = v
        elif a.startswith("--array="):
            array = a[len("--array="):]
        elif a in ("--array", "-a"):
            i += 1
            array = args[i]
        elif a == "--export":
            i += 1
            for kv in args[i].split(","):
                if "=" in kv:
                    k, v = kv.split("=", 1)
                    env[k] = v
        elif a.startswith("-"):
            pass
        elif script is None:
            script = a
        else:
            rest.append(a)
        i += 1
    return env, array, script


def parse_array(spec):
    """task ids of an array specification, or None if Slurm would reject it"""
    m = re.fullmatch(r"([0-9,\-:]+)(?:%(\d+))?", spec)
    if not m or (m.group(2) is not None and int(m.group(2)) < 1):
        return None
    ids = []
    for part in m.group(1).split(","):
        q = re.fullmatch(r"(\d+)(?:-(\d+)(?::(\d+))?)?", part)
        if not q:
            return None
        a = int(q.group(1))
        b = int(q.group(2)) if q.group(2) else a
        if b < a:
            return None
        ids += list(range(a, b + 1, int(q.group(3) or 1)))
    return ids


def run_real(script, args, cwd, clock=("steady", 0)):
    """run a real stage script in a fork; (code, stdout)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            core.die_with_parent()
            os.close(r)
            os.chdir(cwd)
            import io
            sys.stdout = io.StringIO()
            sys.stderr = io.StringIO()
            from . import clocks
            clocks.install(clocks.Clock(*clock))
            code = 0
            try:
                sys.argv = [script] + list(args)
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                code = e.code or 0
            except BaseException:
                code = 1
            core.send(w, (code, sys.stdout.getvalue()))
        finally:
            os._exit(0)
    os.close(w)
    m = core.recv(r)
    os.close(r)
    os.waitpid(pid, 0)
    if m is None:
        raise HarnessError("stage process vanished")
    return m

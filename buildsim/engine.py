"""One simulated build: real GNU make or ninja, every step's start decided by the scheduler.

make (or ninja) is run with an unbounded number of jobs and a shell of ours.  The shell asks the
scheduler before it runs a step.  The scheduler waits until the build program has started everything
it can (it sleeps, and each of its children is waiting at the gate), then picks one step by the seed
and lets it run alone to its end.  So every order of steps that some parallel build could take can be
picked, one seed is one order, and nothing runs at the same time as anything else.
"""
import ctypes
import errno
import mmap
import os
import random
import select
import shutil
import signal
import socket
import struct
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WHAT = {"stop": 1, "kill-step": 2, "errno": 3}


class EngineError(Exception):
    pass


def build_tools(where):
    """compile the stub tool chain and the gate; once per check"""
    b = os.path.join(where, "bin")
    os.makedirs(b)
    for src in ("simsh", "simcc"):
        subprocess.run(["gcc", "-O1", "-w", "-o", os.path.join(where, src), os.path.join(HERE, src + ".c")], check=True)
    for src in ("simpre", "simspawn"):
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", os.path.join(where, src + ".so"), os.path.join(HERE, src + ".c"), "-ldl"],
                       check=True)
    for n in ("cc", "gcc", "c++", "g++", "ar", "nm", "readelf", "simtool"):
        os.symlink("../simcc", os.path.join(b, n))
    return where


class Step:
    __slots__ = ("seq", "pid", "target", "cwd", "cmd", "ready", "start", "conn", "reads", "misses", "writes", "status", "forced", "ops")

    def __init__(self):
        self.reads, self.misses, self.writes = set(), set(), set()
        self.status = None
        self.forced = None
        self.start = None


class Result:
    def __init__(self):
        self.steps = []       # in the order they ran
        self.exit = None      # exit status of the build program; None when it was killed
        self.out = ""
        self.ops = 0
        self.fired = False
        self.stuck = None

    def commands(self):
        return [s.cmd for s in self.steps]


# the number of read(2)
SYS_READ = {"x86_64": "0", "aarch64": "63"}.get(os.uname().machine, "0")


def read_proc(pid):
    """(state, [children]) of a process of ours, or None"""
    try:
        with open(f"/proc/{pid}/stat") as f:
            st = f.read().rsplit(")", 1)[1].split()[0]
        with open(f"/proc/{pid}/task/{pid}/children") as f:
            ch = [int(x) for x in f.read().split()]
        return st, ch
    except (OSError, IndexError):
        return None


def asleep(pid):
    """(system call, number of times it has gone to sleep) of a process that sleeps, or None.  Two equal answers mean that it
    slept all the time from the one to the other: the count is read after the look, and going to sleep again counts."""
    try:
        try:
            with open(f"/proc/{pid}/syscall") as f:
                c = f.read().split()
        except OSError:
            time.sleep(0.005)
            c = ["?"]
        with open(f"/proc/{pid}/status") as f:
            n = [line for line in f if "ctxt_switches" in line]
        return (c[0], n) if c and c[0] != "running" else None
    except OSError:
        return None


class Engine:
    def __init__(self, tools, scratch):
        self.tools = tools
        self.root = scratch.root
        self.side = scratch.root + ".side"
        shutil.rmtree(self.side, ignore_errors=True)
        os.makedirs(self.side)
        self.ctlpath = os.path.join(self.side, "ctl")
        with open(self.ctlpath, "wb") as f:
            f.write(b"\0" * 4096)
        self.ctlf = open(self.ctlpath, "r+b")
        self.ctl = mmap.mmap(self.ctlf.fileno(), 4096)
        self.logpath = os.path.join(self.side, "log")
        self.sockpath = os.path.join(self.side, "sock")
        self.probe = os.path.join(self.side, "probe")

    def close(self):
        self.ctl.close()
        self.ctlf.close()
        shutil.rmtree(self.side, ignore_errors=True)

    # -- the clock: every step ends in an earlier tick of the file system's clock than the next begins in
    def tick(self):
        last = None
        n = 0
        while True:
            fd = os.open(self.probe, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.write(fd, b"x")
            os.close(fd)
            now = os.stat(self.probe).st_mtime_ns
            if last is None:
                last = now
            elif now > last:
                return
            n += 1
            if n > 20:
                time.sleep(0.0005)

    def environ(self, kind, extra):
        e = {"PATH": os.path.join(self.tools, "bin") + ":/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C.UTF-8", "TERM": "dumb",
             "SIM_SOCK": self.sockpath, "SIM_PRE": os.path.join(self.tools, "simpre.so"), "SIM_SH": os.path.join(self.tools, "simsh"),
             "SIM_CTL": self.ctlpath, "SIM_LOG": self.logpath, "SIM_ROOT": self.root, "SIM_MARK": self.side + "/toolfail", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore",
             "PYTHONHASHSEED": "0"}
        if kind == "ninja":
            e["LD_PRELOAD"] = os.path.join(self.tools, "simspawn.so")
        e.update(extra or {})
        return e

    def build(self, kind, args, cwd, seed=None, policy="random", jobs=10000, op=None, fail=None, stop_before=None, tools=None, env=None, limit=60):
        """
        op:   (n, what, errno or signal): at the n-th file operation: "stop" the world and kill everything ("stop" with
              SIGINT instead when the third element is SIGINT), "kill-step", or fail it with "errno"
        fail: {step number: ("before"|"after", status)} steps that report failure, without or after running
        tools: the tool chain's programs fail in the step with this command, in the middle of whatever the step does
        stop_before: kill everything with this signal before step n:  (n, signal)
        """
        r = random.Random(str(seed))
        res = Result()
        mark = self.side + "/toolfail"
        for p in (self.sockpath, self.logpath, mark):
            if os.path.exists(p):
                os.unlink(p)
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        srv.bind(self.sockpath)
        srv.listen(512)
        self.ctl[:20] = struct.pack("iiiii", 0, 0, 0, 0, 0)
        if op:
            self.ctl[:20] = struct.pack("iiiii", 0, op[0], WHAT[op[1]], op[2] if op[1] == "errno" else 0, 0)
        sh = os.path.join(self.tools, "simsh")
        if kind == "make":
            argv = ["make", "--no-print-directory", f"-j{jobs}" if jobs > 1 else "-j1", "SHELL=" + sh, ".SHELLFLAGS=--target=$@ -c"] + list(args)
        else:
            argv = ["ninja", f"-j{jobs}"] + list(args)
        outr, outw = os.pipe()
        p = subprocess.Popen(argv, cwd=cwd, env=self.environ(kind, env), stdin=subprocess.DEVNULL, stdout=outw, stderr=outw, start_new_session=True)
        os.close(outw)
        os.set_blocking(outr, False)
        waiting, running, out = {}, None, []
        seq = 0
        t0 = time.time()
        logpos = 0
        killed = None
        idle = 0
        try:
            while True:
                if time.time() - t0 > limit:
                    res.stuck = "time"
                    raise EngineError("a simulated build did not come to an end: " + " ".join(argv)[:200])
                fds = [srv, outr] + ([running.conn] if running else [])
                ready, _, _ = select.select(fds, [], [], 0.02 if running else min(0.0002 * (1 + idle), 0.005))
                if outr in ready:
                    try:
                        c = os.read(outr, 1 << 16)
                        if c:
                            out.append(c)
                            idle = 0
                            continue
                    except BlockingIOError:
                        pass
                if srv in ready:
                    conn, _ = srv.accept()
                    s = self.hello(conn)
                    s.seq = None
                    s.ready = len(res.steps)
                    waiting[s.pid] = s
                    idle = 0
                    continue
                if running:
                    if running.conn in ready:
                        self.finish(running, res, fail)
                        logpos = self.readlog(running, logpos)
                        running = None
                        idle = 0
                    elif struct.unpack("i", self.ctl[16:20])[0] and op and op[1] == "stop":
                        # everything stands still in the middle of a step
                        res.fired = True
                        logpos = self.readlog(running, logpos)
                        killed = op[2] if len(op) > 2 and op[2] else signal.SIGKILL
                        break
                    continue
                if p.poll() is not None:
                    break
                if not waiting:
                    idle += 1
                    continue
                if not self.quiet(p.pid, waiting):
                    idle += 1
                    continue
                n = len(res.steps)
                if stop_before and n == stop_before[0]:
                    killed = stop_before[1]
                    res.fired = True
                    break
                # (which of them reached the gate first is chance; in which order they were started is not)
                new = sorted(x.pid for x in waiting.values() if x.seq is None)
                if new and new[-1] - new[0] > 1 << 14:
                    # process ids began again from the start
                    gap, i = max((b - a, i) for i, (a, b) in enumerate(zip(new, new[1:])))
                    new = new[i + 1:] + new[:i + 1]
                for pid in new:
                    waiting[pid].seq = seq
                    seq += 1
                s = self.pick(list(waiting.values()), r, policy)
                del waiting[s.pid]
                self.tick()
                s.start = n
                res.steps.append(s)
                f = (fail or {}).get(n)
                if f and f[0] == "before":
                    res.fired = True
                    s.forced = f[1]
                    s.status = f[1] << 8
                    s.conn.sendall(b"S" + bytes([f[1]]))
                    s.conn.close()
                else:
                    s.conn.sendall(b"R\1" if tools is not None and s.cmd == tools else b"R\0")
                    running = s
            if killed is not None:
                self.killall(p, waiting, running, killed)
            else:
                self.killall(p, waiting, running, signal.SIGKILL)
            res.exit = p.wait() if killed is None or killed == signal.SIGINT else None
            # whatever was still printed
            while True:
                try:
                    c = os.read(outr, 1 << 16)
                except BlockingIOError:
                    break
                if not c:
                    break
                out.append(c)
        finally:
            if p.poll() is None:
                self.killall(p, waiting, running, signal.SIGKILL)
                p.wait()
            srv.close()
            os.close(outr)
            for s in list(waiting.values()) + ([running] if running else []):
                s.conn.close()
        res.out = b"".join(out).decode("utf-8", "replace")
        res.ops = struct.unpack("i", self.ctl[0:4])[0]
        if struct.unpack("i", self.ctl[16:20])[0] or os.path.exists(mark):
            res.fired = True
        self.tick()
        return res

    def hello(self, conn):
        def get(n):
            b = b""
            while len(b) < n:
                c = conn.recv(n - len(b))
                if not c:
                    raise EngineError("a step went away before it said what it is")
                b += c
            return b
        n = struct.unpack("I", get(4))[0]
        pid, target, cwd, cmd = get(n).decode("utf-8", "replace").split("\0", 3)
        s = Step()
        s.pid, s.target, s.cwd, s.cmd, s.conn = int(pid), target, cwd, cmd, conn
        return s

    def finish(self, s, res, fail):
        b = b""
        while len(b) < 5:
            c = s.conn.recv(5 - len(b))
            if not c:
                raise EngineError("the gate of a step died: " + s.cmd[:200])
            b += c
        st = struct.unpack("i", b[1:])[0]
        s.status = st
        f = (fail or {}).get(s.start)
        if f and f[0] == "after":
            res.fired = True
            s.forced = f[1]
            s.status = f[1] << 8
            reply = b"X" + bytes([f[1]])
        elif os.WIFSIGNALED(st):
            reply = b"K" + bytes([os.WTERMSIG(st)])
        else:
            reply = b"X" + bytes([os.WEXITSTATUS(st)])
        self.tick()
        s.conn.sendall(reply)
        s.conn.close()

    def readlog(self, s, pos):
        try:
            with open(self.logpath, "rb") as f:
                f.seek(pos)
                data = f.read()
        except FileNotFoundError:
            return pos
        k = len(self.root) + 1
        for line in data.decode("utf-8", "replace").split("\n"):
            if line[2:].startswith(self.root + "/"):
                path = os.path.normpath(line[2:])[k:]
                (s.reads if line[0] == "R" else s.misses if line[0] == "N" else s.writes).add(path)
        return pos + len(data)

    def quiet(self, pid, waiting):
        """the build program sleeps, and each of its children waits at the gate"""
        x = read_proc(pid)
        if x is None or x[0] != "S" or not set(x[1]) >= set(waiting):
            return False
        # a process in waitpid() is in state S already while it still takes away a child that has ended: it sleeps only
        # if its system call can be read, and all this is true at one time only if it has not run in between
        a = asleep(pid)
        if a is None:
            return False
        x = read_proc(pid)
        if x is None:
            return False
        same = set(x[1]) == set(waiting)
        if not same:
            # while make waits for the output of a $(shell ...), steps that have ended stay around
            same = a[0] in (SYS_READ, "?") and set(x[1]) > set(waiting) and all((read_proc(c) or "?")[0] == "Z" for c in set(x[1]) - set(waiting))
        return same and asleep(pid) == a

    @staticmethod
    def pick(ws, r, policy):
        ws.sort(key=lambda s: s.seq)
        if policy == "fifo":
            return ws[0]
        if policy == "lifo":
            return ws[-1]
        if policy == "favour":
            # mostly one end, sometimes another
            return ws[-1] if r.random() < 0.8 else r.choice(ws)
        return r.choice(ws)

    @staticmethod
    def killall(p, waiting, running, sig):
        try:
            os.killpg(p.pid, sig)
        except ProcessLookupError:
            pass
        if sig != signal.SIGKILL:
            t0 = time.time()
            while p.poll() is None and time.time() - t0 < 10:
                time.sleep(0.001)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        # ninja gives every step a group of its own
        for s in list(waiting.values()) + ([running] if running else []):
            for q in (s.pid,):
                try:
                    os.killpg(q, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        p.wait()
        # the group is gone when nobody is left to signal
        t0 = time.time()
        while time.time() - t0 < 5:
            try:
                os.killpg(p.pid, 0)
            except (ProcessLookupError, PermissionError):
                break
            time.sleep(0.0005)

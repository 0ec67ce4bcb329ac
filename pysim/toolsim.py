"""Several simulated processes of the build-step wrappers, interleaved by a seeded scheduler.

Every process runs the real file (flock_tool.py, mac_tool.py, win_tool.py) as __main__ in a thread of its own;
only one thread runs at a time, and it gives up control at every seam: opening, locking and closing files,
starting and waiting for commands, sleeping.  Locks follow the POSIX (per process and file) and BSD (per open
file description) rules.  Commands are simulated: steps of life, output, status."""
import builtins
import errno
import fcntl as real_fcntl
import io
import os
import random
import runpy
import struct
import subprocess as real_subprocess
import sys
import threading
import time
import types

REAL_OPEN, REAL_CLOSE, REAL_FDOPEN = os.open, os.close, os.fdopen
REAL_BOPEN = builtins.open


class Killed(BaseException):
    pass


class World:
    def __init__(self, root, seed):
        self.root = root
        self.rng = random.Random(seed)
        self.procs = []
        self.locks = {}            # path -> list of (owner, 'x' | 's', style)
        self.steps = 0
        self.trace = []
        self.events = []
        self.current = None
        self.control = threading.Semaphore(0)
        self.stuck = None

    def event(self, *x):
        self.events.append([self.steps] + list(x))


class Cmd:
    """a running command"""

    def __init__(self, proc, spec, argv, env, cwd, shell):
        self.proc, self.spec = proc, spec
        self.left = spec.get("steps", 1)
        self.argv, self.env, self.cwd, self.shell = argv, env, cwd, shell
        self.done = False
        self.status = None


class Proc:
    def __init__(self, world, ident, path, argv, commands, platform, faults):
        self.world, self.id, self.path, self.argv = world, ident, path, argv
        self.commands = list(commands)
        self.platform = platform
        self.faults = faults        # {seam number: fault}
        self.n = 0
        self.fds = {}               # fd -> open file description
        self.state = "new"          # new, ready, blocked, done, dead
        self.wait = None            # predicate while blocked
        self.go = threading.Semaphore(0)
        self.out, self.err = (io.TextIOWrapper(io.BytesIO(), "utf-8", "backslashreplace", newline="", write_through=True) for _ in range(2))
        self.exit = None
        self.cmds = []
        self.delay = 0
        self.pid = 1000 + ident
        self.fired = []
        self.fsfault = None         # {n, errno | kill}: what happens to the n-th file operation
        self.fsn = 0
        self.fsops = []

    # -- scheduling ------------------------------------------------------
    def pause(self, what, cond=None):
        """give up control; goes on when the scheduler says so and cond holds"""
        if self.state == "dead":
            raise Killed()
        self.wait = cond
        self.what = what
        self.state = "blocked" if cond else "ready"
        self.world.control.release()
        self.go.acquire()
        if self.state == "dead":
            raise Killed()
        self.state = "running"

    def seam(self, what):
        self.pause(what)
        n, self.n = self.n, self.n + 1
        f = self.faults.get(n)
        if f and (f.get("at") is None or f["at"] == what.split(" ")[0]):
            self.fired.append([what, f])
            self.world.event(self.id, "fault", what, f.get("errno"))
            return f
        return None

    def body(self):
        self.go.acquire()
        LOCAL.proc = self
        code = None
        if self.state != "dead":
            try:
                self.state = "running"
                sys.argv = [self.path] + list(self.argv)
                runpy.run_path(self.path, run_name="__main__")
                code = 0
            except Killed:
                code = "killed"
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    self.err.write(str(code) + "\n")
                    code = 1
            except BaseException as e:
                if self.state == "dead":
                    code = "killed"
                else:
                    import traceback
                    self.err.write(traceback.format_exc())
                    code = 1
        if code != "killed":
            self.exit = code & 0xFF if isinstance(code, int) else 1
            self.leave()
            self.state = "done"
        self.world.event(self.id, "exit", self.exit)
        self.world.control.release()

    def leave(self):
        for fd in list(self.fds):
            self.fds[fd]["refs"] -= 1
            self.drop(fd)
        for p, ls in self.world.locks.items():
            self.world.locks[p] = [x for x in ls if x[0] != ("p", self.id)]
        self.fds = {}

    def drop(self, fd):
        d = self.fds[fd]
        if d["refs"] <= 0:
            for p, ls in self.world.locks.items():
                self.world.locks[p] = [x for x in ls if x[0] != ("d", id(d))]
        # closing any descriptor of the file drops the POSIX locks of the process
        ls = self.world.locks.get(d["path"], [])
        self.world.locks[d["path"]] = [x for x in ls if x[0] != ("p", self.id)]

    def kill(self):
        self.leave()
        self.state = "dead"
        self.exit = "killed"
        self.world.event(self.id, "killed")
        self.go.release()
        self.world.control.acquire()


LOCAL = threading.local()


def me():
    return getattr(LOCAL, "proc", None)


# -- files ---------------------------------------------------------------
def die(p):
    """the process is killed inside a file operation: what it had buffered is lost"""
    null = REAL_OPEN(os.devnull, os.O_WRONLY)
    for fd, d in p.fds.items():
        if d["write"]:
            os.dup2(null, fd)
    REAL_CLOSE(null)
    p.leave()
    p.state = "dead"
    p.exit = "killed"
    p.world.event(p.id, "killed")
    raise Killed()


def oserror(name, path):
    n = getattr(errno, name)
    return OSError(n, os.strerror(n), path)


def fsop(kind, *paths, soft=False, change=True):
    """one file operation of a guarded process: counted, kept inside the root, perhaps failing; returns the fault that is the caller's to apply"""
    p = me()
    if p is None or not p.world.guard:
        return None
    if p.state == "dead":
        raise Killed()
    for x in paths if change else ():
        if isinstance(x, int):
            continue
        full = os.path.abspath(os.fspath(x))
        real = os.path.realpath(full) if kind in ("open", "chmod", "utime", "truncate") else os.path.join(os.path.realpath(os.path.dirname(full)), os.path.basename(full))
        if not real.startswith(p.world.root + "/"):
            p.world.escapes.append(kind + " " + real)
            raise oserror("EACCES", full)
    n, p.fsn = p.fsn, p.fsn + 1
    p.fsops.append(kind)
    f = p.fsfault
    if not f or f["n"] != n:
        return None
    p.fired.append([kind, f])
    p.world.event(p.id, "fault", kind, f.get("errno") or f.get("kill"))
    if f.get("kill") == "before" or f.get("kill") == "torn" and kind != "write":
        die(p)
    if f.get("errno") and not soft:
        raise oserror(f["errno"], str(paths[0]) if paths else None)
    return f


def guarded(kind, fn, npaths=1, change=True):
    def op(*a, **k):
        p = me()
        if p is None or not p.world.guard:
            return fn(*a, **k)
        # the target of a link is only text
        f = fsop(kind, *(a[1:2] if kind == "symlink" else a[:npaths]), change=change)
        if kind == "unlink" and p.platform == "win32":
            st = os.lstat(a[0])
            if not st.st_mode & 0o200:
                raise oserror("EACCES", a[0])
        r = fn(*a, **k)
        if f and f.get("kill") == "after":
            die(p)
        return r
    return op


def access(path, mode, *a, **k):
    p = me()
    if p and p.world.guard and mode & os.W_OK and not os.stat(path).st_mode & 0o200:
        return False
    return REAL_ACCESS(path, mode, *a, **k)


REAL_ACCESS = os.access
GUARDED = [("unlink", 1, True), ("remove", 1, True), ("rmdir", 1, True), ("mkdir", 1, True), ("rename", 2, True), ("replace", 2, True), ("symlink", 2, True), ("link", 2, True),
           ("utime", 1, True), ("chmod", 1, True), ("truncate", 1, True), ("listdir", 1, False), ("scandir", 1, False)]


def guard():
    import shutil
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    for name, n, change in GUARDED:
        setattr(os, name, guarded("unlink" if name == "remove" else name, getattr(os, name), n, change))
    os.access = access


def inside(path):
    p = me()
    if p is None or isinstance(path, int):
        return None
    full = os.path.abspath(os.fspath(path))
    return full if full.startswith(p.world.root + "/") else None


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    full = inside(path)
    if not full:
        return REAL_OPEN(path, flags, mode, dir_fd=dir_fd)
    p = me()
    if flags & (os.O_ACCMODE | os.O_CREAT | os.O_TRUNC):
        fsop("open", full)
    f = p.seam("open " + os.path.basename(full))
    if f:
        raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])), path)
    fd = REAL_OPEN(path, flags, mode)
    p.fds[fd] = {"path": full, "refs": 1, "write": (flags & os.O_ACCMODE) != os.O_RDONLY, "read": (flags & os.O_ACCMODE) != os.O_WRONLY, "inheritable": False}
    return fd


def os_close(fd):
    p = me()
    if p and fd in p.fds:
        p.seam("close")
        p.fds[fd]["refs"] -= 1
        p.drop(fd)
        del p.fds[fd]
    return REAL_CLOSE(fd)


class FileProxy:
    """a file object of a simulated process"""

    def __init__(self, f, p, fd, full, mode):
        self.__dict__.update(_f=f, _p=p, _fd=fd, _full=full, _w=bool(set(mode) & set("wax+")))

    def __getattr__(self, k):
        a = getattr(self._f, k)
        if callable(a):
            # the file stays open while one of its methods is about to run
            return lambda *x, _keep=self, **kw: a(*x, **kw)
        return a

    def __iter__(self):
        for x in self._f:
            yield x

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def write(self, data):
        f = fsop("write", soft=True)
        if f and (f.get("errno") or f.get("kill") == "torn"):
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            if f.get("errno"):
                raise oserror(f["errno"], self._full)
            die(self._p)
        n = self._f.write(data)
        if f and f.get("kill") == "after":
            die(self._p)
        return n

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def close(self):
        if self._f.closed:
            return
        f = fsop("close", soft=True) if self._w and self._p.state != "dead" and self._p is me() else None
        if f and f.get("errno"):
            # what is still buffered does not reach the disk
            null = REAL_OPEN(os.devnull, os.O_WRONLY)
            os.dup2(null, self._fd)
            REAL_CLOSE(null)
            self._close()
            raise oserror(f["errno"], self._full)
        self._close()
        if f and f.get("kill") == "after":
            die(self._p)

    def _close(self):
        if self._p.state != "dead" and self._fd in self._p.fds:
            self._p.fds[self._fd]["refs"] -= 1
            self._p.drop(self._fd)
            del self._p.fds[self._fd]
        self._f.close()

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


def b_open(file, mode="r", *a, **k):
    full = inside(file)
    changes = bool(set(mode) & set("wax+"))
    if not full:
        if changes and not isinstance(file, int):
            fsop("open", file)
        return REAL_BOPEN(file, mode, *a, **k)
    p = me()
    ff = fsop("open", full, change=changes)
    if p.world.guard and changes and p.platform == "win32" and os.path.isfile(full) and not os.stat(full).st_mode & 0o200:
        raise oserror("EACCES", file)
    f = p.seam("file " + os.path.basename(full))
    if f:
        raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])), file)
    fo = REAL_BOPEN(file, mode, *a, **k)
    fd = fo.fileno()
    p.fds[fd] = {"path": full, "refs": 1, "write": bool(set(mode) & set("wax+")), "read": bool(set(mode) & set("r+")), "inheritable": False}
    if ff and ff.get("kill") == "after":
        die(p)
    return FileProxy(fo, p, fd, full, mode)


# -- locks ---------------------------------------------------------------
class Fcntl(types.ModuleType):
    def __init__(self):
        super().__init__("fcntl")
        for k in dir(real_fcntl):
            if k.isupper():
                setattr(self, k, getattr(real_fcntl, k))

    def _fd(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        p = me()
        if fd not in p.fds:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return p, p.fds[fd]

    def _take(self, p, d, owner, how, block, again):
        path = d["path"]

        def free():
            return not any(o != owner and ("x" in (how, h)) for o, h in p.world.locks.get(path, []))
        f = p.seam("lock")
        if f:
            raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])))
        if not free():
            p.world.event(p.id, "waits", os.path.basename(path))
            if not block:
                raise OSError(again, os.strerror(again))
            p.pause("wait", free)
        p.world.locks[path] = [x for x in p.world.locks.get(path, []) if x[0] != owner] + [(owner, how)]
        p.world.event(p.id, "locked", os.path.basename(path))

    def _drop(self, p, d, owner):
        p.seam("unlock")
        p.world.locks[d["path"]] = [x for x in p.world.locks.get(d["path"], []) if x[0] != owner]

    def flock(self, fd, op):
        p, d = self._fd(fd)
        owner = ("d", id(d))
        if op & real_fcntl.LOCK_UN:
            return self._drop(p, d, owner)
        self._take(p, d, owner, "x" if op & real_fcntl.LOCK_EX else "s", not op & real_fcntl.LOCK_NB, errno.EWOULDBLOCK)

    def lockf(self, fd, op, len=0, start=0, whence=0):
        p, d = self._fd(fd)
        owner = ("p", p.id)
        if op & real_fcntl.LOCK_UN:
            return self._drop(p, d, owner)
        if op & real_fcntl.LOCK_EX and not d["write"] or op & real_fcntl.LOCK_SH and not d["read"]:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self._take(p, d, owner, "x" if op & real_fcntl.LOCK_EX else "s", not op & real_fcntl.LOCK_NB, errno.EAGAIN)

    def fcntl(self, fd, cmd, arg=0):
        p, d = self._fd(fd)
        if cmd in (real_fcntl.F_SETLK, real_fcntl.F_SETLKW):
            kind = struct.unpack("h", bytes(arg)[:2])[0]
            owner = ("p", p.id)
            if kind == real_fcntl.F_UNLCK:
                self._drop(p, d, owner)
                return arg
            if kind == real_fcntl.F_WRLCK and not d["write"] or kind == real_fcntl.F_RDLCK and not d["read"]:
                raise OSError(errno.EBADF, "Bad file descriptor")
            self._take(p, d, owner, "x" if kind == real_fcntl.F_WRLCK else "s", cmd == real_fcntl.F_SETLKW, errno.EAGAIN)
            return arg
        if cmd == real_fcntl.F_SETFD:
            d["inheritable"] = not arg & real_fcntl.FD_CLOEXEC
            return 0
        return real_fcntl.fcntl(fd, cmd, arg)


# -- commands ------------------------------------------------------------
class Popen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False,
                 cwd=None, env=None, universal_newlines=None, text=None, encoding=None, errors=None, pass_fds=(), **kw):
        p = me()
        self.args = args
        self.text = bool(text or universal_newlines or encoding or errors)
        self.enc = (encoding or "utf-8", errors or "strict")
        spec = p.commands.pop(0) if len(p.commands) > 1 else p.commands[0]
        f = p.seam("spawn")
        err = f["errno"] if f else spec.get("spawn")
        argv = args if isinstance(args, str) else [os.fspath(a) for a in args]
        full = dict(os.environ if env is None else env)
        if err and not (shell and err == "ENOENT"):
            p.world.event(p.id, "spawn-failed")
            p.cmds.append({"argv": argv, "env": full, "cwd": cwd, "shell": shell, "failed": True})
            raise OSError(getattr(errno, err), os.strerror(getattr(errno, err)), str(args)[:40])
        self.cmd = Cmd(p, spec, argv, full, cwd, shell)
        rec = {"argv": argv, "env": full, "cwd": cwd, "shell": shell}
        p.cmds.append(rec)
        p.world.event(p.id, "cmd-start")
        p.world.running.append(self.cmd)
        self.pid = 5000 + len(p.world.events)
        self.returncode = None
        self._out, self._err = stdout, stderr
        o, e = spec.get("out", b""), spec.get("err", b"")
        if stderr == real_subprocess.STDOUT:
            o, e = spec.get("mixed", o + e), b""
        self._odata = self._deliver(o, stdout, p.out)
        self._edata = self._deliver(e, stderr, p.err)
        self.stdout = io.BytesIO(self._odata) if self._odata is not None else None
        self.stderr = io.BytesIO(self._edata) if self._edata is not None else None
        if self.text:
            self.stdout = io.TextIOWrapper(self.stdout, *self.enc) if self.stdout else None
            self.stderr = io.TextIOWrapper(self.stderr, *self.enc) if self.stderr else None
        self.stdin = None
        # descriptors that the command inherits keep a BSD lock
        for fd, d in p.fds.items():
            if fd in pass_fds or (not close_fds and d["inheritable"]):
                d["refs"] += 1
                self.cmd.held = getattr(self.cmd, "held", []) + [d]

    def _deliver(self, data, where, inherited):
        if where == real_subprocess.PIPE:
            return data
        if where is None:
            inherited.write(data.decode("utf-8", "backslashreplace"))
        elif where == real_subprocess.DEVNULL:
            pass
        elif where == real_subprocess.STDOUT:
            pass
        else:
            try:
                where.write(data)
            except TypeError:
                where.write(data.decode("utf-8", "backslashreplace"))
        return None

    def poll(self):
        if self.cmd.done:
            self.returncode = self.cmd.status
        else:
            me().pause("poll")
            if self.cmd.done:
                self.returncode = self.cmd.status
        return self.returncode

    def wait(self, timeout=None):
        p = me()
        if not self.cmd.done:
            p.pause("cmd", lambda: self.cmd.done)
        self.returncode = self.cmd.status
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        o, e = self._odata, self._edata
        if self.text:
            o = o.decode(*self.enc).replace("\r\n", "\n") if o is not None else None
            e = e.decode(*self.enc).replace("\r\n", "\n") if e is not None else None
        return o, e

    def kill(self):
        self.cmd.left = 0
        self.cmd.spec = dict(self.cmd.spec, status=-9)

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class Subprocess(types.ModuleType):
    PIPE, STDOUT, DEVNULL = real_subprocess.PIPE, real_subprocess.STDOUT, real_subprocess.DEVNULL
    CalledProcessError, SubprocessError, TimeoutExpired = real_subprocess.CalledProcessError, real_subprocess.SubprocessError, real_subprocess.TimeoutExpired
    CompletedProcess = real_subprocess.CompletedProcess
    list2cmdline = staticmethod(real_subprocess.list2cmdline)

    def __init__(self):
        super().__init__("subprocess")
        self.Popen = Popen

    def call(self, *a, timeout=None, **k):
        return Popen(*a, **k).wait()

    def check_call(self, *a, **k):
        r = self.call(*a, **k)
        if r:
            raise real_subprocess.CalledProcessError(r, a[0] if a else k.get("args"))
        return 0

    def run(self, *a, input=None, capture_output=False, timeout=None, check=False, **k):
        if capture_output:
            k["stdout"] = k["stderr"] = self.PIPE
        p = Popen(*a, **k)
        o, e = p.communicate()
        if check and p.returncode:
            raise real_subprocess.CalledProcessError(p.returncode, p.args, o, e)
        return real_subprocess.CompletedProcess(p.args, p.returncode, o, e)

    def check_output(self, *a, **k):
        return self.run(*a, stdout=self.PIPE, check=True, **k).stdout


class Streams:
    def __init__(self, name, real):
        self.__dict__.update(_n=name, _r=real)

    def _t(self):
        p = me()
        return getattr(p, self._n) if p else self._r

    def __getattr__(self, k):
        return getattr(self._t(), k)

    def write(self, s):
        return self._t().write(s)


def run_world(root, seed, procs, env, kills=(), max_steps=4000, files=False):
    """procs: list of {path, argv, commands, platform, faults, start}; returns a plain dictionary"""
    w = World(root, seed)
    w.running = []
    w.guard = files
    w.escapes = []
    if files:
        guard()
        import itertools
        import tempfile
        tempfile._name_sequence = (f"sim{i}" for i in itertools.count())
    os.environ.clear()
    os.environ.update(env)
    os.chdir(root)
    sys.modules["fcntl"] = Fcntl()
    sys.modules["subprocess"] = Subprocess()
    os.open, os.close = os_open, os_close
    builtins.open = b_open
    io.open = b_open
    sys.stdout, sys.stderr = Streams("out", sys.stdout), Streams("err", sys.stderr)
    os.getpid = lambda: me().pid if me() else 1
    real_sleep = time.sleep

    def sleep(s):
        p = me()
        if p is None:
            return real_sleep(s)
        p.pause("sleep")
        p.world.slept = getattr(p.world, "slept", 0) + s
    time.sleep = sleep
    if procs and procs[0].get("platform"):
        sys.platform = procs[0]["platform"]
    for i, d in enumerate(procs):
        p = Proc(w, i, d["path"], d["argv"], d["commands"], d.get("platform"), {int(k): v for k, v in d.get("faults", {}).items()})
        p.after = d.get("start", 0)
        p.fsfault = d.get("fsfault")
        w.procs.append(p)
        t = threading.Thread(target=p.body, daemon=True)
        t.start()
        p.thread = t
        p.state = "ready"
        p.started = False
    killed = {k["step"]: k["proc"] for k in kills}
    overlaps = []
    while w.steps < max_steps:
        if w.steps in killed:
            p = w.procs[killed[w.steps]]
            if p.started and p.state in ("ready", "blocked"):
                p.kill()
        choices = []
        for p in w.procs:
            if p.state == "ready" and (p.started or p.after <= w.steps):
                choices.append(("proc", p))
            elif p.state == "blocked" and p.wait():
                choices.append(("proc", p))
        for c in w.running:
            choices.append(("cmd", c))
        if not choices:
            if any(p.state in ("ready", "blocked") for p in w.procs):
                later = [p.after for p in w.procs if p.state == "ready" and not p.started]
                if later:
                    w.steps = min(later)
                    continue
                w.stuck = [[p.id, p.what, sorted(os.path.basename(x) for x, ls in w.locks.items() if ls)] for p in w.procs if p.state == "blocked"]
            break
        what, x = w.rng.choice(choices)
        w.steps += 1
        if what == "proc":
            w.trace.append(x.id)
            x.started = True
            x.go.release()
            w.control.acquire()
        else:
            w.trace.append(100 + x.proc.id)
            x.left -= 1
            if x.left <= 0:
                x.done = True
                x.status = x.spec.get("status", 0)
                w.running.remove(x)
                for d in getattr(x, "held", []):
                    d["refs"] -= 1
                    if d["refs"] <= 0:
                        for pth, ls in w.locks.items():
                            w.locks[pth] = [y for y in ls if y[0] != ("d", id(d))]
                w.event(x.proc.id, "cmd-end", x.status)
        # commands whose wrapper is alive, by lock
        by = {}
        for c in w.running:
            if c.proc.state != "dead" and procs[c.proc.id].get("lock"):
                by.setdefault(procs[c.proc.id]["lock"], []).append(c.proc.id)
        for lock, ids in by.items():
            if len(ids) > 1:
                overlaps.append([w.steps, lock, ids])
    else:
        w.stuck = [["nothing ends within", max_steps, "steps"]]
    return {"exits": [p.exit for p in w.procs], "cmds": [p.cmds for p in w.procs], "out": [p.out.buffer.getvalue().decode("utf-8") for p in w.procs], "err": [p.err.buffer.getvalue().decode("utf-8") for p in w.procs],
            "events": w.events, "trace": w.trace, "overlaps": overlaps[:3], "stuck": w.stuck, "fired": [p.fired for p in w.procs], "fsops": [p.fsops for p in w.procs], "escapes": w.escapes, "steps": w.steps}

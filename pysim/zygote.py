"""One interpreter with a fixed string-hash seed that has gyp loaded, and forks one simulated gyp run
per request.  Started as:  PYTHONHASHSEED=n python3 -B zygote.py PYLIB

Everything a gyp run can observe besides its input files is decided by the request's plan:
directory order, process id, temporary names, the outcome of every file operation and command, the
number of workers, and the schedule of the worker pool.  Requests and results are JSON, length first.
"""
import builtins
import errno
import importlib
import importlib.util
import io
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import traceback

REAL = {
    "open": builtins.open, "os_open": os.open, "rename": os.rename, "replace": os.replace, "unlink": os.unlink,
    "remove": os.remove, "mkdir": os.mkdir, "rmdir": os.rmdir, "chmod": os.chmod, "listdir": os.listdir, "scandir": os.scandir,
    "fdopen": os.fdopen, "getpid": os.getpid, "fork": os.fork, "write": os.write, "close": os.close,
    "exit": os._exit, "read": os.read, "symlink": os.symlink, "link": os.link, "utime": os.utime,
    "Popen": subprocess.Popen, "Condition": threading.Condition,
}


def send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[REAL["write"](fd, b):]


def recv(fd):
    def exact(n):
        out = b""
        while len(out) < n:
            c = REAL["read"](fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = exact(4)
    if h is None:
        return None
    b = exact(struct.unpack("<I", h)[0])
    return None if b is None else json.loads(b)


class Crash(BaseException):
    pass


class Hang(BaseException):
    pass


class Sim:
    """The world of one simulated gyp process (and of its pool workers)"""

    def __init__(self, req):
        self.root = req["root"]
        self.plan = req["plan"]
        self.ops = []
        self.cmds = []
        self.count = 0
        self.faults = {}
        for f in self.plan.get("faults", []):
            self.faults.setdefault(f["k"], []).append(f)
        self.fired = []
        self.tmpn = 0
        self.rng = random.Random(str(self.plan.get("seed", 0)))
        self.worker = None      # set in a pool worker: fd pair to the scheduler
        self.fdpath = {}
        self.live = []          # raw files that are open
        self.sched = []         # choices of the scheduler
        self.harness_error = None
        self.mutate = self.plan.get("mutate", [])

    # -- naming ---------------------------------------------------------
    def name(self, path):
        if isinstance(path, int):
            return self.fdpath.get(path, "fd")
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(os.fspath(path))
        if path == self.root:
            return "."
        if path.startswith(self.root + "/"):
            return path[len(self.root) + 1:]
        if "/gyp/pylib/" in path:
            return "@" + path.split("/gyp/pylib/", 1)[1]
        return None

    # -- the seam: every operation passes here before it is done ---------
    def op(self, kind, path, n=None):
        """returns the fault to apply, or None"""
        name = self.name(path)
        if name is None:
            return None
        if self.worker is not None:
            send(self.worker[1], {"op": kind, "path": name})
            ans = recv(self.worker[0])
            if ans is None:
                REAL["exit"](1)
            return ans.get("fault")
        return self.decide(kind, name, 0)

    def decide(self, kind, name, who):
        k = self.count
        self.count += 1
        self.ops.append([kind, name, who])
        for f in self.faults.get(k, []):
            self.fired.append([k, f["kind"], kind, name])
            return f
        for f in self.plan.get("pathfaults", []):
            if f["path"] == name and f["op"] == kind:
                self.fired.append([k, f["kind"], kind, name])
                return f
        return None

    def crash(self):
        if self.worker is not None:
            send(self.worker[1], {"crash": 1})
            recv(self.worker[0])
        finish({"crashed": True})


SIM = None
OUT_FD = None


def raise_errno(f, path=None):
    e = getattr(errno, f.get("errno", "EIO"))
    raise OSError(e, os.strerror(e), path)


class Raw(io.FileIO):
    """A file whose every read, write and close is an operation of the simulation"""

    def __init__(self, file, mode="r", closefd=True, label=None):
        self._p = label if label is not None else file
        self._done = False
        super().__init__(file, mode, closefd)
        SIM.live.append(self)

    def _apply(self, kind):
        f = SIM.op(kind, self._p)
        if f is None:
            return None
        if f["kind"] == "error":
            raise_errno(f, None)
        if f["kind"] == "crash":
            SIM.crash()
        return f

    def write(self, b):
        f = self._apply("write")
        mv = memoryview(b).cast("B")
        if f and f["kind"] == "short" and len(mv) > 1:
            return super().write(mv[:max(1, len(mv) // 2)])
        if f and f["kind"] == "torn":
            if len(mv) > 1:
                super().write(mv[:len(mv) // 2])
            SIM.crash()
        if f and f["kind"] == "full":
            # part of the data fits, then the disk is full
            if len(mv) > 1:
                super().write(mv[:len(mv) // 2])
            raise_errno({"errno": "ENOSPC"})
        return super().write(b)

    def read(self, n=-1):
        self._apply("read")
        return super().read(n)

    def readall(self):
        self._apply("read")
        return super().readall()

    def readinto(self, b):
        f = self._apply("read")
        if f and f["kind"] == "short" and len(b) > 1:
            mv = memoryview(b)
            return super().readinto(mv[:max(1, min(len(mv) // 2, 64))])
        return super().readinto(b)

    def close(self):
        if self.closed:
            return
        if self in SIM.live:
            SIM.live.remove(self)
        f = None
        try:
            f = SIM.op("close", self._p)
        except Exception:
            pass
        if f and f["kind"] == "crash":
            SIM.crash()
        super().close()
        if f and f["kind"] == "error":
            raise_errno(f, None)

    def __del__(self):
        # as with a real file, whatever goes wrong here is lost
        try:
            self.close()
        except Exception:
            pass


def build_file(raw, mode, buffering, encoding, errors, newline):
    text = "b" not in mode
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not isinstance(file, int):
        s = os.fspath(file)
        if s == "/proc/meminfo":
            return io.StringIO("MemTotal:       16000000 kB\n")
        if set(mode) & set("wax+") and not os.path.abspath(s).startswith("/dev/"):
            own(s)
        if SIM.name(s) is None or opener is not None:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "b" not in mode and encoding is None:
        encoding = io.text_encoding(None) if hasattr(io, "text_encoding") else None
        if encoding == "locale":
            encoding = SIM.plan.get("encoding") or None
    if not isinstance(file, int):
        f = SIM.op("open" + ("-w" if set(mode) & set("wax+") else "-r"), file)
        if f:
            if f["kind"] == "crash":
                SIM.crash()
            if f["kind"] == "error":
                raise_errno(f, file)
        label = SIM.name(file)
        label = os.path.join(SIM.root, label) if not label.startswith("@") else os.path.abspath(file)
        raw = Raw(file, mode.replace("b", "").replace("t", ""), closefd, label=label)
    else:
        label = SIM.fdpath.get(file)
        if label is None:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = Raw(file, mode.replace("b", "").replace("t", ""), closefd, label=os.path.join(SIM.root, label))
    return build_file(raw, mode, buffering, encoding, errors, newline)


def sim_fdopen(fd, mode="r", buffering=-1, encoding=None, *args, **kwargs):
    f = SIM.op("fdopen", os.path.join(SIM.root, SIM.fdpath[fd])) if fd in SIM.fdpath else None
    if f:
        if f["kind"] == "crash":
            SIM.crash()
        if f["kind"] == "error":
            raise_errno(f)
    return sim_open(fd, mode, buffering, encoding, *args, **kwargs)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and dir_fd is None and not os.path.abspath(os.fsdecode(path)).startswith("/dev/"):
        own(path)
    if SIM.name(path) is None:
        return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
    f = SIM.op("os.open", path)
    if f:
        if f["kind"] == "crash":
            SIM.crash()
        if f["kind"] == "error":
            raise_errno(f, path)
    fd = REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
    SIM.fdpath[fd] = SIM.name(path)
    return fd


def sim_os_write(fd, data):
    if fd not in SIM.fdpath:
        return REAL["write"](fd, data)
    f = SIM.op("write", os.path.join(SIM.root, SIM.fdpath[fd]))
    if f:
        if f["kind"] == "crash":
            SIM.crash()
        if f["kind"] == "torn":
            REAL["write"](fd, data[:len(data) // 2])
            SIM.crash()
        if f["kind"] == "short":
            return REAL["write"](fd, data[:max(1, len(data) // 2)])
        raise_errno(f)
    return REAL["write"](fd, data)


def sim_os_close(fd):
    SIM.fdpath.pop(fd, None)
    return REAL["close"](fd)


def own(path):
    """the code under test changes nothing outside the project and the temporary directory, which is all it owns"""
    name = SIM.name(path)
    if not isinstance(path, int) and (name is None or name.startswith("@")):
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)


def simple(kind):
    real = REAL[kind]
    changes = kind in ("unlink", "remove", "rmdir", "mkdir", "chmod", "utime", "truncate", "chown")

    def fn(path, *a, **k):
        if changes and k.get("dir_fd") is None:
            own(path)
        f = SIM.op(kind, path)
        if f:
            if f["kind"] == "crash":
                SIM.crash()
            if f["kind"] == "error":
                raise_errno(f, path)
        r = real(path, *a, **k)
        if f and f["kind"] == "after":
            SIM.crash()
        return r
    fn.__name__ = kind
    return fn


def in_tmp(path):
    """the directory of temporary files is a file system of its own"""
    t = os.path.join(SIM.root, ".tmp") + os.sep
    return os.path.abspath(os.fsdecode(path)).startswith(t)


def two(kind):
    real = REAL[kind]

    def fn(src, dst, *a, **k):
        own(dst)
        if kind in ("rename", "replace"):
            own(src)
        f = SIM.op(kind, dst)
        if f:
            if f["kind"] == "crash":
                SIM.crash()
            if f["kind"] == "error":
                raise_errno(f, src)
        if kind != "symlink" and in_tmp(src) != in_tmp(dst):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
        r = real(src, dst, *a, **k)
        if f and f["kind"] == "after":
            SIM.crash()
        return r
    fn.__name__ = kind
    return fn


def permuted(names, path):
    seed = SIM.plan.get("perm")
    names = sorted(names)
    if seed is not None:
        random.Random(f"{seed}:{SIM.name(path)}").shuffle(names)
    return names


def sim_listdir(path="."):
    if isinstance(path, int) or SIM.name(path) is None:
        return REAL["listdir"](path)
    f = SIM.op("listdir", path)
    if f:
        if f["kind"] == "crash":
            SIM.crash()
        if f["kind"] == "error":
            raise_errno(f, path)
    return permuted(REAL["listdir"](path), path)


class _Scan:
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    if isinstance(path, int) or SIM.name(path) is None:
        return REAL["scandir"](path)
    f = SIM.op("scandir", path)
    if f:
        if f["kind"] == "crash":
            SIM.crash()
        if f["kind"] == "error":
            raise_errno(f, path)
    with REAL["scandir"](path) as it:
        d = {e.name: e for e in it}
    return _Scan([d[n] for n in permuted(d, path)])


class TmpNames:
    characters = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __iter__(self):
        return self

    def __next__(self):
        SIM.tmpn += 1
        r = random.Random(f"{SIM.plan.get('tmp', 0)}:{SIM.worker[2] if SIM.worker else 0}:{SIM.tmpn}")
        return "simt" + "".join(r.choice(self.characters) for _ in range(8))


# ---------------------------------------------------------------------------
# commands
def command_result(args, shell, cwd):
    """what a command of the simulated machine prints and how it ends"""
    text = args if isinstance(args, str) else " ".join(map(str, args))
    cwd = SIM.name(cwd or os.getcwd())
    n = len(SIM.cmds)
    SIM.cmds.append([text[:300], cwd])
    for f in SIM.plan.get("cmdfaults", []):
        if f.get("n") is not None and f["n"] != n:
            continue
        if f.get("text") is not None and f["text"] not in text:
            continue
        SIM.fired.append([n, "cmd-" + f["kind"], "cmd", text[:80]])
        if f["kind"] == "spawn":
            raise OSError(getattr(errno, f.get("errno", "ENOENT")), "simulated", text[:40])
        if f["kind"] == "exit":
            return f["code"], f.get("out", "").encode(), b"command failed\n"
        if f["kind"] == "signal":
            return -f["signal"], f.get("out", "").encode(), b""
    a = text.replace('"', "").split()
    if a[:1] == ["simcmd"]:
        if a[1] == "word":
            return 0, (a[2] + "\n").encode(), b""
        if a[1] == "list":
            return 0, "".join(x + "\n" for x in a[2:]).encode(), b""
        if a[1] == "cwd":
            return 0, (cwd + "\n").encode(), b""
        if a[1] == "cat":
            p = os.path.join(SIM.root, cwd, a[2])
            try:
                with REAL["open"](p, "rb") as fp:
                    return 0, fp.read(), b""
            except OSError as e:
                return 1, b"", str(e).encode()
    return TABLE(text, a)


def TABLE(text, a):
    if a[:2] == ["xcodebuild", "-version"]:
        if "-sdk" in a:
            if a[-1] == "Path":
                return 0, b"/Applications/Xcode.app/SDKs/MacOSX13.sdk\n", b""
            return 0, b"13.0\n", b""
        return 0, b"Xcode 14.2\nBuild version 14C18\n", b""
    if a[:1] == ["xcrun"]:
        if "--show-sdk-path" in a:
            return 0, b"/Applications/Xcode.app/SDKs/MacOSX13.sdk\n", b""
        if "--show-sdk-version" in a:
            return 0, b"13.0\n", b""
        return 0, b"/usr/bin/tool\n", b""
    if ".bat " in text and "&& set" in text:
        arch = "x64" if "amd64" in text else "x86"
        return 0, (f"PATH=C:\\VS\\bin\\{arch};C:\\Windows\r\nINCLUDE=C:\\VS\\include\r\nLIB=C:\\VS\\lib\\{arch}\r\nLIBPATH=C:\\VS\\lib\r\n"
                   "SYSTEMROOT=C:\\Windows\r\nTEMP=C:\\tmp\r\nTMP=C:\\tmp\r\nOTHER=1\r\nPATHEXT=.EXE\r\n").encode(), b""
    if ".bat " in text and "cl.exe" in text:
        return 0, b"INFO: environment\r\nLOC:C:\\VS\\bin\\" + (b"x64" if "amd64" in text else b"x86") + b"\\cl.exe\r\n", b""
    if a[:2] == ["reg.exe", "query"] or text.find("reg.exe") >= 0:
        if "DirectX" in text:
            return 0, b"HKEY_LOCAL_MACHINE\\SOFTWARE\r\n    InstallPath    REG_SZ    C:\\DXSDK\r\n", b""
        return 1, b"", b"ERROR: The system was unable to find the specified registry key or value.\r\n"
    if a[:1] == ["sw_vers"]:
        return 0, b"13.1\n" if "-productVersion" in a else b"22C65\n", b""
    if a[:1] == ["xcode-select"]:
        return 0, b"/Applications/Xcode.app/Contents/Developer\n", b""
    if a[:1] == ["uname"]:
        return 0, b"Linux\n", b""
    if "-dM" in a:
        return 0, b"#define __x86_64__ 1\n#define __linux__ 1\n", b""
    if "-v" in a and "-E" in a:
        return 0, b"", b"#include <...> search starts here:\n /usr/include\n /usr/local/include\nEnd of search list.\n"
    if "--version" in a or "-v" in a:
        return 0, b"gcc (SIM) 13.2.0\n", b"gcc version 13.2.0\n"
    if a[:2] == ["net", "config"]:
        return 0, b"Workstation domain                   SIM\n", b""
    if a[:1] in (["make"], ["ninja"], ["cmake"], ["xcodebuild"]):
        # gyp --build
        return 0, b"", b""
    return 127, b"", (a[0] if a else "").encode() + b": not found\n"


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, text=None,
                 encoding=None, errors=None, **kw):
        self.args = args
        self.pid = 4242
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", cwd)
        rc, out, err = command_result(args, shell, cwd)
        if rc == 127 and not shell:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(args))
        if stderr == subprocess.STDOUT:
            out, err = out + err, b""
        self.text = bool(universal_newlines or text or encoding or errors)
        enc = encoding or "utf-8"
        if self.text:
            out, err = out.decode(enc), err.decode(enc)
        self._rc, self._out, self._err = rc, out, err
        self.returncode = None
        mk = (io.StringIO if self.text else io.BytesIO)
        self.stdout = mk(out) if stdout == subprocess.PIPE else None
        self.stderr = mk(err) if stderr == subprocess.PIPE else None
        self.stdin = mk() if stdin == subprocess.PIPE else None
        if stderr is None and err:
            sys.stderr.write(err if self.text else err.decode())

    def communicate(self, input=None, timeout=None):
        self.returncode = self._rc
        return (self.stdout.read() if self.stdout else None, self.stderr.read() if self.stderr else None)

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    @classmethod
    def __class_getitem__(cls, x):
        return cls


# ---------------------------------------------------------------------------
# the worker pool: forked workers, each stopped at every operation it does, and a scheduler that picks
# which task is started on which worker, which worker takes its next step, and when a result is reported
class SimCondition:
    def __init__(self, lock=None):
        self.owner = 0
        self.waiting = False
        self.woken = False

    def acquire(self, blocking=True, timeout=-1):
        ctx = POOL.ctx if POOL else "main"
        if self.owner:
            raise Hang("deadlock: the lock is taken twice")
        if ctx == "main" and POOL:
            POOL.switch()
        self.owner = ctx
        return True

    def release(self):
        if not self.owner:
            raise RuntimeError("cannot release un-acquired lock")
        self.owner = 0
        if POOL and POOL.ctx == "main":
            POOL.switch()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        if not self.owner:
            raise RuntimeError("cannot wait on un-acquired lock")
        self.owner = 0
        self.waiting, self.woken = True, False
        while not self.woken:
            if POOL is None or not POOL.step():
                if timeout is not None:
                    self.waiting = False
                    self.owner = "main"
                    return False
                raise Hang("nothing is left that could wake the main loop")
        # other results may come in before the main loop runs again
        while POOL.rng.random() < 0.4 and POOL.step():
            pass
        self.waiting = False
        self.owner = "main"
        return True

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        if not self.owner:
            raise RuntimeError("cannot notify on un-acquired lock")
        if self.waiting:
            self.woken = True

    def notify_all(self):
        self.notify()

    notifyAll = notify_all


POOL = None
START = None    # the way of starting workers that the program itself asked for


class SimContext:
    """multiprocessing.get_context"""
    def __init__(self, method=None):
        self.method = method

    def Pool(self, *a, **k):
        global START
        START, old = self.method, START
        try:
            return SimPool(*a, **k)
        finally:
            START = old

    def cpu_count(self):
        return os.cpu_count()

    def get_start_method(self, allow_none=False):
        return self.method or SIM.plan.get("start", "fork")

    def __getattr__(self, name):
        import multiprocessing
        return getattr(multiprocessing, name)


def set_start_method(method, force=False):
    global START
    START = method


CODE = {}


class Recompiled:
    """imports gyp's modules again from code compiled once"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in CODE:
            file, pkg = CODE[name][:2]
            return importlib.util.spec_from_file_location(name, file, loader=Recompiled, submodule_search_locations=[os.path.dirname(file)] if pkg else None)

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(module):
        exec(CODE[module.__name__][2], module.__dict__)


def remember_code():
    for name, m in list(sys.modules.items()):
        if name == "gyp" or name.startswith("gyp."):
            if getattr(m, "__loader__", None) and m.__file__:
                CODE[name] = (m.__file__, hasattr(m, "__path__"), m.__loader__.get_code(name))
    sys.meta_path.insert(0, Recompiled)


def fresh_modules():
    """a worker that was not forked (macOS, Windows, newer Pythons): nothing the main process did to its modules is there"""
    for name in list(sys.modules):
        f = getattr(sys.modules[name], "__file__", None) or ""
        if name == "gyp" or name.startswith("gyp.") or f.startswith(SIM.root + os.sep):
            del sys.modules[name]


class AsyncResult:
    def __init__(self, task):
        self.task = task

    def ready(self):
        return self.task["done"]

    def wait(self, timeout=None):
        while not self.task["done"] and POOL.step():
            pass

    def get(self, timeout=None):
        self.wait()
        if not self.task["done"]:
            raise Hang("a result that never comes is waited for")
        if self.task["ok"]:
            return self.task["value"]
        raise self.task["value"]

    def successful(self):
        return self.task["ok"]


class SimPool:
    made = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        global POOL
        POOL = self
        SimPool.made += 1
        self.rng = SIM.rng
        self.ctx = "main"
        self.start = START or SIM.plan.get("start", "fork")
        n = processes or os.cpu_count()
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.early = self.rng.random() < 0.5
        self.queue = []
        self.workers = []
        self.done = []
        self.closed = False
        self.dead = False
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(n):
            self.workers.append(self.spawn(len(self.workers) + 1, initializer, initargs))

    def spawn(self, ident, initializer, initargs):
        c_r, p_w = os.pipe()
        p_r, c_w = os.pipe()
        pid = REAL["fork"]()
        if pid == 0:
            REAL["close"](p_w), REAL["close"](p_r)
            SIM.worker = (c_r, c_w, ident)
            global POOL
            POOL = None
            if self.start != "fork":
                fresh_modules()
            try:
                if initializer:
                    initializer(*initargs)
                while True:
                    m = recv(c_r)
                    if m is None:
                        REAL["exit"](0)
                    try:
                        func, args, kw = pickle.loads(bytes.fromhex(m["task"]))
                        v = (True, func(*args, **kw))
                    except Exception as e:
                        v = (False, e)
                    try:
                        data = pickle.dumps(v)
                    except Exception as e:
                        data = pickle.dumps((False, RuntimeError(f"result cannot be sent: {e}")))
                    sys.stdout.flush()
                    sys.stderr.flush()
                    send(c_w, {"result": data.hex(), "cmds": SIM.cmds, "fired": SIM.fired})
                    SIM.cmds, SIM.fired = [], []
            except BaseException:
                REAL["exit"](1)
        REAL["close"](c_r), REAL["close"](c_w)
        return {"id": ident, "pid": pid, "w": p_w, "r": p_r, "task": None, "init": (initializer, initargs)}

    # -- scheduling -----------------------------------------------------
    def enabled(self):
        out = []
        if self.queue:
            idle = [w for w in self.workers if w["task"] is None]
            out += [("start", w["id"]) for w in idle]
        for w in self.workers:
            if w["task"] is not None:
                out.append(("run", w["id"]))
        if self.done:
            out.append(("report", 0))
        return out

    def step(self):
        """one scheduling decision; False when nothing can happen any more"""
        ch = self.enabled()
        if not ch:
            return False
        starts = [c for c in ch if c[0] == "start"]
        # idle workers are alike, unless they have run something before (their caches differ)
        kind = self.rng.choice(sorted({c[0] for c in ch}))
        what, wid = self.rng.choice([c for c in ch if c[0] == kind])
        SIM.sched.append(f"{what[0]}{wid}")
        if what == "start":
            w = self.workers[wid - 1]
            task = self.queue.pop(0)
            w["task"] = task
            self.pickled(task)
            send(w["w"], {"task": task["data"].hex()})
            self.settle(w)
        elif what == "run":
            w = self.workers[wid - 1]
            self.advance(w)
        else:
            # results of one pool come back in the order in which the workers put them
            self.report(self.done.pop(0))
        return True

    @staticmethod
    def settle(w):
        """until the worker has come to its next operation; nobody else runs in the meantime (what it does not
        announce, such as stat, happens together with what it did before)"""
        select.select([w["r"]], [], [])

    def advance(self, w):
        m = recv(w["r"])
        if m is None:
            # the worker process is gone; as in the real pool its task is lost, and a new worker takes its place
            os.waitpid(w["pid"], 0)
            REAL["close"](w["r"]), REAL["close"](w["w"])
            SIM.sched.append(f"x{w['id']}")
            self.dead = True
            self.workers[w["id"] - 1] = self.spawn(w["id"], *w["init"])
            return
        if "op" in m:
            f = SIM.decide(m["op"], m["path"], w["id"])
            if f and f["kind"] == "kill-worker":
                os.kill(w["pid"], signal.SIGKILL)
                return
            send(w["w"], {"fault": f})
            self.settle(w)
        elif "crash" in m:
            finish({"crashed": True})
        elif "result" in m:
            SIM.cmds += m["cmds"]
            SIM.fired += m["fired"]
            ok, v = pickle.loads(bytes.fromhex(m["result"]))
            w["task"]["res"] = (ok, v)
            self.done.append(w["task"])
            w["task"] = None

    def report(self, task):
        task["ok"], task["value"] = task["res"]
        task["done"] = True
        cb = task["cb"] if task["ok"] else task["ecb"]
        if cb:
            prev, self.ctx = self.ctx, "callback"
            try:
                cb(task["value"])
            finally:
                self.ctx = prev

    def switch(self):
        """a point at which the main thread does not hold the lock"""
        while self.rng.random() < 0.3 and self.step():
            pass

    # -- the interface of multiprocessing.Pool ---------------------------
    @staticmethod
    def pickled(t):
        if t["data"] is None:
            t["data"] = pickle.dumps(t["call"])
            t["call"] = None

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        # pickled when the task handler gets to it, which is some time before a worker takes it
        t = {"data": None, "call": (func, args, kwds), "cb": callback, "ecb": error_callback, "done": False, "ok": None, "value": None}
        if self.early:
            self.pickled(t)
        self.queue.append(t)
        return AsyncResult(t)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        for r in rs:
            r.wait()
        return [r.get() for r in rs]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return [self.apply_async(func, (x,)) for x in iterable]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in iterable]
        order = []
        while len(order) < len(rs):
            if not self.step():
                raise Hang("a result that never comes is waited for")
            for r in rs:
                if r.ready() and r not in order:
                    order.append(r)
        return iter([r.get() for r in order])

    def starmap(self, func, iterable, chunksize=None):
        rs = [self.apply_async(func, tuple(x)) for x in iterable]
        return [r.get() for r in rs]

    def close(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self.step():
            pass
        if self.dead:
            raise Hang("the pool is joined although a task was lost with its worker")
        self.stop()

    def terminate(self):
        self.closed = True
        self.stop()

    def stop(self):
        for w in self.workers:
            try:
                os.kill(w["pid"], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(w["pid"], 0)
            except OSError:
                pass
            for fd in (w["r"], w["w"]):
                try:
                    REAL["close"](fd)
                except OSError:
                    pass
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


# ---------------------------------------------------------------------------
def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.fdopen = sim_fdopen
    os.write = sim_os_write
    os.close = sim_os_close
    for k in ("unlink", "remove", "mkdir", "rmdir", "chmod", "utime"):
        setattr(os, k, simple(k))
    for k in ("rename", "replace", "link", "symlink"):
        setattr(os, k, two(k))
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.getpid = lambda: SIM.plan.get("pid", 4711) + (SIM.worker[2] if SIM.worker else 0)
    tempfile._get_candidate_names = lambda: TmpNames()
    tempfile.tempdir = os.path.join(SIM.root, ".tmp")
    subprocess.Popen = SimPopen
    import multiprocessing
    multiprocessing.Pool = SimPool
    multiprocessing.cpu_count = lambda: SIM.plan.get("cpus", 2)
    os.cpu_count = multiprocessing.cpu_count
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid: set(range(SIM.plan.get("cpus", 2)))
    threading.Condition = SimCondition
    multiprocessing.get_context = lambda method=None: SimContext(method)
    multiprocessing.set_start_method = set_start_method
    multiprocessing.get_start_method = lambda allow_none=False: START or SIM.plan.get("start", "fork")
    multiprocessing.pool.Pool = SimPool
    for name in list(sys.modules):
        m = sys.modules[name]
        if name == "shutil":
            m._USE_CP_SENDFILE = False
            m._use_fd_functions = False
    random.seed(str(SIM.plan.get("seed", 0)))


STATE = {"out": None, "err": None}


def finish(extra):
    """end of the simulated process"""
    if POOL:
        POOL.stop()
    res = {"ops": SIM.ops, "fired": SIM.fired, "cmds": SIM.cmds, "sched": "".join(SIM.sched), "pools": SimPool.made,
           "count": SIM.count, "crashed": False, "hang": None, "exit": None}
    res.update(extra)
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    for k in ("out", "err"):
        os.lseek(STATE[k], 0, 0)
        b = b""
        while True:
            c = REAL["read"](STATE[k], 1 << 16)
            if not c:
                break
            b += c
        res[k] = b.decode("utf-8", "replace")
        if len(res[k]) > 20000:
            res[k] = res[k][:5000] + "\n...\n" + res[k][-15000:]
    if SIM.plan.get("noops"):
        res["ops"] = []
    send(OUT_FD, res)
    REAL["exit"](0)


def run_one(req):
    """in the forked child"""
    global SIM
    SIM = Sim(req)
    os.environ.clear()
    os.environ.update(req["env"])
    os.chdir(req["cwd"])
    os.umask(req.get("umask", 0o22))
    sys.argv = req["argv"]
    STATE["out"], STATE["err"] = os.memfd_create("out"), os.memfd_create("err")
    for fd, k in ((1, "out"), (2, "err")):
        os.dup2(STATE[k], fd)
    sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), "utf-8", "backslashreplace", line_buffering=True, write_through=True)
    sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), "utf-8", "backslashreplace", line_buffering=True, write_through=True)
    install()
    code = None
    extra = {}
    try:
        if req.get("platform"):
            sys.platform = req["platform"]
        mod = req.get("entry", "gyp")
        if mod == "gyp":
            import gyp
            code = gyp.script_main()
        else:
            m = importlib.import_module(mod)
            code = getattr(m, req["func"])(*req.get("fargs", []))
    except Hang as e:
        extra["hang"] = str(e)
    except SystemExit as e:
        code = e.code
        if code is not None and not isinstance(code, int):
            sys.stderr.write(str(code) + "\n")
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    if code is None:
        code = 0
    # the interpreter closes what is still open and ignores what goes wrong then
    import gc
    gc.collect()
    for raw in list(SIM.live):
        for o in gc.get_referrers(raw):
            if isinstance(o, (io.BufferedWriter, io.BufferedRandom)):
                for t in gc.get_referrers(o):
                    if isinstance(t, io.TextIOWrapper):
                        try:
                            t.close()
                        except Exception:
                            pass
                try:
                    o.close()
                except Exception:
                    pass
    extra["exit"] = code & 0xFF if isinstance(code, int) else 1
    finish(extra)


def main():
    global OUT_FD
    pylib = sys.argv[1]
    sys.path.insert(0, pylib)
    in_fd, out_fd = os.dup(0), os.dup(1)
    OUT_FD = out_fd
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    import filecmp, hashlib, locale, shutil, glob, shlex, multiprocessing, pprint, ast  # noqa
    import multiprocessing.pool  # noqa
    # put in place before gyp is loaded, so that it makes no difference how gyp imports them
    multiprocessing.Pool = multiprocessing.pool.Pool = SimPool
    multiprocessing.get_context = lambda method=None: SimContext(method)
    subprocess.Popen = SimPopen
    threading.Condition = SimCondition
    import gyp, gyp.input, gyp.common, gyp.easy_xml  # noqa
    for g in ("make", "ninja", "cmake", "msvs", "xcode", "gypd", "compile_commands_json", "dump_dependency_json",
              "eclipse", "android", "analyzer"):
        try:
            importlib.import_module("gyp.generator." + g)
        except Exception as e:
            sys.stderr.write(f"{g}: {e}\n")
    gyp.debug.clear() if hasattr(gyp, "debug") else None
    remember_code()
    send(out_fd, {"ready": sys.flags.hash_randomization, "h": hash("x")})
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        req = recv(in_fd)
        if req is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            OUT_FD = w
            os.setpgid(0, 0)
            os.close(r), os.close(in_fd), os.close(out_fd)
            try:
                run_one(req)
            except BaseException:
                try:
                    send(w, {"harness": traceback.format_exc()})
                except Exception:
                    pass
            REAL["exit"](3)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        limit = req.get("limit", 60)
        ready, _, _ = select.select([r], [], [], limit)
        res = recv(r) if ready else {"timeout": limit}
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        send(out_fd, res if res is not None else {"harness": "the run ended without a result"})


if __name__ == "__main__":
    main()

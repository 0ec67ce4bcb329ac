"""The parent side of the simulated gyp runs: zygotes, scratch directories, snapshots, sharding."""
import atexit
import ctypes
import hashlib
import json
import os
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NODE_GYP_REPO", "/repo")
PYLIB = os.path.join(REPO, "gyp", "pylib")
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    pass


class Zygote:
    def __init__(self, hashseed, extra_env=None):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C.UTF-8",
               "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore"}
        env.update(extra_env or {})
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "zygote.py"), PYLIB], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else None, env=env, cwd="/")
        if self._recv() is None:
            raise HarnessError("a zygote did not start (gyp cannot be imported?)")

    def _recv(self):
        f = self.p.stdout
        h = f.read(4)
        if len(h) < 4:
            return None
        n = struct.unpack("<I", h)[0]
        b = f.read(n)
        return json.loads(b) if len(b) == n else None

    def run(self, req):
        b = json.dumps(req).encode()
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        r = self._recv()
        if r is None:
            raise HarnessError("a zygote died")
        if "harness" in r:
            raise HarnessError(r["harness"])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Zygotes:
    """zygotes by hash seed (and environment), started when needed, a few kept"""

    def __init__(self, keep=6):
        self.z = {}
        self.keep = keep

    def get(self, hashseed, env=None):
        key = (hashseed, json.dumps(env or {}, sort_keys=True))
        if key in self.z:
            z = self.z.pop(key)
        else:
            z = Zygote(hashseed, env)
            while len(self.z) >= self.keep:
                self.z.pop(next(iter(self.z))).close()
        self.z[key] = z
        return z

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}


SCRATCH_BASE = None


def scratch_base():
    """a directory of our own, on a memory file system when there is one"""
    global SCRATCH_BASE
    if SCRATCH_BASE is None:
        for d in ("/dev/shm", "/tmp"):
            if os.path.isdir(d) and os.access(d, os.W_OK):
                try:
                    SCRATCH_BASE = tempfile.mkdtemp(prefix="gypsim.", dir=d)
                    break
                except OSError:
                    continue
        if SCRATCH_BASE is None:
            SCRATCH_BASE = tempfile.mkdtemp(prefix="gypsim.")
        owner = os.getpid()
        base = SCRATCH_BASE

        def cleanup():
            if os.getpid() == owner:
                shutil.rmtree(base, ignore_errors=True)
        atexit.register(cleanup)
    return SCRATCH_BASE


def set_scratch(path):
    global SCRATCH_BASE
    SCRATCH_BASE = path


FIXED = "/media"
settled = None


def _private_root(private):
    """in a mount namespace of our own: FIXED/base is the scratch base, FIXED/w this process's part of it"""
    uid, gid = os.getuid(), os.getgid()
    libc = ctypes.CDLL(None, use_errno=True)

    def check(r):
        if r != 0:
            raise OSError(ctypes.get_errno(), "namespace")

    def write(path, text):
        with open(path, "w") as f:
            f.write(text)

    base = scratch_base().encode()
    check(libc.unshare(0x10000000 | 0x00020000))  # CLONE_NEWUSER | CLONE_NEWNS
    write("/proc/self/setgroups", "deny")
    write("/proc/self/uid_map", f"{uid} {uid} 1")
    write("/proc/self/gid_map", f"{gid} {gid} 1")
    check(libc.mount(None, b"/", None, 0x4000 | 0x40000, None))  # MS_REC | MS_PRIVATE

    def read_only(path, on, flags=0):
        # mount_setattr: attr_set, attr_clr, propagation, userns_fd
        attr = (ctypes.c_uint64 * 4)(on, 1 - on, 0, 0)
        return libc.syscall(442, -100, path, flags, attr, ctypes.c_size_t(32))

    # what the code under test does outside its scratch directory has no effect on this machine: everything else is read-only
    contained = read_only(b"/", 1, 0x8000) == 0  # AT_RECURSIVE
    check(libc.mount(b"none", FIXED.encode(), b"tmpfs", 0, None))
    for name, what in (("base", base), ("w", private.encode())):
        d = os.path.join(FIXED, name)
        os.mkdir(d)
        check(libc.mount(what, d.encode(), None, 0x1000, None))  # MS_BIND
        if contained:
            check(read_only(d.encode(), 0))
    os.environ["TMPDIR"] = os.path.join(FIXED, "base")
    # temporary files and semaphores of the real processes (make runs a gyp of its own) go nowhere else either
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and not any((p + "/").startswith(d + "/") for p in (REPO, os.path.abspath(__file__), os.path.realpath(REPO))):
            check(libc.mount(b"none", d.encode(), b"tmpfs", 0, b"mode=1777"))


def settle(ident):
    """give this process (and what it starts) a scratch directory whose path is the same in every run

    Without it (no user namespaces here) runs work too, but the path differs from run to run, and with it the order of
    sets of paths and the length of lines, so that a run is only repeated exactly by a run at the same path."""
    global settled
    if settled is None:
        private = os.path.join(scratch_base(), f"p{ident:02d}")
        os.makedirs(private, exist_ok=True)
        settled = os.path.join(scratch_base(), f"w{ident:02d}")
        if not os.path.isdir(FIXED) or any(REPO == d or REPO.startswith(d + "/") or d.startswith(REPO + "/") for d in (FIXED,)) or __file__.startswith(FIXED + "/"):
            return settled
        # somebody else tries it first
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                _private_root(private)
                with open(os.path.join(REPO, "gyp", "gyp_main.py")) as f:
                    f.read(1)
                with open(os.path.join(FIXED, "w", ".try"), "w"):
                    pass
                os.unlink(os.path.join(FIXED, "w", ".try"))
                code = subprocess.call(["/bin/sh", "-c", "exit 0"])
            except BaseException:
                pass
            finally:
                os._exit(1 if code else 0)
        if os.waitpid(pid, 0)[1] == 0:
            _private_root(private)
            set_scratch(os.path.join(FIXED, "base"))
            settled = os.path.join(FIXED, "w", "s")
    return settled


class Scratch:
    def __init__(self, ident):
        self.root = settle(ident)

    def fresh(self, files, exe=()):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, ".tmp"))
        made = set()
        for p, text in files.items():
            full = os.path.join(self.root, p)
            d = os.path.dirname(full)
            if d not in made:
                os.makedirs(d, exist_ok=True)
                made.add(d)
            with open(full, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
            if p in exe:
                os.chmod(full, 0o755)
        return self.root

    def save(self):
        """keep the tree as it is"""
        shutil.rmtree(self.root + ".saved", ignore_errors=True)
        shutil.copytree(self.root, self.root + ".saved", symlinks=True)

    def restore(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.copytree(self.root + ".saved", self.root, symlinks=True)

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.root + ".saved", ignore_errors=True)


def snapshot(root, ignore=()):
    """{relative path: (kind, mode, content, mtime_ns, inode)}"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in ds:
            p = os.path.join(d, n)
            if os.path.islink(p):
                fs.append(n)
            else:
                r = os.path.relpath(p, root)
                out[r] = ("d", 0, b"", 0, 0)
        for n in fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = ("l", 0, os.readlink(p).encode(), 0, st.st_ino)
            else:
                with open(p, "rb") as f:
                    out[r] = ("f", st.st_mode & 0o777, f.read(), st.st_mtime_ns, st.st_ino)
    for r in list(out):
        if r in ignore or r == ".tmp":
            del out[r]
    return out


def content(snap, inputs=()):
    """files that are not inputs: {path: (kind, mode, bytes)}"""
    return {p: v[:3] for p, v in snap.items() if p not in inputs and v[0] != "d"}


def diff(a, b):
    """a short text about the first difference of two content() dictionaries, or None"""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            return f"{p} exists only in the second"
        if p not in b:
            return f"{p} exists only in the first"
        if a[p] != b[p]:
            if a[p][2] != b[p][2]:
                x, y = a[p][2].split(b"\n"), b[p][2].split(b"\n")
                for i, (u, v) in enumerate(zip(x, y)):
                    if u != v:
                        j = next((k for k in range(min(len(u), len(v))) if u[k] != v[k]), min(len(u), len(v)))
                        s = max(0, j - 60)
                        return f"{p} line {i + 1}: {u[s:j + 100]!r} vs {v[s:j + 100]!r}"
                return f"{p}: {len(x)} lines vs {len(y)} lines"
            return f"{p}: {a[p][0]} mode {a[p][1]:o} vs {b[p][0]} mode {b[p][1]:o}"
    return None


def digest(c):
    h = hashlib.sha256()
    for p in sorted(c):
        h.update(p.encode() + b"\0" + repr(c[p]).encode())
    return h.hexdigest()[:16]


def last_lines(text, n=3):
    lines = [x for x in (text or "").strip().split("\n") if x.strip()]
    return " | ".join(lines[-n:])[:400]


class Cover:
    def __init__(self):
        self.runs = 0          # scenarios
        self.execs = 0         # simulated gyp processes
        self.faults = {}
        self.states = set()
        self.notes = {}
        self.samples = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def state(self, *xs):
        if os.environ.get("VERIF_STATES_TEXT"):
            # (to find out where two runs with one seed differ)
            with open(os.environ["VERIF_STATES_TEXT"] + "." + str(os.getpid()), "a") as f:
                f.write(repr(xs) + "\n")
        self.states.add(hashlib.sha256(repr(xs).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:1500])

    def dump(self):
        return {"runs": self.runs, "execs": self.execs, "faults": self.faults, "states": sorted(self.states),
                "notes": self.notes, "samples": self.samples}

    def merge(self, d):
        self.runs += d["runs"]
        self.execs += d["execs"]
        for k, v in d["faults"].items():
            self.fault(k, v)
        self.states |= set(d["states"])
        for k, v in d["notes"].items():
            self.note(k, v)
        for s in d["samples"]:
            self.sample(s)


def sharded(worker, jobs, nproc, deadline, on_result):
    """run worker(ident, job) over the jobs on nproc processes; results in job order as they come.

    worker is a function of (ident, job) -> JSON value, run in a forked process; on_result returns True
    to stop.  Raises HarnessError when a worker process ends without an answer."""
    import multiprocessing as mp
    base = scratch_base()
    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    stop = ctx.Value("i", 0)
    procs = []
    pipes = []
    for ident in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for q in pipes:
                os.close(q)
            os.close(r)
            set_scratch(base)
            code = 0
            out = os.fdopen(w, "w")
            try:
                w_state = worker(ident, None)
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= len(jobs) or stop.value or time.time() > deadline:
                        break
                    out.write(json.dumps([i, w_state(jobs[i])]) + "\n")
                    out.flush()
                fin = getattr(w_state, "finish", None)
                if fin:
                    out.write(json.dumps([-1, fin()]) + "\n")
                out.flush()
            except BaseException:
                traceback.print_exc()
                code = 2
            finally:
                try:
                    out.write(json.dumps([-2, code]) + "\n")
                    out.flush()
                except Exception:
                    pass
                os._exit(code)
        os.close(w)
        pipes.append(r)
        procs.append(pid)
    bufs = {r: b"" for r in pipes}
    ended = {r: None for r in pipes}
    live = set(pipes)
    try:
        while live:
            ready, _, _ = select.select(list(live), [], [], 5)
            for r in ready:
                c = os.read(r, 1 << 16)
                if not c:
                    live.discard(r)
                    continue
                bufs[r] += c
                while b"\n" in bufs[r]:
                    line, bufs[r] = bufs[r].split(b"\n", 1)
                    i, res = json.loads(line)
                    if i == -2:
                        ended[r] = res
                    elif on_result(i, res):
                        stop.value = 1
    finally:
        for pid in procs:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for r in pipes:
            os.close(r)
    if any(v != 0 for v in ended.values()):
        raise HarnessError("a worker process of the check failed")

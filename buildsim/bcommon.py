"""What the build checks share: laying out a project, running gyp and builds, comparing products."""
import copy
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bgen  # noqa: E402
import engine  # noqa: E402
import simlib  # noqa: E402

REAL = ["all of gyp (make and ninja generators)", "GNU make and ninja, with their dependency files, logs and timestamps", "dash, coreutils, sed, grep in the steps",
        "the file system of a scratch directory"]
STUB = ["compiler, archiver, linker, nm, readelf (a small program whose output is a function of everything it is given)",
        "the start of every step (a gate that lets one step run at a time, chosen by the seed)", "programs of the project (generated files say which program made them)"]


class Problem(Exception):
    """gyp failed on a project it must accept, or the like: a violation, with its kind"""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


def prepare(where):
    tools = os.path.join(where, "tools")
    if not os.path.isdir(tools):
        engine.build_tools(tools + ".new")
        os.rename(tools + ".new", tools)
    return tools


class World:
    """one project in the scratch directory"""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.top = ctx.scratch.root
        self.sub = spec.get("sub", "")
        self.root = os.path.join(self.top, self.sub) if self.sub else self.top  # the project's directory
        self.eng = ctx.engine()
        self.fmt = spec["fmt"]

    def argv(self, tops):
        return list(tops) + [a.replace("@REPO@", simlib.REPO) for a in self.spec["args"]]

    def lay(self, state):
        self.ctx.scratch.fresh({os.path.normpath(os.path.join(self.sub, p)): v for p, v in bgen.text(state).items()})

    def gyp(self, tops):
        r = self.ctx.gyp(self.spec, {}, argv=self.argv(tops), hashseed=0, cwd=self.sub or None)
        if r.get("exit") != 0:
            raise Problem("gyp-fails", f"gyp fails on a project it must accept: {simlib.last_lines(r.get('err'))}")
        self.eng.tick()

    def where(self):
        if self.fmt == "make":
            return os.path.join(self.root, self.spec["makedir"])
        return os.path.join(self.root, self.spec["outdir"], self.spec["buildtype"])

    def build(self, goals=(), keep_going=False, **kw):
        args = list(goals)
        if self.fmt == "make":
            args = ["BUILDTYPE=" + self.spec["buildtype"]] + (["-k"] if keep_going else []) + args
        elif keep_going:
            args = ["-k", "0"] + args
        self.ctx.cover.execs += 1
        kw["env"] = dict(kw.get("env") or {}, HOME=self.top + "/.nohome")
        if self.spec.get("nolink"):
            kw["env"] = dict(kw.get("env") or {}, SIM_NOLINK="1")
        r = self.eng.build(self.fmt, args, self.where(), **kw)
        self.ctx.cover.note("steps", len(r.steps))
        if self.ctx.verbose:
            print(f"  build {args} {kw} -> exit {r.exit}, {len(r.steps)} steps, {r.ops} operations, fired {r.fired}")
            for s in r.steps:
                print(f"    {s.start:3d} ready {s.ready:3d} {s.target[-60:]:60s} st={s.status} {s.cmd.strip()[:110]!r} W={sorted(x[-40:] for x in s.writes)}")
            if r.exit:
                print("   ", r.out[-600:])
        return r

    def products(self):
        """files the build made: {path: (executable, bytes)}; and directories are not looked at"""
        out = {}
        top = os.path.join(self.root, self.spec["outdir"])
        for d, ds, fs in os.walk(top):
            if ".deps" in ds:
                ds.remove(".deps")
            for n in fs:
                p = os.path.join(d, n)
                r = os.path.relpath(p, self.root)
                if n in (".ninja_log", ".ninja_deps", ".ninja_lock", "build.ninja", "Makefile", "config.gypi", "gyp-mac-tool") or n.endswith((".mk", ".Makefile", ".ninja")):
                    continue
                if os.path.islink(p):
                    out[r] = ("l", os.readlink(p).encode())
                else:
                    with open(p, "rb") as f:
                        out[r] = (bool(os.stat(p).st_mode & 0o100), f.read())
        return out

    # a second copy of everything, with times and hard links kept
    def save(self, name):
        dst = self.top + "." + name
        shutil.rmtree(dst, ignore_errors=True)
        subprocess.run(["cp", "-a", self.top, dst], check=True)

    def restore(self, name):
        shutil.rmtree(self.top, ignore_errors=True)
        subprocess.run(["cp", "-a", self.top + "." + name, self.top], check=True)

    def drop(self, name):
        shutil.rmtree(self.top + "." + name, ignore_errors=True)

    def clean(self, state):
        """products of a clean serial build of a state; the tree that is there is put back afterwards"""
        keep = self.top + ".keep"
        shutil.rmtree(keep, ignore_errors=True)
        had = os.path.isdir(self.top)
        if had:
            os.rename(self.top, keep)
        try:
            self.lay(state)
            self.gyp(state["tops"])
            r = self.build(jobs=1, policy="fifo", seed=0)
            if r.exit != 0:
                raise Problem("clean-build-fails", f"a clean serial build of a correct project fails (exit {r.exit}): {simlib.last_lines(r.out)}")
            return self.products()
        finally:
            if had:
                shutil.rmtree(self.top, ignore_errors=True)
                os.rename(keep, self.top)

    def apply(self, edit, state):
        """make an edit in the tree; returns the new state"""
        new = copy.deepcopy(state)
        self.eng.tick()
        for k in ("gyp", "files"):
            for p, v in edit["change"][k].items():
                full = os.path.normpath(os.path.join(self.root, p))
                if v is None:
                    new[k].pop(p, None)
                    os.unlink(full)
                else:
                    new[k][p] = v
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    tmp = full + ".edit~"
                    with open(tmp, "w") as f:
                        f.write(bgen.projgen.render(v) if k == "gyp" else v)
                    os.replace(tmp, full)
        for p in edit["touch"]:
            full = os.path.join(self.root, p)
            if os.path.exists(full):
                os.utime(full)
        new["tops"] = edit["tops"]
        self.eng.tick()
        return new

    def cleanup(self):
        for n in ("keep", "a", "b", "c"):
            self.drop(n)


def groups(res):
    """steps of a build by the thing they make: {target or command: (first ready, [steps])}"""
    out = {}
    for s in res.steps:
        k = s.target or s.cmd
        if k in out:
            out[k][1].append(s)
        else:
            out[k] = (s.ready, [s])
    return out


def short(path):
    return path[-90:]


def diff(a, b, subset=False):
    """first difference of two products() dictionaries; subset: the second may have more"""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            if subset:
                continue
            return f"{p} exists only in the second"
        if p not in b:
            return f"{p} is missing in the second"
        if a[p][0] != b[p][0]:
            return f"{p}: mode or kind differs"
        if a[p][1] != b[p][1]:
            return f"{p}: content differs"
    return None


def races(res):
    """reads of what another step wrote although the reader did not wait for it; writes of one file by two steps"""
    out = []
    gs = groups(res)
    of = {}
    for k, (ready, steps) in gs.items():
        for s in steps:
            of[s.start] = k
    writers = {}
    for s in res.steps:
        k = of[s.start]
        for p in sorted(s.reads):
            w = [x for x in writers.get(p, []) if of[x.start] != k]
            if w and w[-1].start >= gs[k][0] and not any(of[x.start] == k for x in writers.get(p, [])):
                out.append(("reads-unordered", f"the step for {short(s.target or s.cmd)} reads {p}, which the step for {short(w[-1].target or w[-1].cmd)} wrote "
                            f"after the first was ready to run: nothing orders them"))
        for p in sorted(s.writes):
            for x in writers.get(p, []):
                if of[x.start] != k:
                    out.append(("two-writers", f"{p} is written by the steps for {short(x.target or x.cmd)} and {short(s.target or s.cmd)}"))
            writers.setdefault(p, []).append(s)
    return out


def describe(spec):
    st = spec["start"]
    n = sum(len(d.get("targets", [])) for d in st["gyp"].values())
    return f"{spec['fmt']} {spec['style']}: {len(st['gyp'])} gyp files, {n} targets, {len(st['files'])} files, edits {[e['what'] for e in spec['edits']]}"


# -- smaller scenarios
def drop_target(state, fixed=()):
    """states with one target less that nobody names"""
    names = {}
    for p, d in state["gyp"].items():
        for i, t in enumerate(d.get("targets", [])):
            names[t["target_name"]] = (p, i)
    text = repr(state["gyp"])
    for n, (p, i) in sorted(names.items()):
        if text.count(f"'{n}'") + text.count(f":{n}'") + text.count(f"{n}#host'") > 1:
            continue
        c = copy.deepcopy(state)
        del c["gyp"][p]["targets"][i]
        if not c["gyp"][p]["targets"]:
            continue
        yield n, c


def shrink(spec):
    # fewer edits (from the end)
    for i in range(len(spec["edits"]) - 1, -1, -1):
        if i == len(spec["edits"]) - 1:
            c = copy.deepcopy(spec)
            del c["edits"][i]
            yield c
    # start from a later state
    if spec["edits"]:
        c = copy.deepcopy(spec)
        e = c["edits"].pop(0)
        for k in ("gyp", "files"):
            for p, v in e["change"][k].items():
                if v is None:
                    c["start"][k].pop(p, None)
                else:
                    c["start"][k][p] = v
        c["start"]["tops"] = e["tops"]
        yield c
    if spec.get("nolink"):
        yield dict(copy.deepcopy(spec), nolink=False)
    # fewer targets
    changed = {p for e in spec["edits"] for p in e["change"]["gyp"]}
    for n, st in drop_target(spec["start"]):
        c = copy.deepcopy(spec)
        c["start"] = st
        ok = True
        for e in c["edits"]:
            for p, v in list(e["change"]["gyp"].items()):
                if v is None or p not in st["gyp"]:
                    continue
                ts = [t for t in v.get("targets", []) if t["target_name"] != n]
                if not ts and v.get("targets"):
                    ok = False
                elif v.get("targets"):
                    v["targets"] = ts
                if any(f"'{n}'" in repr(t) or f":{n}'" in repr(t) for t in ts):
                    ok = False
        if ok:
            yield c
    # fewer keys of targets
    if not changed:
        for p, d in spec["start"]["gyp"].items():
            for i, t in enumerate(d.get("targets", [])):
                for k in list(t):
                    if k in ("target_name", "type"):
                        continue
                    c = copy.deepcopy(spec)
                    del c["start"]["gyp"][p]["targets"][i][k]
                    yield c
                    if isinstance(t[k], list) and len(t[k]) > 1:
                        for j in range(len(t[k])):
                            c = copy.deepcopy(spec)
                            del c["start"]["gyp"][p]["targets"][i][k][j]
                            yield c

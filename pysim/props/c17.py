"""C17: a step that fails fails the build, keeps what depends on it from running, and is done again by the next build."""
import copy
import errno
import random
import re

import bcommon
import bgen

COUNTS = {"quick": 600, "thorough": 9000}
RULE = ("the project, the step that failed, how and in which order, of a run in which the fault was reached and the build and its repetition were judged")
REAL, STUB = bcommon.REAL, bcommon.STUB
TOOLS = True
HOW = ["before", "after", "after", "kill-step", "kill-step", "errno", "errno", "tool", "tool"]


def scenario(seed):
    r = random.Random(seed)
    fmt = r.choice(["make", "make", "ninja"])
    spec = bgen.scenario(seed + ":p", fmt, edits=r.choice([0, 0, 1]), size=r.choice([None, 2, 3]))
    for e in spec["edits"]:
        # (a known finding of C16)
        if fmt == "make" and any("renamed to" in x for x in e["what"]):
            spec["edits"] = []
            break
    spec["tries"] = [{"how": r.choice(HOW), "at": [r.random() for _ in range(r.choice([1, 1, 1, 2]))], "status": r.choice([1, 1, 2, 127]),
                      "errno": r.choice([errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EACCES]),
                      "policy": r.choice(["random", "fifo", "lifo", "favour"]), "seed": r.randrange(10 ** 6), "k": r.choice([False, True]), "jobs": r.choice([10000, 10000, 1, 3]),
                      "regyp": r.random() < 0.3} for _ in range(r.choice([1, 2, 2, 3]))]
    return spec


def describe(spec):
    return bcommon.describe(spec) + " " + "; ".join(t["how"] + (" -k" if t["k"] else "") for t in spec["tries"])


def run(spec, ctx):
    w = bcommon.World(spec, ctx)
    try:
        return _run(spec, ctx, w)
    except bcommon.Problem as e:
        return [{"kind": e.kind, "text": e.text}]
    finally:
        w.cleanup()


def _run(spec, ctx, w):
    state = spec["start"]
    w.lay(state)
    w.gyp(state["tops"])
    if spec["edits"]:
        r = w.build(jobs=1, policy="fifo", seed=0)
        if r.exit != 0:
            return [{"kind": "clean-build-fails", "text": f"{w.fmt}: a clean build fails: {bcommon.simlib.last_lines(r.out)}"}]
        for e in spec["edits"]:
            state = w.apply(e, state)
            w.gyp(state["tops"])
    ref = w.clean(state)
    w.save("a")
    calm = w.build(jobs=1, policy="fifo", seed=0)
    if calm.exit != 0:
        return [{"kind": "clean-build-fails", "text": f"{w.fmt}: a build without faults fails: {bcommon.simlib.last_lines(calm.out)}"}]
    makes = {}  # what each group of steps writes
    quiet = {}  # steps that write nothing: a look-up may fail
    for s in calm.steps:
        k = s.target or s.cmd
        makes.setdefault(k, set()).update(s.writes)
        quiet[k, s.cmd] = not s.writes
    for t in spec["tries"]:
        w.restore("a")
        v = attempt(w, spec, state, ref, calm, makes, quiet, t)
        if v:
            return v
    return []


def attempt(w, spec, state, ref, calm, makes, quiet, t):
    kw = {"policy": t["policy"], "seed": t["seed"], "jobs": t["jobs"], "keep_going": t["k"]}
    n = len(calm.steps)
    if not n:
        return []
    if t["how"] in ("before", "after"):
        kw["fail"] = {int(a * n): (t["how"], t["status"]) for a in t["at"]}
    elif t["how"] == "tool":
        # a program of the tool chain fails within a step; half the time one that puts files together
        put = [s for s in calm.steps if re.search(r"\b(ar|ld|g\+\+|cc|c\+\+)\b", s.cmd) and " -c " not in s.cmd]
        of = put if put and t["seed"] % 2 else calm.steps
        kw["tools"] = of[int(t["at"][0] * len(of))].cmd
    elif t["how"] == "kill-step":
        kw["op"] = (1 + int(t["at"][0] * calm.ops), "kill-step", 0)
    else:
        kw["op"] = (1 + int(t["at"][0] * calm.ops), "errno", t["errno"])
    r = w.build(**kw)
    if not r.fired:
        return []
    w.ctx.cover.fault(t["how"] + ("" if t["how"] != "errno" else ":" + errno.errorcode[t["errno"]]))
    failed = [s for s in r.steps if s.status and not quiet.get((s.target or s.cmd, s.cmd), not s.writes)]
    what = "; ".join(f"the step for {bcommon.short(s.target or s.cmd)} ({s.cmd.strip()[:80]!r}) ended with status {s.status:#x}" for s in failed[:2]) or f"a fault ({t['how']})"
    if failed and r.exit == 0:
        return [{"kind": "failure-ignored", "text": f"{w.fmt}: {what} and the build reported success"}]
    if r.exit == 0:
        d = bcommon.diff(ref, w.products(), subset=True)
        if d:
            return [{"kind": "false-success", "text": f"{w.fmt}: {what} and the build reported success, but its products differ from a clean build (clean first): {d}"}]
    for f in failed:
        k = f.target or f.cmd
        outs = makes.get(k, set()) | f.writes
        for s in r.steps:
            if s.ready > f.start and (s.target or s.cmd) != k:
                bad = sorted(s.reads & outs)
                if bad:
                    return [{"kind": "went-on", "text": f"{w.fmt}: {what}, and the step for {bcommon.short(s.target or s.cmd)} was started afterwards with its output {bad[0]}"}]
    if t["regyp"]:
        w.gyp(state["tops"])
    r2 = w.build(policy=t["policy"], seed=t["seed"] + 1)
    if r2.exit != 0:
        return [{"kind": "repeat-fails", "text": f"{w.fmt}: {what}; the next build fails: {bcommon.simlib.last_lines(r2.out)}"}]
    d = bcommon.diff(ref, w.products(), subset=True)
    if d:
        return [{"kind": "repeat-differs", "text": f"{w.fmt}: {what}; after the next build the products differ from a clean build (clean first): {d}"}]
    again = {s.target or s.cmd for s in r2.steps}
    for f in failed:
        k = f.target or f.cmd
        # (the last thing make does for a target is to put its depfile in place: then all is done)
        if t["how"] == "after" and f.writes and all("/.deps/" in "/" + p for p in f.writes):
            continue
        if k not in again and k.split("/")[-1] != "Makefile":
            return [{"kind": "not-redone", "text": f"{w.fmt}: {what}; the next build did not run it again"}]
    w.ctx.cover.state(sorted(ref), t["how"], [s.target or s.cmd for s in r.steps], [s.cmd for s in failed])
    return []


def shrink(spec):
    if len(spec["tries"]) > 1:
        for i in range(len(spec["tries"])):
            c = copy.deepcopy(spec)
            c["tries"] = [c["tries"][i]]
            yield c
    for i, t in enumerate(spec["tries"]):
        if len(t["at"]) > 1:
            for a in t["at"]:
                c = copy.deepcopy(spec)
                c["tries"][i]["at"] = [a]
                yield c
        for k, v in (("k", False), ("regyp", False), ("jobs", 1), ("policy", "fifo")):
            if t[k] != v:
                c = copy.deepcopy(spec)
                c["tries"][i][k] = v
                yield c
    yield from bcommon.shrink(spec)

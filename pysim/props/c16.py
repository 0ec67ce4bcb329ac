"""C16: incremental and resumed builds give what a clean build gives; a build without edits does nothing."""
import copy
import os
import random
import re
import signal

import bcommon
import bgen

COUNTS = {"quick": 260, "thorough": 4000}
RULE = ("the project, its edits, the way gyp was run again and where builds were killed, of a run in which an edited or interrupted tree was rebuilt and compared with a clean build")
REAL, STUB = bcommon.REAL, bcommon.STUB
TOOLS = True


def scenario(seed):
    r = random.Random(seed)
    fmt = r.choice(["make", "make", "ninja"])
    spec = bgen.scenario(seed + ":p", fmt, edits=r.choice([1, 2, 2, 3, 4]), size=r.choice([None, None, 2, 3]))
    spec["seed"] = r.randrange(10 ** 6)
    for e in [spec] + spec["edits"]:
        e["order"] = [r.choice(["random", "fifo", "lifo", "favour"]), r.randrange(10 ** 6)]
        e["kills"] = [{"at": r.random(), "how": r.choice(["op", "op", "step"]), "sig": r.choice([int(signal.SIGKILL), int(signal.SIGKILL), int(signal.SIGINT)])}
                      for _ in range(r.choice([0, 0, 1, 1, 2]))]
        e["regyp"] = r.choice([True, False])
        e["rm"] = r.random() if r.random() < 0.2 else None
    return spec


describe = bcommon.describe


def run(spec, ctx):
    w = bcommon.World(spec, ctx)
    try:
        return _run(spec, ctx, w)
    except bcommon.Problem as e:
        return [{"kind": e.kind, "text": e.text}]
    finally:
        w.cleanup()


def _run(spec, ctx, w):
    state = spec["start"]
    w.lay(state)
    w.gyp(state["tops"])
    history = []
    for n, e in enumerate([spec] + spec["edits"]):
        gyp_changed = False
        if e is not spec:
            gyp_changed = bool(e["change"]["gyp"]) or e["tops"] != state["tops"]
            tops_changed = e["tops"] != state["tops"]
            state = w.apply(e, state)
            history.append("; ".join(e["what"]))
            # without make's own regeneration gyp has to be run; a gyp file that is gone needs it too
            if w.fmt != "make" or e["regyp"] or tops_changed or any(v is None for v in e["change"]["gyp"].values()):
                w.gyp(state["tops"])
        ref = w.clean(state)
        removed = False
        if e["rm"] is not None and n:
            have = sorted(set(w.products()) & set(ref))
            if have:
                p = have[int(e["rm"] * len(have))]
                os.unlink(os.path.join(w.root, p))
                removed = True
                history.append("rm " + p)
        policy, seed = e["order"]
        if e["kills"]:
            w.save("b")
        r = w.build(policy=policy, seed=seed)
        v = judge(w, r, ref, history, "an incremental build" if n else "a clean build")
        if v:
            return v
        ctx.cover.state("edit", sorted(ref), history, e["order"])
        v = idle(w, history)
        if v:
            return v
        steps, ops = len(r.steps), r.ops
        if not e["kills"]:
            continue
        w.restore("b")
        w.drop("b")
        h2 = list(history)
        for k in e["kills"]:
            if removed and w.fmt == "ninja" and k["sig"] == signal.SIGKILL:
                # ninja itself takes a product half-written after the user removed it for the one in its log: no edit, and not gyp's to decide
                continue
            kw = {}
            if k["how"] == "op" and ops:
                kw["op"] = (1 + int(k["at"] * ops), "stop", k["sig"])
            elif steps:
                kw["stop_before"] = (int(k["at"] * steps), k["sig"])
            else:
                continue
            r = w.build(policy=policy, seed=seed, **kw)
            if not r.fired:
                continue
            last = r.steps[-1] if r.steps else None
            ctx.cover.fault(f"{signal.Signals(k['sig']).name} {k['how']}")
            h2.append(f"{signal.Signals(k['sig']).name} in the step {len(r.steps)} for {bcommon.short(last.target or last.cmd) if last else None}: {last.cmd.strip()[:60] if last else ''!r}")
            if e["regyp"]:
                w.gyp(state["tops"])
        r = w.build(policy=policy, seed=seed + 1)
        v = judge(w, r, ref, h2, "a resumed build")
        if v:
            return v
        v = idle(w, h2)
        if v:
            return v
        ctx.cover.state("kill", sorted(ref), h2)
    return []


def judge(w, r, ref, history, what):
    if r.exit != 0:
        return [{"kind": what.split()[1] + "-build-fails", "text": f"{w.fmt}: {what} fails where a clean one succeeds; history {history}: {errors(r.out, history)}"}]
    d = bcommon.diff(ref, w.products(), subset=True)
    if d:
        return [{"kind": what.split()[1] + "-build-differs", "text": f"{w.fmt}: {what} differs from a clean build of the same sources (clean first): {d}; history {history}"}]
    return []


def errors(out, history):
    """what went wrong, and whether all of it is about sources that were renamed to another extension"""
    es = [x for x in out.splitlines() if " error: " in x]
    if not es:
        return bcommon.simlib.last_lines(out)
    renamed = {os.path.splitext(os.path.basename(x))[0] for h in history for x in re.findall(r"renamed to ([^\s;]+)", h)}
    gone = [re.search(r": (?:fatal )?error: (\S+): No such file", x) for x in es]
    tag = ""
    if all(g and os.path.splitext(os.path.basename(g.group(1)))[0] in renamed for g in gone):
        tag = " (the object still depends on the source of the old extension)"
    return " | ".join(es[:3]) + tag


def idle(w, history):
    r = w.build(policy="fifo", seed=0, jobs=1)
    if r.exit != 0:
        return [{"kind": "idle-build-fails", "text": f"{w.fmt}: a second build without edits fails; history {history}: {bcommon.simlib.last_lines(r.out)}"}]
    # (a step that only looks something up is not work)
    work = [s for s in r.steps if s.writes]
    if work:
        s = work[0]
        return [{"kind": "idle-build-works", "text": f"{w.fmt}: a second build without edits runs {len(work)} steps again, the first for {bcommon.short(s.target or s.cmd)}: {s.cmd.strip()[:100]!r}; history {history}"}]
    return []


def shrink(spec):
    for e in range(-1, len(spec["edits"])):
        x = spec if e < 0 else spec["edits"][e]
        for i in range(len(x["kills"])):
            c = copy.deepcopy(spec)
            y = c if e < 0 else c["edits"][e]
            del y["kills"][i]
            yield c
        if x["rm"] is not None:
            c = copy.deepcopy(spec)
            (c if e < 0 else c["edits"][e])["rm"] = None
            yield c
        if x["order"][0] != "fifo":
            c = copy.deepcopy(spec)
            (c if e < 0 else c["edits"][e])["order"] = ["fifo", 0]
            yield c
    yield from bcommon.shrink(spec)

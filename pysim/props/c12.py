"""C12: loading and generating with the worker pool gives exactly the serial result."""
import copy

import projgen
import simlib
from props import common

COUNTS = {"quick": 3500, "thorough": 25000}
SECONDS = {"quick": 200, "thorough": 800}
RULE = ("each case is one generated project (complete, or with a file that cannot be loaded) generated once serially and several times with the worker pool "
        "under seeded schedules of its workers; distinct = different schedule of pool decisions")
REAL = common.REAL
STUB = common.STUB + ["multiprocessing.Pool: real forked workers running the real functions, but stopped at every file operation; the seeded scheduler decides which task "
                      "starts, which worker moves and when a result is reported; threading.Condition follows the same scheduler"]
FORMATS = [("ninja", 6), ("make", 4), ("cmake", 3), ("msvs", 1), ("xcode", 1), ("gypd", 2), ("dump_dependency_json", 1), ("compile_commands_json", 1), ("ninja-mac", 1), ("android", 0.5), ("analyzer", 0.6)]
BREAKS = [("none", 10), ("syntax", 1), ("missing", 1), ("undefined", 1), ("command", 1.5), ("read", 1.5), ("pymod", 1.5), ("gone", 0.7), ("cycle", 0.7), ("dup", 0.7), ("type", 0.5)]


def scenario(seed):
    r = common.rng(seed)
    fmt = common.choose(r, FORMATS)
    spec = common.project_spec(r, seed, fmt)
    for _ in range(3):
        # mostly projects of several files
        if len([p for p in spec["gyp"] if p.endswith(".gyp")]) > 1:
            break
        seed = seed + "+"
        spec = common.project_spec(r, seed, fmt)
    spec["break"] = common.choose(r, BREAKS)
    spec["pick"] = r.randint(0, 1 << 20)
    spec["kill"] = None
    vs = []
    for _ in range(r.choice([2, 3, 4])):
        vs.append({"cpus": r.choice([1, 2, 2, 3, 4, 8]), "seed": r.randint(0, 1 << 30), "start": r.choice(["fork", "fork", "spawn"])})
    if r.random() < 0.05:
        vs[-1]["kill"] = r.randint(0, 60)
    spec["variants"] = vs
    return spec


def broken(spec):
    """(gyp description, files, plan keys) of the project with its defect"""
    r = common.rng(spec["pick"])
    g = copy.deepcopy(spec["gyp"])
    files = None
    plan = {}
    gyps = sorted(p for p in g if p.endswith(".gyp"))
    p = r.choice(gyps)
    d = g[p]
    ts = d.get("targets") or [{}]
    t = r.choice(ts)
    b = spec["break"]
    if b == "undefined":
        where = r.choice(["early", "late", "file"])
        if where == "file":
            d.setdefault("variables", {})["undef_use"] = "<(no_such_variable)"
        else:
            t["defines"] = t.get("defines", []) + ["<(no_such_variable)" if where == "early" else ">(no_such_variable)"]
    elif b == "missing":
        t["dependencies"] = t.get("dependencies", []) + ["no_such_dir/no_such.gyp:x"]
    elif b == "cycle":
        if len(gyps) > 1:
            q = r.choice([x for x in gyps if x != p])
            import os
            t["dependencies"] = t.get("dependencies", []) + [os.path.relpath(q, os.path.dirname(p) or ".") + ":" + g[q]["targets"][0].get("target_name", "x")]
        else:
            t["dependencies"] = t.get("dependencies", []) + [ts[0].get("target_name", "x")]
    elif b == "dup":
        d["targets"] = ts + [copy.deepcopy(t)]
    elif b == "type":
        t["type"] = "no_such_type"
    out = dict(spec, gyp=g)
    files = common.files_of(out)
    if b == "syntax":
        q = r.choice(sorted(x for x in files if x.endswith((".gyp", ".gypi"))))
        text = files[q]
        cut = r.choice([text[: len(text) // 2], text.replace("{", "{ 1 2", 1), text + "]", "", "[1, 2]", text.replace("'targets'", "'targets': [], 'targets'", 1)])
        files[q] = cut
    elif b == "gone":
        q = r.choice(sorted(x for x in files if x.endswith((".gyp", ".gypi"))))
        del files[q]
    elif b == "read":
        q = r.choice(sorted(x for x in files if x.endswith((".gyp", ".gypi"))))
        plan["pathfaults"] = [{"path": q, "op": r.choice(["open-r", "read"]), "kind": "error", "errno": r.choice(["EIO", "EACCES", "ENOENT", "EMFILE"])}]
    elif b == "command":
        plan["cmdfaults"] = [r.choice([{"text": "simcmd", "kind": "exit", "code": r.choice([1, 2, 127])}, {"text": "simcmd", "kind": "signal", "signal": r.choice([9, 11])},
                                       {"text": "simcmd", "kind": "spawn"}])]
    elif b == "pymod":
        pms = sorted(x for x in files if x.endswith(".py"))
        if pms:
            q = r.choice(pms)
            body = r.choice(["raise SystemExit(3)", "raise SystemExit(0)", "raise ValueError('bad')", "return 1/0", "import os\n    raise OSError(5, 'x')"])
            files[q] = "def DoMain(args):\n    " + body + "\n"
    return files, plan


def loads(r):
    out = {}
    for kind, name, _ in r.get("ops") or []:
        if kind == "open-r" and name.endswith((".gyp",)):
            out[name] = out.get(name, 0) + 1
    return out


def run(spec, ctx):
    out = []
    files, plan = broken(spec)
    inputs = set(files)
    ctx.scratch.fresh(files, spec["exe"])
    r0 = ctx.gyp(spec, dict(plan, pid=77), 0, common.argv(spec, "--no-parallel"), limit=30)
    if r0.get("timeout"):
        return [{"kind": "serial", "text": "the serial run did not end"}]
    c0 = simlib.content(simlib.snapshot(ctx.scratch.root), inputs)
    ctx.cover.note("break " + spec["break"] + (" fails" if r0.get("exit") else " succeeds"))
    ctx.cover.note("format " + spec["fmt"])
    l0 = loads(r0)
    for v in spec["variants"]:
        ctx.scratch.fresh(files, spec["exe"])
        pl = dict(plan, pid=77, cpus=v["cpus"], seed=v["seed"], start=v.get("start", "fork"))
        if v.get("kill") is not None:
            pl["faults"] = [{"k": v["kill"], "kind": "kill-worker"}]
        r = ctx.gyp(spec, pl, 0, common.argv(spec), limit=30)
        ctx.cover.note("workers started by " + v.get("start", "fork"))
        what = f"{spec['fmt']}, {v['cpus']} {'spawned ' if v.get('start') == 'spawn' else ''}workers, schedule {v['seed']}"
        ctx.cover.state(r.get("sched"), spec["fmt"], len(files))
        ctx.cover.note("pools", r.get("pools") or 0)
        ctx.cover.note("pool decisions", len(r.get("sched") or ""))
        killed = any(f[1] == "kill-worker" for f in r.get("fired") or [])
        if r.get("timeout") or r.get("hang"):
            why = r.get("hang") or "no progress within 30 s"
            if killed:
                out.append({"kind": "hang-killed", "text": f"a worker process was killed and gyp never ends: {why}"})
                continue
            out.append({"kind": "hang", "text": f"{what}: the parallel run never ends ({why}); the serial one exits with {r0.get('exit')}: {simlib.last_lines(r.get('err') or '')}"})
            break
        if killed:
            # a worker that dies need not be survived, but no success without the complete output
            if r.get("exit") == 0 and r0.get("exit") == 0:
                d = simlib.diff(c0, simlib.content(simlib.snapshot(ctx.scratch.root), inputs))
                if d:
                    out.append({"kind": "differs", "text": f"{what}, a worker killed: {d}"})
            continue
        if (r.get("exit") == 0) != (r0.get("exit") == 0):
            out.append({"kind": "exit", "text": f"{what}: the serial run exits with {r0.get('exit')}, the parallel one with {r.get('exit')}: {simlib.last_lines(r.get('err') if r.get('exit') else r0.get('err'))}"})
            break
        if r.get("exit") != 0:
            if not (r.get("err") or "").strip() and not (r.get("out") or "").strip():
                out.append({"kind": "silent", "text": f"{what}: the parallel run fails with no message"})
            continue
        l1 = loads(r)
        if set(l0) != set(l1):
            out.append({"kind": "loads", "text": f"{what}: files read serially {sorted(l0)}, with the pool {sorted(l1)}"})
            break
        more = [p for p in l1 if l1[p] > l0[p]]
        if more:
            out.append({"kind": "twice", "text": f"{what}: {more[0]} is loaded {l1[more[0]]} times, serially {l0[more[0]]}"})
            break
        d = simlib.diff(c0, simlib.content(simlib.snapshot(ctx.scratch.root), inputs))
        if d:
            out.append({"kind": "differs", "text": f"{what}: {d} (serial vs parallel)"})
            break
    return out


def shrink(spec):
    for i in range(len(spec["variants"])):
        if len(spec["variants"]) > 1:
            c = copy.deepcopy(spec)
            c["variants"] = [c["variants"][i]]
            yield c
    for i, v in enumerate(spec["variants"]):
        for n in (1, 2, 3):
            if n < v["cpus"]:
                c = copy.deepcopy(spec)
                c["variants"][i]["cpus"] = n
                yield c
        if v.get("start") == "spawn":
            c = copy.deepcopy(spec)
            c["variants"][i]["start"] = "fork"
            yield c
        for s in (0, 1, 2):
            if v["seed"] > 2:
                c = copy.deepcopy(spec)
                c["variants"][i]["seed"] = s
                yield c
    if spec["break"] != "none":
        c = copy.deepcopy(spec)
        c["break"] = "none"
        yield c
    yield from common.shrink_project(spec)


def describe(spec):
    return common.describe_project(spec) + f", project {spec['break']}, pools {[v['cpus'] for v in spec['variants']]}"

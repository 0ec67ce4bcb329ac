"""C11: gyp output is a function of its input only."""
import copy

import simlib
from props import common

COUNTS = {"quick": 1200, "thorough": 12000}
SECONDS = {"quick": 200, "thorough": 800}
RULE = ("each case is one generated project with one generator, run several times under different hash seeds, directory orders, process ids, "
        "temporary names and leftovers; distinct = different produced tree")
REAL, STUB = common.REAL, common.STUB


def scenario(seed):
    r = common.rng(seed)
    fmt = common.choose(r, common.FORMATS)
    if r.random() < 0.12:
        fmt = ",".join(dict.fromkeys([fmt.split("-")[0], common.choose(r, common.FORMATS[:9])]))
    spec = common.project_spec(r, seed, fmt.split(",")[-1])
    spec["fmt"] = fmt
    if "android" in fmt:
        spec["env"]["ANDROID_BUILD_TOP"] = "@ROOT@"
    if "gypd" in fmt and "OS=linux" not in spec["args"]:
        spec["args"] += ["-D", "OS=linux"]
    root = [p for p in spec["gyp"] if p.endswith(".gyp") and "/" not in p]
    if r.random() < (0.6 if len(root) > 1 else 0.1) and all(t in root for t in spec["tops"]):
        # gyp looks for the build files itself
        spec["find"] = True
    if r.random() < 0.15:
        spec["env"].update({"CC": "/opt/cc -m64", "CXX": "/opt/c++", "CC_host": "hostcc", "CFLAGS": "-Dfoo", "LDFLAGS": "-s"})
    spec["zenv"] = {"GYP_CROSSCOMPILE": "1"} if r.random() < 0.2 else {}
    vs = []
    for _ in range(r.choice([2, 2, 3])):
        vs.append({"hash": r.randint(0, 23), "perm": r.randint(0, 9), "pid": r.randint(2, 99999), "tmp": r.randint(0, 99),
                   "again": r.random() < 0.25, "older": r.randint(0, 1 << 30) if r.random() < 0.35 else None})
    spec["variants"] = vs
    return spec


def older(spec, seed):
    """the project as it may have been before: something edited in it"""
    r = common.rng(seed)
    c = copy.deepcopy(spec)
    for _ in range(r.randint(1, 3)):
        p = r.choice([p for p in c["gyp"]])
        d = c["gyp"][p]
        ts = d.get("targets", [])
        k = r.randint(0, 3)
        if k == 0 and ts:
            t = r.choice(ts)
            t["defines"] = t.get("defines", []) + ["OLD"]
        elif k == 1 and ts:
            t = r.choice(ts)
            for key in ("actions", "copies", "rules", "cflags"):
                if key in t:
                    del t[key]
                    break
        elif k == 2 and ts:
            t = r.choice(ts)
            if t.get("sources"):
                t["sources"] = t["sources"][1:] or t["sources"]
        else:
            d.setdefault("variables", {})["older_only"] = "x"
    return c


def run(spec, ctx):
    out = []
    files = common.files_of(spec)
    args = common.argv(spec, "--no-parallel")
    if spec.get("find"):
        args = args[len(spec["tops"]):]

    def once(v):
        ctx.scratch.fresh(files, spec["exe"])
        plan = {"perm": v["perm"], "pid": v["pid"], "tmp": v["tmp"], "noops": True}
        if v.get("older") is not None:
            o = older(spec, v["older"])
            ctx.scratch.fresh(common.files_of(o), spec["exe"])
            ctx.gyp(spec, plan, v["hash"], args, zenv=spec.get("zenv"))
            import os
            for p, text in files.items():
                full = os.path.join(ctx.scratch.root, p)
                with open(full, "w") as f:
                    f.write(text)
        r = ctx.gyp(spec, plan, v["hash"], args, zenv=spec.get("zenv"))
        if v.get("again"):
            r2 = ctx.gyp(spec, plan, v["hash"], args, zenv=spec.get("zenv"))
            if r2.get("exit") != r.get("exit"):
                out.append({"kind": "again", "text": f"the second run of the same command exits with {r2.get('exit')}, the first with {r.get('exit')}: {simlib.last_lines(r2.get('err'))}"})
        return r, simlib.content(simlib.snapshot(ctx.scratch.root), files)

    base = {"hash": 0, "perm": None, "pid": 4711, "tmp": 0}
    r0, c0 = once(base)
    ctx.cover.note("exit %s" % (r0.get("exit") if r0.get("exit") is not None else "none"))
    ctx.cover.note("format " + spec["fmt"])
    if r0.get("timeout"):
        return [{"kind": "timeout", "text": "a gyp run did not end"}]
    ctx.cover.state(simlib.digest(c0))
    for v in spec["variants"]:
        r, c = once(v)
        if r.get("timeout"):
            return [{"kind": "timeout", "text": "a gyp run did not end"}]
        what = ", ".join(f"{k}={v[k]}" for k in ("hash", "perm", "pid", "tmp")) + (", output of an older version of the project present" if v.get("older") is not None else "")
        if (r.get("exit") == 0) != (r0.get("exit") == 0):
            out.append({"kind": "exit", "text": f"{spec['fmt']}: exit {r0.get('exit')} with the base run, {r.get('exit')} with {what}: {simlib.last_lines(r.get('err') if r.get('exit') else r0.get('err'))}"})
            continue
        if r.get("exit") != 0:
            continue
        if v.get("older") is not None:
            # files that only the older version generates stay, but must not change the current ones
            c = {p: x for p, x in c.items() if p in c0}
        d = simlib.diff(c0, c)
        if d:
            out.append({"kind": "differs", "text": f"{spec['fmt']}: {d} (base run vs {what})"})
            break
    return out


def shrink(spec):
    for i in range(len(spec["variants"])):
        if len(spec["variants"]) > 1:
            c = copy.deepcopy(spec)
            c["variants"] = [c["variants"][i]]
            yield c
    for i, v in enumerate(spec["variants"]):
        for k, base in (("older", None), ("again", False), ("perm", None), ("pid", 4711), ("tmp", 0)):
            if v[k] != base:
                c = copy.deepcopy(spec)
                c["variants"][i][k] = base
                yield c
    if "," in spec["fmt"]:
        for f in spec["fmt"].split(","):
            c = copy.deepcopy(spec)
            c["fmt"] = f
            yield c
    yield from common.shrink_project(spec)


def describe(spec):
    return common.describe_project(spec) + f", {len(spec['variants'])} variants"

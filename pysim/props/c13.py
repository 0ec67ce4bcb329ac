"""C13: an interrupted generation is repaired by running gyp again."""
import copy
import fnmatch
import os

import simlib
from props import common, faults
from props.c11 import older

COUNTS = {"quick": 2200, "thorough": 14000}
SECONDS = {"quick": 200, "thorough": 800}
RULE = ("each case is one generated project with a former state of its output (none, of the same project, of an older version of it), gyp killed or given an error at "
        "several operations, and run again; distinct = different operation (kind, fault, number within the run, generator) at which a run was disturbed")
REAL, STUB = common.REAL, common.STUB
FORMATS = [("make", 4), ("ninja", 4), ("cmake", 2), ("msvs", 5), ("xcode", 4), ("gypd", 1), ("compile_commands_json", 1), ("dump_dependency_json", 1),
           ("ninja-mac", 1), ("ninja-win", 2), ("xcode-ninja", 1), ("eclipse", 0.5), ("android", 0.5), ("analyzer", 0.4)]
# replaced in one step through a temporary file
ATOMIC = ["*.sln", "*/project.pbxproj", "*.list", "*_rules.mk", "*.generated.manifest"]
# left alone when the content is what it should be
KEPT = ATOMIC + ["*.vcproj", "*.vcxproj", "*.filters", "*.user", "*.props", "*.targets", "*.rules", "*.xcworkspacedata"]


def isin(path, patterns):
    return any(fnmatch.fnmatch("/" + path, "*/" + p if not p.startswith("*") else p) for p in patterns)


def scenario(seed):
    r = common.rng(seed)
    fmt = common.choose(r, FORMATS)
    spec = common.project_spec(r, seed, fmt)
    spec["before"] = r.choice(["none", "none", "same", "older", "older"])
    spec["older"] = r.randint(0, 1 << 30)
    spec["points"] = [r.randint(0, 1 << 30) for _ in range(r.choice([3, 5, 8]))]
    spec["twice"] = r.random() < 0.2
    return spec


def run(spec, ctx):
    out = []
    sc = ctx.scratch
    files = common.files_of(spec)
    args = common.argv(spec, "--no-parallel")
    plan = {"pid": 99, "tmp": 0}

    sc.fresh(files, spec["exe"])
    r0 = ctx.gyp(spec, plan, 0, args)
    if r0.get("timeout") or r0.get("exit") != 0:
        ctx.cover.note("project that gyp rejects")
        return []
    c0 = simlib.content(simlib.snapshot(sc.root), files)
    ctx.cover.note("format " + spec["fmt"])
    # the former state
    if spec["before"] == "none":
        sc.fresh(files, spec["exe"])
    elif spec["before"] == "same":
        s1 = simlib.snapshot(sc.root)
        r1 = ctx.gyp(spec, dict(plan, tmp=1), 0, args)
        if r1.get("exit") != 0:
            return [{"kind": "again", "text": f"{spec['fmt']}: the same command fails when run again: {simlib.last_lines(r1.get('err'))}"}]
        s2 = simlib.snapshot(sc.root)
        for p in sorted(s1):
            if p in files or not isin(p, KEPT) or s1[p][0] != "f":
                continue
            ctx.cover.note("write-if-changed files")
            if p in s2 and s1[p][2] == s2[p][2] and s1[p][3:5] != s2[p][3:5]:
                out.append({"kind": "touched", "text": f"{spec['fmt']}: {p} has the same content after gyp ran again, but was {'replaced' if s1[p][4] != s2[p][4] else 'rewritten'}"})
                return out
    else:
        o = older(spec, spec["older"])
        sc.fresh(common.files_of(o), spec["exe"])
        ctx.gyp(o, plan, 0, args)
        for p in common.files_of(o):
            if p not in files:
                os.unlink(os.path.join(sc.root, p))
        for p, text in files.items():
            with open(os.path.join(sc.root, p), "w") as f:
                f.write(text)
    pre = simlib.content(simlib.snapshot(sc.root), files)
    sc.save()
    # the operations of an undisturbed run from there
    rb = ctx.gyp(spec, dict(plan, tmp=2), 0, args)
    if rb.get("exit") != 0:
        return [{"kind": "again", "text": f"{spec['fmt']}: gyp fails over the output of an older version: {simlib.last_lines(rb.get('err'))}"}]
    ops = rb["ops"]
    cb = simlib.content(simlib.snapshot(sc.root), files)
    d = simlib.diff(c0, {p: x for p, x in cb.items() if p in c0})
    if d:
        return [{"kind": "stale", "text": f"{spec['fmt']}: over the output of an older version: {d} (clean run vs this one)"}]
    for point in spec["points"]:
        r = common.rng(point)
        fs = [faults.choose(r, ops, True)]
        if fs[0] is None:
            break
        sc.restore()
        pl = dict(plan, tmp=2, faults=fs)
        rf = ctx.gyp(spec, pl, 0, args)
        if rf.get("timeout"):
            return [{"kind": "timeout", "text": f"{spec['fmt']}: gyp does not end after {fs[0]} at {ops[fs[0]['k']][:2]}"}]
        what = f"{spec['fmt']}, {spec['before']} output before, {fs[0]['kind']}{' ' + fs[0]['errno'] if 'errno' in fs[0] else ''} at {ops[fs[0]['k']][0]} of {ops[fs[0]['k']][1]}"
        ctx.cover.state(spec["fmt"], fs[0]["kind"], ops[fs[0]["k"]][0], fs[0]["k"])
        snap = simlib.snapshot(sc.root)
        c1 = simlib.content(snap, files)
        crashed = bool(rf.get("crashed"))
        for p in sorted(set(pre) | set(c0)):
            if not isin(p, ATOMIC):
                continue
            have = c1.get(p)
            allowed = [pre.get(p), cb.get(p)]
            if have is None and None in allowed:
                continue
            if have is None or not any(a is not None and a[2] == have[2] for a in allowed):
                n = len(have[2]) if have else 0
                out.append({"kind": "torn", "text": f"{what}: {p} is left {'missing' if have is None else 'with %d bytes that are neither its old nor its new content' % n}"})
                return out
        if not crashed:
            left = sorted(p for p in c1 if "simt" in p and p not in pre)
            if left:
                out.append({"kind": "leftover", "text": f"{what}: gyp exits with {rf.get('exit')} and leaves the temporary file {left[0].replace(left[0], os.path.dirname(left[0]) + '/...')} behind"})
                return out
        if spec["twice"] and crashed:
            # killed once more while it repairs
            fs2 = faults.choose(r, ops, True)
            ctx.gyp(spec, dict(plan, tmp=3, faults=[fs2]), 0, args)
            what += " and a second one"
        ra = ctx.gyp(spec, dict(plan, tmp=4), 0, args)
        if ra.get("exit") != 0:
            out.append({"kind": "stuck", "text": f"{what}: running gyp again fails with {ra.get('exit')}: {simlib.last_lines(ra.get('err'))}"})
            return out
        ca = simlib.content(simlib.snapshot(sc.root), files)
        d = simlib.diff(c0, {p: x for p, x in ca.items() if p in c0})
        if d:
            out.append({"kind": "unrepaired", "text": f"{what}, then gyp again: {d} (undisturbed vs this)"})
            return out
        extra = sorted(p for p in ca if p not in c0 and p not in pre and not (crashed and "simt" in p) and not (spec["twice"] and "simt" in p))
        if extra:
            out.append({"kind": "stray", "text": f"{what}, then gyp again: {extra[0]} is not a file of an undisturbed run"})
            return out
    return out


def shrink(spec):
    for i in range(len(spec["points"])):
        if len(spec["points"]) > 1:
            c = copy.deepcopy(spec)
            c["points"] = [c["points"][i]]
            yield c
    if spec["twice"]:
        yield dict(copy.deepcopy(spec), twice=False)
    for b in ("none", "same"):
        if spec["before"] not in ("none", b):
            yield dict(copy.deepcopy(spec), before=b)
    yield from common.shrink_project(spec)


def describe(spec):
    return common.describe_project(spec) + f", output before: {spec['before']}, {len(spec['points'])} fault points"

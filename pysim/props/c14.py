"""C14: gyp never reports success after losing something."""
import copy
import os

import simlib
from props import common, faults

COUNTS = {"quick": 4500, "thorough": 35000}
SECONDS = {"quick": 200, "thorough": 800}
RULE = ("each case is one generated project given failing operations, failing commands or failing modules at several points, with or without the worker pool; "
        "distinct = different operation (kind, fault, number within the run, generator) or command that failed")
REAL, STUB = common.REAL, common.STUB + ["the worker pool (see C12) in the parallel cases"]
FORMATS = [("make", 4), ("ninja", 4), ("cmake", 2), ("msvs", 3), ("xcode", 3), ("gypd", 1.5), ("compile_commands_json", 1.5), ("dump_dependency_json", 1.5),
           ("ninja-mac", 1), ("ninja-win", 1.5), ("xcode-ninja", 1), ("eclipse", 1), ("android", 0.5), ("make-mac", 1), ("analyzer", 1)]
PYMOD = ["raise SystemExit(0)", "raise SystemExit(3)", "raise SystemExit('no')", "raise ValueError('x')", "raise KeyError('x')", "raise OSError(5, 'x')", "import no_such_module_here"]


def scenario(seed):
    r = common.rng(seed)
    fmt = common.choose(r, FORMATS)
    spec = common.project_spec(r, seed, fmt)
    spec["parallel"] = r.random() < 0.35
    spec["cpus"] = r.choice([1, 2, 4])
    spec["before"] = r.choice(["none", "none", "none", "same"])
    cases = []
    for _ in range(r.choice([3, 5, 8])):
        what = common.choose(r, [("op", 6), ("ops", 1.5), ("cmd", 2), ("pymod", 1)])
        cases.append({"what": what, "pick": r.randint(0, 1 << 30)})
    spec["cases"] = cases
    for d in spec["gyp"].values():
        keep_defines(d)
    also_commands(spec, seed)
    ask_where(spec, seed)
    return spec


BUILDERS = ("make ", "ninja ", "cmake ", "xcodebuild -project")


def also_commands(spec, seed):
    """gyp starts the build itself (--build), or asks the compiler for what it predefines"""
    r = common.rng(seed + ":also")
    if spec["fmt"] in ("make", "ninja", "cmake", "xcode") and r.random() < 0.25:
        td = spec["gyp"].get("common.gypi", {}).get("target_defaults", {})
        names = [k for k in td.get("configurations", {}) if k != "Base"] or ["Default"]
        if len({c for d in spec["gyp"].values() for t in d.get("targets", []) for c in t.get("configurations", {})} - set(names)) == 0:
            for c in r.sample(names, r.randint(1, len(names))):
                spec["args"] = spec["args"] + ["--build=" + c]
    if r.random() < 0.15 and "CC" not in spec["env"]:
        spec["env"].update(r.choice([{"CC": "xcc -m64"}, {"CC_target": "xcc", "CFLAGS": "-DX"}, {"CXX": "xc++", "CXXFLAGS": "-O2 -DY"}, {"CXX_target": "xc++ -q"}]))


def keep_defines(x):
    """nothing may take out the defines that tell where a command ran"""
    if isinstance(x, dict):
        x.pop("defines=", None)
        x.pop("defines/", None)
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            keep_defines(y)


# the same question, asked in many ways; the answer is the directory of the gyp file
ASK = ["simcmd cwd", "simcmd cwd ./x", "simcmd cwd x/y.txt", "simcmd cwd ../z", "simcmd cwd --opt=1", "simcmd cwd /abs/path", "simcmd cwd \"a b\"", "simcmd cwd <(asked)",
       '["simcmd", "cwd"]', '["simcmd", "cwd", "./x"]', "simcmd cwd C:/x", "simcmd cwd $HOME", "simcmd cwd | simcmd", "PYMOD"]


def ask_where(spec, seed):
    """commands that ask for their directory, the same ones in several gyp files"""
    r = common.rng(seed + ":where")
    spec["asked"] = []
    if r.random() < 0.4:
        return
    gyps = sorted(p for p, d in spec["gyp"].items() if p.endswith(".gyp") and d.get("targets"))
    texts = [r.choice(ASK) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.15:
        # the same words as a command and as a module with its arguments
        texts = r.sample(["simcmd cwd", "PYMOD"], 2)
    for p in r.sample(gyps, min(len(gyps), r.choice([2, 3, 4]))):
        for k, text in enumerate(texts):
            t = r.choice(spec["gyp"][p]["targets"])
            sign = r.choice("<<<>" if "-R" not in spec["args"] else "<")
            word = f"ASKED{k}={sign}!({text})"
            if text == "PYMOD":
                word = f"ASKED{k}={sign}!pymod_do_main(simcmd cwd)"
                spec["files"][os.path.join(os.path.dirname(p), "simcmd.py")] = f"def DoMain(args):\n    return 'mod_{os.path.dirname(p) or '.'}'\n"
            if "<(asked)" in text:
                t.setdefault("variables", {})["asked"] = "a1"
            if r.random() < 0.2:
                t["conditions"] = t.get("conditions", []) + [["1==1", {"defines": [word]}]]
            else:
                t["defines"] = t.get("defines", []) + [word]
            spec["asked"].append([p, k, text])


def asked(spec):
    """[directory, number, command] of those that are (still) asked"""
    for p, k, text in spec.get("asked", []):
        if f"ASKED{k}=" in repr(spec["gyp"].get(p)):
            yield os.path.dirname(p) or ".", k, text


def where(spec):
    """directories in whose gyp files the directory is asked for"""
    out = set()
    for p, d in spec["gyp"].items():
        if p.endswith(".gyp") and any(x == "WHERE=<!(simcmd cwd)" for t in d.get("targets", []) for x in t.get("defines", [])):
            out.add(os.path.dirname(p) or ".")
    return out


def run(spec, ctx):
    out = []
    sc = ctx.scratch
    files = common.files_of(spec)
    args = common.argv(spec, *([] if spec["parallel"] else ["--no-parallel"]))
    plan = {"pid": 99, "tmp": 0, "cpus": spec["cpus"], "seed": 5}

    sc.fresh(files, spec["exe"])
    r0 = ctx.gyp(spec, plan, 0, args)
    if r0.get("timeout") or r0.get("exit") != 0:
        ctx.cover.note("project that gyp rejects")
        if r0.get("exit") and not ((r0.get("err") or "") + (r0.get("out") or "")).strip():
            out.append({"kind": "silent", "text": f"{spec['fmt']}: gyp exits with {r0['exit']} and says nothing"})
        return out
    c0 = simlib.content(simlib.snapshot(sc.root), files)
    ctx.cover.note("format " + spec["fmt"])
    # commands run where they belong
    want = where(spec)
    loaded = {os.path.dirname(name) or "." for kind, name, _ in r0["ops"] if kind == "open-r" and name.endswith(".gyp")}
    ran = {c[1] for c in r0["cmds"] if c[0] == "simcmd cwd"}
    if want & loaded - ran:
        d = sorted(want & loaded - ran)[0]
        return [{"kind": "where", "text": f"{spec['fmt']}: the command of {d} was not run in that directory (it was run in {sorted(ran)})"}]
    if spec["fmt"] == "gypd" and "-R" not in spec["args"]:
        text = b"".join(x[2] for x in c0.values())
        for d in sorted(want & loaded):
            if b"WHERE=" + d.encode() not in text:
                return [{"kind": "where", "text": f"{spec['fmt']}: the output of the command of {d} is not in what was generated"}]
        for d, k, cmd in asked(spec):
            if d in loaded and f"ASKED{k}={'mod_' if cmd == 'PYMOD' else ''}{d}'".encode() not in text:
                return [{"kind": "where", "text": f"{spec['fmt']}: the output of the command {cmd!r} in the gyp file of {d} is not in what was generated"}]
    for d, k, text in asked(spec):
        if text == "PYMOD":
            continue
        words = text.replace("<(asked)", "a1").translate(str.maketrans("", "", '[],"')).split()
        if d in loaded and not any(c[1] == d and c[0].replace('"', "").split() == words for c in r0["cmds"]):
            return [{"kind": "where", "text": f"{spec['fmt']}: the command {text!r} of the gyp file of {d} was not run in that directory"}]
    ops = r0["ops"]
    if spec["before"] == "same":
        sc.save()
        rb = ctx.gyp(spec, plan, 0, args)
        if rb.get("exit") == 0:
            ops = rb["ops"]
    for case in spec["cases"]:
        r = common.rng(case["pick"])
        pl = dict(plan)
        fs = dict(files)
        desc = None
        if case["what"] in ("op", "ops"):
            n = 1 if case["what"] == "op" else r.randint(2, 3)
            fl = {}
            for _ in range(n):
                f = faults.choose(r, ops, False)
                if f:
                    fl[f["k"]] = f
            if not fl:
                continue
            pl["faults"] = list(fl.values())
            desc = " and ".join(f"{f['kind']}{' ' + f['errno'] if 'errno' in f else ''} at {ops[f['k']][0]} of {ops[f['k']][1]}" for f in fl.values())
            for f in fl.values():
                ctx.cover.state(spec["fmt"], f["kind"], ops[f["k"]][0], f["k"])
        elif case["what"] == "cmd":
            mine = [i for i, c in enumerate(r0["cmds"]) if "simcmd" in c[0] or c[0].startswith(BUILDERS) or " -dM -E " in c[0]]
            if not mine:
                continue
            c = r0["cmds"][r.choice(mine)]
            f = r.choice([{"kind": "exit", "code": r.choice([1, 2, 3, 126, 127, 255])}, {"kind": "signal", "signal": r.choice([1, 2, 6, 9, 11, 13, 15])},
                          {"kind": "spawn", "errno": r.choice(["ENOENT", "EACCES", "EAGAIN", "ENOMEM"])}])
            f["text"] = c[0]
            f["out"] = r.choice(["", "partial", "w1\n"])
            pl["cmdfaults"] = [f]
            desc = f"command {c[0]!r} {f['kind']} {f.get('code', f.get('signal', f.get('errno')))}"
            ctx.cover.state(spec["fmt"], desc)
        else:
            pms = sorted(x for x in fs if x.endswith(".py") and "DoMain" in fs[x])
            if not pms:
                continue
            q = r.choice(pms)
            body = r.choice(PYMOD + ["<syntax>", "<gone>"])
            if body == "<syntax>":
                fs[q] = "def DoMain(args:\n"
            elif body == "<gone>":
                if sum(1 for x in pms if os.path.basename(x) == os.path.basename(q)) > 1:
                    continue
                del fs[q]
            else:
                fs[q] = "def DoMain(args):\n    " + body + "\n"
            desc = f"module {q} with {body}"
            ctx.cover.state(spec["fmt"], body)
        if spec["before"] == "same" and fs == files:
            sc.restore()
        else:
            sc.fresh(fs, spec["exe"])
        rf = ctx.gyp(spec, pl, 0, args)
        what = f"{spec['fmt']}{', parallel' if spec['parallel'] else ''}: {desc}"
        if rf.get("timeout") or rf.get("hang"):
            out.append({"kind": "hang", "text": f"{what}: gyp does not end ({rf.get('hang') or 'no progress'})"})
            return out
        if rf.get("exit") == 0:
            if case["what"] == "cmd" and any(f[1].startswith("cmd-") for f in rf["fired"]):
                out.append({"kind": "command", "text": f"{what}, and gyp exits 0"})
                return out
            c = simlib.content(simlib.snapshot(sc.root), fs)
            d = simlib.diff(c0, c)
            if d and spec["fmt"] == "analyzer" and b'{"error": ' in b"".join(x[2] for p, x in c.items() if p.endswith("answer.json")):
                # the analyzer's way to report one
                ctx.cover.note("fault reported in the answer")
                continue
            if d:
                out.append({"kind": "lost", "text": f"{what}, and gyp exits 0 although {d} (without the fault vs with it)"})
                return out
            ctx.cover.note("fault without effect")
        else:
            ctx.cover.note("fault reported")
            if not ((rf.get("err") or "") + (rf.get("out") or "")).strip():
                out.append({"kind": "silent", "text": f"{what}: gyp exits with {rf['exit']} and says nothing"})
                return out
    return out


def shrink(spec):
    for i in range(len(spec["cases"])):
        if len(spec["cases"]) > 1:
            c = copy.deepcopy(spec)
            c["cases"] = [c["cases"][i]]
            yield c
    if spec["parallel"]:
        yield dict(copy.deepcopy(spec), parallel=False)
    if spec["before"] != "none":
        yield dict(copy.deepcopy(spec), before="none")
    yield from common.shrink_project(spec)


def describe(spec):
    return common.describe_project(spec) + f", {'parallel' if spec['parallel'] else 'serial'}, cases {[c['what'] for c in spec['cases']]}"

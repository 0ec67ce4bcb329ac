"""C18: the build-step wrappers serialise, pass on and report the wrapped command."""
import copy
import json
import os
import re
import select
import signal
import sys

import simlib
from props import common

COUNTS = {"quick": 20000, "thorough": 400000}
SECONDS = {"quick": 150, "thorough": 700}
RULE = ("each case is a set of wrapper processes (two to five flock wrappers on one or two lock files, or one output filter) under a seeded schedule with "
        "kills, failing calls and failing commands; distinct = different schedule with its events")
REAL = ["flock_tool.py, mac_tool.py and win_tool.py, run as __main__", "the files of a scratch directory"]
STUB = ["fcntl (POSIX and BSD lock rules)", "subprocess (commands with a life in steps, output and status)", "the scheduler of the processes, time.sleep"]
PYLIB = os.path.join(simlib.REPO, "gyp", "pylib", "gyp")
WORDS = ["a", "b c", "-O", "lib x.a", "x=1", "*", "$HOME", "\"q\"", "it's", "", "--", "ü", "a;b", "&&", "\\", "-", "0"]
NOISE = {
    "link-wrapper": ["   Creating library x.lib and object x.exp", "Generating code", "Finished generating code"],
    "manifest-wrapper": ["mt : general warning : manifest authoring warning 81010002: Unrecognized Element"],
    "asm-wrapper": ["Copyright (C) Microsoft Corporation.  All rights reserved.", "Microsoft (R) Macro Assembler Version 14", " Assembling: foo.asm"],
    "rc-wrapper": ["Microsoft (R) Windows (R) Resource Compiler Version 10", "Copyright (C) Microsoft Corporation.  All rights reserved."],
    "midl-wrapper": ["Processing C:/sdk/include/objidl.idl", "objidl.idl", "64 bit Processing C:/sdk/unknwn.idl", "unknwn.idl"],
    "filter-libtool": ["/usr/bin/libtool: file: foo.o has no symbols", "libtool: for architecture: x86_64 file: foo.o has no symbols",
                       "libtool: warning for library: libx.a the table of contents is empty (no object file members in the library define global symbols)"],
    "action-wrapper": [],
}
LINES = ["error LNK2001: unresolved external symbol", "warning C4100: unreferenced", "foo.c(3): error", "   indented", "note: file: foo.o has no symbols found", "Creating library without indent",
         "ünïcödé line", "tab\there", "x" * 300, "libtool: fatal error", "not Generating code", "Linking...", "100%", "Assembling: bare", "other.idl(4) : error",
         "   ", "\t", "objidl.idl(12) : error MIDL2025", "unknwn.idl2", "Processing", "64 bit processing x.idl", "error 81010002: bad", "mt : warning 81010002 in x", " Assembling x.asm failed", "Microsoft (R) Incremental Linker"]


def near(r, line):
    """almost a line that is filtered"""
    k = r.randrange(4)
    if k == 0:
        return "x " + line
    if k == 1:
        return line[1:]
    if k == 2:
        return line.replace(" ", "  ", 1) if " " in line.strip() else line + "."
    i = r.randrange(len(line))
    return line[:i] + line[i + 1:]



def lines(r, tool):
    n = r.choice([0, 1, 2, 3, 5, 12])
    return [r.choice(NOISE[tool]) if NOISE[tool] and r.random() < 0.35 else near(r, r.choice(NOISE[tool])) if NOISE[tool] and r.random() < 0.25 else r.choice(LINES) + (f" {i}" if r.random() < 0.7 else "") if r.random() < 0.9 else "" for i in range(n)]


def status(r):
    return common.choose(r, [(0, 5), (1, 2), (2, 1), (77, 1), (127, 1), (255, 1), (-9, 1), (-11, 1), (-15, 0.5)])


def scenario(seed):
    r = common.rng(seed)
    if r.random() < 0.55:
        tool, platform = r.choice([("flock_tool.py", "linux"), ("flock_tool.py", "sunos5"), ("flock_tool.py", "aix"), ("flock_tool.py", "os400"), ("mac_tool.py", "darwin"), ("mac_tool.py", "darwin")])
        n = r.choice([2, 2, 3, 3, 4, 5])
        locks = r.choice([["linker.lock"], ["linker.lock"], ["linker.lock", "sub/x.lock"]])
        procs = []
        for i in range(n):
            cmd = ["cmd%d" % i] + [r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 4]))]
            p = {"tool": tool, "platform": platform, "lock": r.choice(locks), "cmd": cmd, "start": r.choice([0, 0, 0, r.randint(0, 40)]),
                 "commands": [{"steps": r.choice([1, 2, 3, 5, 10]), "status": status(r)}], "faults": {}}
            if r.random() < 0.1:
                p["commands"][0]["spawn"] = r.choice(["ENOENT", "EACCES", "ENOMEM"])
            if r.random() < 0.12:
                at, e = r.choice([("open", "EACCES"), ("open", "EMFILE"), ("open", "ENOSPC"), ("lock", "ENOLCK"), ("lock", "EIO"), ("lock", "EDEADLK"), ("spawn", "EAGAIN")])
                # the seams are numbered as the wrapper reaches them; the fault fits where its call is
                p["faults"] = {str(k): {"at": at, "errno": e} for k in range(0, 6)}
            procs.append(p)
        kills = [{"step": r.randint(1, 60), "proc": r.randrange(n)} for _ in range(r.choice([0, 0, 1, 1, 2]))]
        return {"kind": "flock", "procs": procs, "kills": kills, "seed": r.randint(0, 1 << 30), "exists": r.random() < 0.5}
    tool = r.choice(sorted(NOISE) + ["link-with-manifests"])
    s = {"kind": "filter", "tool": tool, "seed": r.randint(0, 1 << 30), "env": {f"V{k}": r.choice(WORDS) for k in range(r.randint(0, 3))},
         "block": {"PATH": "C:\\VS\\bin", "INCLUDE": "C:\\inc;D:\\inc", "EMPTY": "", "EQ": "a=b=c", "TMP": "C:\\tmp"}, "args": [r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 4]))]}
    for k in list(s["block"]):
        if r.random() < 0.3:
            del s["block"][k]
    s["block"]["SYSTEMROOT"] = "C:\\Windows"
    if tool == "link-with-manifests":
        s["manifests"] = r.choice([[], ["a.manifest"], ["a.manifest", "b.manifest"]])
        s["embed"] = r.choice(["True", "False"])
        s["same"] = r.random() < 0.75
        s["fail"] = r.choice([None, None, 0, 1, 2, 3, 4])
        s["status"] = r.choice([1, 3, -9])
        return s
    out = lines(r, tool)
    s["lines"] = out
    s["ending"] = r.choice(["\n", "\n", "\r\n", ""])
    s["other"] = r.choice(["", "plain output\n", "other stream line 1\nline 2\n"])
    s["status"] = status(r)
    s["spawn"] = r.choice(["ENOENT", "EACCES"]) if r.random() < 0.06 else None
    s["dir"] = r.choice([None, "sub"])
    s["mspdb"] = r.choice(["True", "False"])
    s["bytes"] = r.random() < 0.1
    s["noenv"] = r.random() < 0.04
    return s


def child(fn, limit=20):
    """fn() in a forked process; its JSON result, or None when it does not end"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import toolsim
            v = fn(toolsim)
            data = json.dumps(v).encode()
        except BaseException:
            import traceback
            data = json.dumps({"harness": traceback.format_exc()}).encode()
        try:
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    import time
    end = time.time() + limit
    while True:
        ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not ready:
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if not buf:
        return None
    v = json.loads(buf)
    if isinstance(v, dict) and "harness" in v:
        raise simlib.HarnessError(v["harness"])
    return v


def code(status):
    return status & 0xFF


ENV = {"PATH": "/usr/bin:/bin", "HOME": "/nohome", "LANG": "C.UTF-8", "SHELLVAR": "x y"}


def run_flock(spec, ctx):
    root = ctx.scratch.root
    ctx.scratch.fresh({"sub/keep": "", **({"linker.lock": "old", "sub/x.lock": ""} if spec["exists"] else {})})
    procs = [{"path": os.path.join(PYLIB, p["tool"]), "argv": ["flock", p["lock"]] + p["cmd"], "commands": p["commands"], "platform": p["platform"],
              "faults": p["faults"], "start": p["start"], "lock": p["lock"]} for p in spec["procs"]]
    res = child(lambda ts: ts.run_world(root, spec["seed"], procs, ENV, spec["kills"]))
    ctx.cover.execs += len(procs)
    what = f"{spec['procs'][0]['tool']} on {spec['procs'][0]['platform']}, {len(procs)} wrappers"
    if res is None:
        return [{"kind": "hang", "text": f"{what}: the wrappers do not end"}]
    ctx.cover.state(res["trace"])
    ctx.cover.note("flock " + spec["procs"][0]["tool"])
    for f in res["fired"]:
        for x in f:
            ctx.cover.fault(f"{x[0].split(' ')[0]} {x[1]['errno']}")
    ctx.cover.fault("wrapper killed", sum(1 for e in res["exits"] if e == "killed"))
    for e in res["events"]:
        if e[2] in ("waits", "spawn-failed"):
            ctx.cover.note("lock was taken" if e[2] == "waits" else "command not started")
    out = []
    if res["overlaps"]:
        out.append({"kind": "overlap", "text": f"{what}: commands of wrappers {res['overlaps'][0][2]} run at once under {res['overlaps'][0][1]} (step {res['overlaps'][0][0]})"})
    if res["stuck"]:
        out.append({"kind": "stuck", "text": f"{what}: nothing can go on any more: {res['stuck']}"})
        return out
    for i, p in enumerate(spec["procs"]):
        ran = [c for c in res["cmds"][i] if not c.get("failed")]
        exit_ = res["exits"][i]
        fired = res["fired"][i]
        if exit_ == "killed":
            continue
        if fired:
            ctx.cover.note("failing call")
            if any(x[1]["at"] in ("open", "lock") for x in fired) and ran:
                out.append({"kind": "unlocked", "text": f"{what}: wrapper {i} could not take its lock ({fired[0][1]['errno']} at {fired[0][0].split(' ')[0]}) and ran the command all the same"})
            if exit_ == 0:
                out.append({"kind": "exit", "text": f"{what}: wrapper {i} exits 0 although {fired[0][1]['errno']} at {fired[0][0].split(' ')[0]}"})
            continue
        want = p["commands"][0]
        if want.get("spawn"):
            if exit_ == 0:
                out.append({"kind": "exit", "text": f"{what}: the command cannot be started ({want['spawn']}) and the wrapper exits 0"})
            continue
        if len(ran) != 1:
            out.append({"kind": "ran", "text": f"{what}: the command of wrapper {i} was run {len(ran)} times; it exits with {exit_}: {simlib.last_lines(res['err'][i])}"})
            continue
        if ran[0]["argv"] != p["cmd"] or ran[0]["shell"] or ran[0]["cwd"]:
            out.append({"kind": "args", "text": f"{what}: given {p['cmd']}, ran {ran[0]['argv']} shell={ran[0]['shell']} cwd={ran[0]['cwd']}"})
        if ran[0]["env"] != ENV:
            out.append({"kind": "env", "text": f"{what}: the command has another environment: {sorted(set(ran[0]['env'].items()) ^ set(ENV.items()))}"})
        if exit_ != code(want["status"]):
            out.append({"kind": "exit", "text": f"{what}: the command ends with {want['status']}, the wrapper exits with {exit_}"})
    return out


def blocktext(b):
    return "".join(f"{k}={v}\0" for k, v in b.items()) + "\0"


def unfiltered(tool, ls):
    """the lines that must come out"""
    if tool == "midl-wrapper":
        pre = ("Processing ", "64 bit Processing ")
        names = {x.replace("\\", "/").rsplit("/", 1)[-1] for x in ls if x.startswith(pre)}
        return [x for x in ls if not x.startswith(pre) and x not in names]
    res = {"link-wrapper": [r"   Creating library ", r"Generating code", r"Finished generating code"], "manifest-wrapper": [r".*manifest authoring warning 81010002"],
           "asm-wrapper": [r"Copyright \(C\) Microsoft Corporation", r"Microsoft \(R\) Macro Assembler", r" Assembling: "],
           "rc-wrapper": [r"Microsoft \(R\) Windows \(R\) Resource Compiler", r"Copyright \(C\) Microsoft Corporation"],
           "filter-libtool": [r"^.*libtool: (?:for architecture: \S* )?file: .* has no symbols$",
                              r"^.*libtool: warning for library: .* the table of contents is empty \(no object file members in the library define global symbols\)$"],
           "action-wrapper": []}[tool]
    return [x for x in ls if not any(re.match(p, x) for p in res)]


def run_filter(spec, ctx):
    root = ctx.scratch.root
    tool = spec["tool"]
    out = []
    env = dict(ENV, **spec["env"])
    block = blocktext(spec["block"])
    text = spec["ending"].join(spec["lines"]) + (spec["ending"] if spec["lines"] else "") if spec["ending"] else "\n".join(spec["lines"])
    data = text.encode()
    if spec["bytes"]:
        # a compiler that speaks another encoding
        data = b"warning in another encoding: \xfc\xe4\xb0 end\n" + data
    mac = tool == "filter-libtool"
    cmd = {"steps": 2, "status": spec["status"], "spawn": spec["spawn"], "mixed": data, "out": spec["other"].encode() if mac else data, "err": data if mac else b""}
    files = {"sub/keep": "", "libx.a": "archive"}
    if not spec["noenv"]:
        files["environment.x64"] = block
    args = ["tool.exe"] + spec["args"]
    if mac:
        path, argv = "mac_tool.py", [tool, "libtool", "-static"] + spec["args"] + ["-o", "libx.a", "x.o"]
        wantargv = argv[1:]
    else:
        path = "win_tool.py"
        if tool == "link-wrapper":
            args[0] = "link.exe"
            args.append("/OUT:foo.dll")
            argv = [tool, "environment.x64", spec["mspdb"]] + args
            wantargv = args
        elif tool == "midl-wrapper":
            argv = [tool, "environment.x64", "outdir", "t.tlb", "h.h", "d.c", "i.c", "p.c", "x.idl"] + spec["args"]
            wantargv = ["midl", "/nologo"] + spec["args"] + ["/out", "outdir", "/tlb", "t.tlb", "/h", "h.h", "/dlldata", "d.c", "/iid", "i.c", "/proxy", "p.c", "x.idl"]
        elif tool == "action-wrapper":
            files["a.rsp"] = " ".join(args) + " \"quoted arg\""
            argv = [tool, "environment.x64", "a.rsp"] + ([spec["dir"]] if spec["dir"] else [])
            wantargv = files["a.rsp"]
        else:
            argv = [tool, "environment.x64"] + args
            wantargv = args
    ctx.scratch.fresh(files)
    old = 1500000000
    os.utime(os.path.join(root, "libx.a"), (old, old))
    procs = [{"path": os.path.join(PYLIB, path), "argv": argv, "commands": [cmd], "platform": "darwin" if mac else "linux", "faults": {}}]
    res = child(lambda ts: ts.run_world(root, spec["seed"], procs, env))
    ctx.cover.execs += 1
    ctx.cover.note(tool)
    if res is None or res["stuck"]:
        return [{"kind": "hang", "text": f"{tool}: the wrapper does not end"}]
    exit_, err, got = res["exits"][0], res["err"][0], res["out"][0]
    ctx.cover.state(tool, spec["lines"], spec["status"], spec["spawn"], spec["args"])
    ran = [c for c in res["cmds"][0] if not c.get("failed")]
    if spec["noenv"] and not mac:
        ctx.cover.fault("environment file missing")
        if exit_ == 0:
            out.append({"kind": "exit", "text": f"{tool}: exits 0 without its environment file"})
        return out
    shell = bool(ran and ran[0]["shell"])
    if spec["spawn"] and (not shell or spec["spawn"] != "ENOENT"):
        ctx.cover.fault("spawn " + spec["spawn"])
        if exit_ == 0:
            out.append({"kind": "exit", "text": f"{tool}: the command cannot be started ({spec['spawn']}) and the wrapper exits 0"})
        return out
    if len(ran) != 1:
        return [{"kind": "ran", "text": f"{tool}: the command was run {len(ran)} times; exit {exit_}: {simlib.last_lines(err)}"}]
    ctx.cover.fault("command status " + ("0" if spec["status"] == 0 else "signal" if spec["status"] < 0 else "error"))
    if ran[0]["argv"] != wantargv:
        out.append({"kind": "args", "text": f"{tool}: should run {wantargv}, ran {ran[0]['argv']}"})
    wantenv = dict(env, ZERO_AR_DATE="1") if mac else dict(spec["block"])
    if tool == "action-wrapper":
        for k, v in env.items():
            wantenv.setdefault(k, v)
        if (ran[0]["cwd"] or None) != spec["dir"]:
            out.append({"kind": "cwd", "text": f"{tool}: runs in {ran[0]['cwd']}, not in {spec['dir']}"})
    have = dict(ran[0]["env"])
    if tool == "link-wrapper" and spec["mspdb"] == "True":
        if not have.pop("_MSPDBSRV_ENDPOINT_", None):
            out.append({"kind": "env", "text": f"{tool}: no _MSPDBSRV_ENDPOINT_ although one was asked for"})
    if have != wantenv:
        out.append({"kind": "env", "text": f"{tool}: environment differs in {sorted(set(have.items()) ^ set(wantenv.items()))[:4]}"})
    if exit_ != code(spec["status"]):
        out.append({"kind": "exit", "text": f"{tool}: the command ends with {spec['status']}, the wrapper exits with {exit_}: {simlib.last_lines(err)}"})
        return out
    stream = err if mac else got
    have = [x for x in stream.replace("\r\n", "\n").split("\n") if x]
    want = [x for x in (unfiltered(tool, spec["lines"])) if x]
    if spec["bytes"] and have and "warning in another encoding" in have[0]:
        have = have[1:]
    elif spec["bytes"]:
        out.append({"kind": "output", "text": f"{tool}: a line of output in another encoding is lost"})
    if have != want:
        lost = [x for x in want if x not in have]
        out.append({"kind": "output", "text": f"{tool}: " + (f"the line {lost[0]!r} is lost" if lost else f"printed {have[:4]}, expected {want[:4]}")})
    if mac:
        if got != spec["other"]:
            out.append({"kind": "output", "text": f"{tool}: standard output {got!r} instead of {spec['other']!r}"})
        touched = os.stat(os.path.join(root, "libx.a")).st_mtime > old + 10
        if touched != (spec["status"] == 0):
            out.append({"kind": "touch", "text": f"{tool}: the command ends with {spec['status']} and the archive's time is {'new' if touched else 'old'}"})
    return out


def run_manifests(spec, ctx):
    root = ctx.scratch.root
    ctx.scratch.fresh({"environment.x64": blocktext(spec["block"]), "out.dll": "binary", "out.dll.manifest": "<a>\n</a>", "im.manifest": "<im/>",
                       "out.dll.assert.manifest": "<a> </a>" if spec["same"] else "<a>x</a>"})
    argv = ["link-with-manifests", "environment.x64", spec["embed"], "out.dll", "link.exe /OUT:out.dll x.obj", "1", "mt.exe", "rc.exe", "im.manifest"] + spec["manifests"]
    n = 1 if not spec["manifests"] else 5 if spec["embed"] == "True" else 3
    cmds = [{"steps": 1, "status": spec["status"] if spec["fail"] == i else 0} for i in range(n)] + [{"steps": 1, "status": 0}]
    procs = [{"path": os.path.join(PYLIB, "win_tool.py"), "argv": argv, "commands": cmds, "platform": "linux", "faults": {}}]
    res = child(lambda ts: ts.run_world(root, spec["seed"], procs, ENV))
    ctx.cover.execs += 1
    ctx.cover.note("link-with-manifests")
    if res is None or res["stuck"]:
        return [{"kind": "hang", "text": "link-with-manifests does not end"}]
    fails = spec["fail"] is not None and spec["fail"] < n
    exit_ = res["exits"][0]
    ran = [c["argv"] for c in res["cmds"][0]]
    ctx.cover.state("lwm", spec["manifests"], spec["embed"], spec["same"], spec["fail"])
    what = f"link-with-manifests {spec['embed']} {spec['manifests']}"
    if fails:
        if exit_ == 0:
            return [{"kind": "exit", "text": f"{what}: step {spec['fail']} fails with {spec['status']} and the wrapper exits 0"}]
        if len(ran) != spec["fail"] + 1:
            return [{"kind": "ran", "text": f"{what}: step {spec['fail']} fails and {len(ran)} steps were run"}]
        return []
    good = spec["same"] or not spec["manifests"]
    if (exit_ == 0) != good:
        return [{"kind": "exit", "text": f"{what}: exits with {exit_}, manifests {'equal' if good else 'differ'}: {simlib.last_lines(res['err'][0])}"}]
    if os.path.exists(os.path.join(root, "out.dll")) != good:
        return [{"kind": "product", "text": f"{what}: the product is {'gone' if good else 'left'}"}]
    link = [a for a in ran if (a if isinstance(a, str) else " ".join(a)).startswith("link.exe")]
    if len(link) != 1 or len(ran) != n:
        return [{"kind": "ran", "text": f"{what}: {len(ran)} commands, {len(link)} links instead of {n} and 1"}]
    return []


def run(spec, ctx):
    if spec["kind"] == "flock":
        return run_flock(spec, ctx)
    if spec["tool"] == "link-with-manifests":
        return run_manifests(spec, ctx)
    return run_filter(spec, ctx)


def shrink(spec):
    if spec["kind"] == "flock":
        for i in range(len(spec["procs"])):
            if len(spec["procs"]) > 1:
                c = copy.deepcopy(spec)
                del c["procs"][i]
                c["kills"] = [dict(k, proc=k["proc"] - (k["proc"] > i)) for k in c["kills"] if k["proc"] != i]
                yield c
        for i in range(len(spec["kills"])):
            c = copy.deepcopy(spec)
            del c["kills"][i]
            yield c
        for i, p in enumerate(spec["procs"]):
            for k, v in (("faults", {}), ("start", 0)):
                if p[k] != v:
                    c = copy.deepcopy(spec)
                    c["procs"][i][k] = v
                    yield c
            if len(p["cmd"]) > 1:
                c = copy.deepcopy(spec)
                c["procs"][i]["cmd"] = p["cmd"][:1]
                yield c
            if p["commands"][0].get("status"):
                c = copy.deepcopy(spec)
                c["procs"][i]["commands"][0]["status"] = 0
                yield c
        for s in (0, 1, 2, 3):
            if spec["seed"] > 3:
                yield dict(copy.deepcopy(spec), seed=s)
    elif "lines" in spec:
        for i in range(len(spec["lines"])):
            c = copy.deepcopy(spec)
            del c["lines"][i]
            yield c
        for i in range(len(spec["args"])):
            c = copy.deepcopy(spec)
            del c["args"][i]
            yield c
        for k, v in (("env", {}), ("other", ""), ("status", 0), ("spawn", None), ("bytes", False), ("dir", None), ("noenv", False)):
            if spec[k] != v:
                yield dict(copy.deepcopy(spec), **{k: v})
        for k in list(spec["block"]):
            if k != "SYSTEMROOT":
                c = copy.deepcopy(spec)
                del c["block"][k]
                yield c


def describe(spec):
    if spec["kind"] == "flock":
        return f"{len(spec['procs'])} wrappers {spec['procs'][0]['tool']} on {sorted({p['lock'] for p in spec['procs']})}, kills {spec['kills']}"
    return f"{spec['tool']} with {len(spec.get('lines', []))} lines, status {spec.get('status')}"

"""Scenarios over generated projects: choice of generator, layout in the scratch directory, shrinking."""
import copy
import random

import fancy
import projgen

# generator (with flavor), weight
FORMATS = [("make", 5), ("ninja", 5), ("cmake", 2), ("msvs", 3), ("xcode", 3), ("gypd", 1), ("compile_commands_json", 1),
           ("dump_dependency_json", 1), ("eclipse", 1), ("android", 1), ("make-mac", 2), ("ninja-mac", 2), ("xcode-ninja", 1),
           ("make-aix", 1), ("make-solaris", 1), ("make-freebsd", 0.5), ("make-os390", 0.5), ("make-win", 0.5),
           ("make-wasm", 0.5), ("cmake-mac", 0.5), ("ninja-win", 1), ("analyzer", 0.6)]

STUB = ["external commands (a table of answers instead of xcodebuild, xcrun, compilers, cl.exe and the project's own commands)",
        "process id, temporary file names, directory order, memory size, number of processors (decided by the plan)"]
REAL = ["all of gyp/pylib/gyp (input, common, easy_xml, MSVS*, xcode*, msvs_emulation, every generator)", "CPython's open/io stack above the raw file",
        "the file system of a scratch directory"]


def choose(r, pairs):
    return r.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


def project_spec(r, seed, fmt, style="gen"):
    p = projgen.project(seed, style)
    spec = {"fmt": fmt, "gyp": p.gyp, "files": p.files, "exe": sorted(p.exe), "tops": p.tops, "args": p.args, "env": {}}
    if fmt == "gypd":
        spec["args"] = spec["args"] + ["-D", "OS=linux"]
    if fmt == "android":
        spec["env"]["ANDROID_BUILD_TOP"] = "@ROOT@"
    if fmt in ("msvs", "ninja-win"):
        spec["env"]["GYP_MSVS_VERSION"] = r.choice(["2015", "2015", "2017", "2019", "2022"] if fmt == "msvs" else ["2013", "2015", "2017", "2019", "2022"])
        spec["env"]["GYP_MSVS_OVERRIDE_PATH"] = "C:\\VS"
        for p, d in spec["gyp"].items():
            if p.endswith(".gyp") and r.random() < 0.95:
                d.setdefault("target_defaults", {}).setdefault("msvs_windows_target_platform_version", "10.0.19041.0")
    if fmt == "ninja-win":
        if r.random() < 0.4:
            spec["args"] = spec["args"] + ["-G", "ninja_use_custom_environment_files=1"]
        else:
            # an installation to take the environment from
            spec["env"]["GYP_MSVS_OVERRIDE_PATH"] = "@ROOT@/vs"
            if r.random() < 0.5:
                spec["env"]["PROCESSOR_ARCHITECTURE"] = "AMD64"
            for f in ("VC/Auxiliary/Build/vcvarsall.bat", "VC/vcvarsall.bat", "Common7/Tools/vsvars32.bat"):
                spec["files"]["vs/" + f] = "rem\n"
    if fmt in ("eclipse", "android"):
        a = spec["args"]
        while "--generator-output" in a:
            i = a.index("--generator-output")
            a = a[:i] + a[i + 2:]
        spec["args"] = a
    if style == "gen":
        fancy.apply(spec, seed)
    if "analyzer" in fmt:
        fancy.analyze(spec, seed)
    return spec


def files_of(spec):
    out = {p: projgen.render(d) for p, d in spec["gyp"].items()}
    out.update(spec["files"])
    return out


def argv(spec, *more):
    out = list(spec["tops"])
    for f in spec["fmt"].split(","):
        out += ["-f", f]
    return out + list(spec["args"]) + list(more)


def shrink_project(spec):
    """smaller projects: fewer files, targets, keys"""
    gyps = [p for p in spec["gyp"] if p.endswith(".gyp")]
    names = {}
    for p in gyps:
        for t in spec["gyp"][p].get("targets", []):
            names[t.get("target_name")] = p

    def used(s, name):
        text = repr([s["gyp"], s["args"]])
        return text.count(f"'{name}'") + text.count(f":{name}'") > 1
    # drop a target nobody names
    for p in gyps:
        ts = spec["gyp"][p].get("targets", [])
        for i in range(len(ts) - 1, -1, -1):
            if len(ts) == 1 and len(gyps) == 1:
                continue
            if used(spec, ts[i].get("target_name")):
                continue
            c = copy.deepcopy(spec)
            del c["gyp"][p]["targets"][i]
            if not c["gyp"][p]["targets"]:
                if spec["tops"] == [p]:
                    continue
                if any(p.rsplit("/", 1)[-1] + ":" in repr(d) for d in c["gyp"].values()):
                    continue
                del c["gyp"][p]
                c["tops"] = [x for x in c["tops"] if x != p]
                if not c["tops"]:
                    continue
            yield c
    # drop a dependency
    for p in gyps:
        for i, t in enumerate(spec["gyp"][p].get("targets", [])):
            for k, dep in enumerate(t.get("dependencies", [])):
                c = copy.deepcopy(spec)
                ct = c["gyp"][p]["targets"][i]
                del ct["dependencies"][k]
                if not ct["dependencies"]:
                    del ct["dependencies"]
                if dep in ct.get("export_dependent_settings", []):
                    ct["export_dependent_settings"].remove(dep)
                yield c
    # drop an argument
    a = spec["args"]
    for i in range(len(a)):
        if a[i] in ("--no-circular-check",):
            c = copy.deepcopy(spec)
            del c["args"][i]
            yield c
        elif a[i] in ("-D", "-G", "-R", "--generator-output", "--suffix", "-I") and i + 1 < len(a):
            c = copy.deepcopy(spec)
            del c["args"][i:i + 2]
            yield c
    # drop keys of targets and files
    for p in list(spec["gyp"]):
        d = spec["gyp"][p]
        for k in list(d):
            if k not in ("targets",):
                c = copy.deepcopy(spec)
                del c["gyp"][p][k]
                yield c
        for i, t in enumerate(d.get("targets", [])):
            for k in list(t):
                if k not in ("target_name", "type", "dependencies"):
                    c = copy.deepcopy(spec)
                    del c["gyp"][p]["targets"][i][k]
                    yield c
    # drop list elements
    for p in gyps:
        for i, t in enumerate(spec["gyp"][p].get("targets", [])):
            for k in ("sources", "defines", "cflags", "actions", "libraries"):
                if len(t.get(k, [])) > 1:
                    for j in range(len(t[k])):
                        c = copy.deepcopy(spec)
                        del c["gyp"][p]["targets"][i][k][j]
                        yield c


def describe_project(spec):
    n = sum(len(d.get("targets", [])) for d in spec["gyp"].values())
    return f"{spec['fmt']}: {len([p for p in spec['gyp'] if p.endswith('.gyp')])} gyp files, {n} targets, args {' '.join(spec['tops'] + spec['args'])}"


def rng(seed):
    return random.Random(seed)

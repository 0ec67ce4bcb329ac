"""Less usual things in generated projects: wildcards, list policies, merged settings, environment, odd sources.

Applied to the description of a project by a random generator of its own, so that the projects themselves do not change with it.
"""
import json
import os
import random

SETTINGS = [["LD", "/usr/bin/ld"], ["AR", "/usr/bin/ar"], ["NM", "/usr/bin/nm"], ["READELF", "/usr/bin/readelf"], ["LINK", "g++ -m64"], ["CC.host", "hostcc"], ["CXX.host", "hostc++"],
            ["AR.host", "hostar"], ["CXX_wrapper", "ccache -x"], ["LINK_wrapper", "wraplink"], ["CC.host_wrapper", "hostwrap"]]


def rel(path, start):
    return os.path.relpath("/" + path, "/" + start)


def strings(x):
    if isinstance(x, dict):
        return {k: strings(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strings(v) for v in x]
    return str(x)


def apply(spec, seed):
    r = random.Random(f"fancy:{seed}")
    if r.random() < 0.35:
        return
    chance = lambda x: r.random() < x   # noqa: E731
    gyps = [p for p in spec["gyp"] if p.endswith(".gyp")]
    targets = [(p, t) for p in gyps for t in spec["gyp"][p].get("targets", [])]
    every = [t for p, t in targets]
    mac = any(x in spec["fmt"] for x in ("xcode", "mac"))
    win = any(x in spec["fmt"] for x in ("msvs", "win"))
    configs = "configurations" in spec["gyp"].get("common.gypi", {}).get("target_defaults", {})
    if not configs and not win:
        # generators want the same configurations everywhere
        for t in every:
            t.pop("configurations", None)
    # all targets of a file
    if chance(0.2):
        own = [t for p, t in targets if "host" not in t.get("toolsets", [])]
        p = r.choice(spec["tops"])
        if own and not any("toolsets" in t for t in every):
            others = [q for q in gyps if q != p]
            deps = [rel(q, os.path.dirname(p)) + r.choice([":*", ":*", ":*#*"]) for q in r.sample(others, r.randint(1, len(others)))] if others else ["wild"]
            w = {"target_name": "wild", "type": "none", "dependencies": deps}
            if not others or chance(0.4):
                w["variables"] = {"prune_self_dependency": 1}
                w["dependencies"] = deps + ["wild"] if others else deps
            for t in every:
                if chance(0.15):
                    t["suppress_wildcard"] = 1
            # a target that depends on nothing that leads back here
            if not any(os.path.basename(p) + ":" in repr(t.get("dependencies")) for q, t in targets if q != p):
                spec["gyp"][p]["targets"].insert(r.randint(0, len(spec["gyp"][p]["targets"])), w)
    # list policies
    for p, t in targets:
        if chance(0.15):
            k = r.choice(["defines", "include_dirs", "cflags"])
            sign = r.choice(["+", "=", "?", "!", ""])
            if sign == "?" and k in t:
                sign = "="
            val = {"defines": ["ALPHA", f"POLICY_{len(t)}", "Z"], "include_dirs": ["pol", "inc"], "cflags": ["-Wall", "-fpol"]}[k]
            where = r.choice(["conditions", "target_conditions", "configurations" if configs else "conditions"])
            if where == "configurations":
                t.setdefault("configurations", {}).setdefault(r.choice(["Debug", "Release"]), {})[k + sign] = val
            else:
                t[where] = t.get(where, []) + [["1==1" if chance(0.5) else "OS!='beos'", {k + sign: val}]]
        if chance(0.1) and "defines" in t:
            t["defines/"] = r.choice([[["exclude", "^A"], ["include", "ALPHA"]], [["include", "BETA"], ["exclude", "="]], [["exclude", "."]]])
        if chance(0.08) and t.get("sources"):
            t["sources/"] = t.get("sources/", []) + [["exclude", "_1\\."], ["include", "_1\\.cc$"]]
        if chance(0.06):
            t["conditions"] = t.get("conditions", []) + [["OS=='win'", {"defines": ["C1"]}, "OS=='linux'", {"defines": ["C2"], "conditions": [["1==1", {"cflags": ["-fnested"]}]]},
                                                          {"defines": ["C3"]}]]
        if chance(0.08):
            v = t.setdefault("variables", {})
            v["number"], v["numbers"], v["neg"] = 5, [1, 2, 30], -7
            t["defines"] = t.get("defines", []) + ["NUM=<(number)", "N<@(numbers)", "NEG=<(neg)", "INT=>(number)"]
        if chance(0.05):
            v = t.setdefault("variables", {})
            v["chosen%"] = "dflt"
            v["conditions"] = [["OS=='linux'", {"chosen": "lin"}, {"chosen": "oth"}]]
            t["defines"] = t.get("defines", []) + ["CHOSEN=<(chosen)"]
    # odd sources
    for p, t in targets:
        if t.get("type") == "none" or not chance(0.15):
            continue
        d = os.path.dirname(p)
        exts = r.sample([".s", ".S", ".cxx", ".def"] + ([".m", ".mm", ".swift"] if mac or chance(0.1) else []) + ([".rc", ".idl", ".asm"] if win else []), r.choice([1, 2]))
        for e in exts:
            if e == ".swift" and "ninja" in spec["fmt"]:
                continue
            f = f"{t['target_name']}_odd{e}"
            spec["files"][os.path.join(d, f)] = "odd\n"
            t["sources"] = t.get("sources", []) + [f]
    # rules of which each takes many files
    for p, t in targets:
        if t.get("rules") and chance(0.15):
            ru = t["rules"][0]
            ext = "." + ru["extension"]
            if ru.get("rule_name", "").startswith("rule_") and ext == ".in":
                for k in range(r.choice([2, 7])):
                    f = f"{r.choice(['', 'src/', 'src/in/'])}{t['target_name']}_m{k}.in"
                    spec["files"][os.path.join(os.path.dirname(p), f)] = f"int m{k};\n"
                    t["sources"] = t["sources"] + [f]
    # tools and wrappers, the same in every file
    common = spec["gyp"].get("common.gypi")
    if common is not None and chance(0.3):
        have = common.setdefault("make_global_settings", [])
        have += [list(x) for x in r.sample(SETTINGS, r.randint(1, 5)) if not any(x[0] == y[0] for y in have)]
    # options from the environment and the user's own file
    env = spec["env"]
    if chance(0.15):
        where, arg = r.choice([("cfg/include.gypi", True), ("cfg/include.gypi", False), (".nohome/.gyp/include.gypi", None)])
        spec["gyp"][where] = {"variables": {"of_user%": "me"}, "target_defaults": {"defines": ["USER=<(of_user)"]}}
        if arg:
            spec["args"] = spec["args"] + ["--config-dir", "cfg"]
        elif arg is False:
            env["GYP_CONFIG_DIR"] = "@ROOT@/cfg"
    if chance(0.1):
        env["GYP_DEFINES"] = r.choice(["enable_x=1", "enable_x=0 of_user='a b'", "flavour=red x=1"])
    if chance(0.06):
        env["GYP_GENERATOR_FLAGS"] = r.choice(["output_dir=genflags", "config=Debug"])
    if chance(0.05) and "--generator-output" not in spec["args"] and spec["fmt"] not in ("eclipse", "android"):
        env["GYP_GENERATOR_OUTPUT"] = "env_out"
    if chance(0.1):
        # in which only strings are allowed
        spec["args"] = spec["args"] + ["--check"]
        for p in spec["gyp"]:
            spec["gyp"][p] = strings(spec["gyp"][p])
    if chance(0.05):
        spec["args"] = spec["args"] + ["-d", r.choice(["general", "includes", "variables", "all"])]
    if chance(0.05):
        spec["args"] = spec["args"] + ["--toplevel-dir", "."]


def analyze(spec, seed):
    """what the analyzer is asked"""
    r = random.Random(f"analyze:{seed}")
    files = sorted(spec["files"]) + sorted(spec["gyp"])
    names = [t["target_name"] for p, d in spec["gyp"].items() if p.endswith(".gyp") for t in d.get("targets", [])]
    ask = {"files": r.sample(files, min(len(files), r.choice([1, 1, 2, 4, 9]))) + r.choice([[], ["not/there.c"]]),
           "test_targets": r.sample(names, r.randint(0, min(4, len(names)))) + r.choice([[], ["all"], ["gone", "gone2"]]),
           "additional_compile_targets": r.sample(names, r.randint(0, len(names))) + r.choice([[], ["all"]])}
    spec["files"]["ask.json"] = json.dumps(ask) + "\n"
    spec["args"] = spec["args"] + ["-G", "config_path=ask.json", "-G", "analyzer_output_path=answer.json"]

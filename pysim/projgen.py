"""Random gyp projects, from a seed.

A Project is a set of gyp files (as dictionaries), a set of other files (as text) and a gyp command
line.  The same generator feeds the simulated gyp runs (pysim) and the simulated builds (buildsim).
Everything a project means is in the dictionaries, so a check can edit them and write them again.
"""
import copy
import pprint
import random


def render(d):
    return pprint.pformat(d, width=100, sort_dicts=False) + "\n"


class Project:
    def __init__(self):
        self.gyp = {}        # path -> dict (gyp and gypi files)
        self.files = {}      # path -> text
        self.exe = set()     # paths that must be executable
        self.tops = []       # gyp files named on the command line
        self.args = []       # further arguments
        self.info = []       # targets: dict(name, file, type, deps, ...)
        self.env = {}

    def text(self):
        out = {p: render(d) for p, d in self.gyp.items()}
        out.update(self.files)
        return out

    def clone(self):
        return copy.deepcopy(self)


def rel(path, start):
    """posix relative path (path and start are relative to the project root)"""
    a = [x for x in path.split("/") if x not in ("", ".")]
    b = [x for x in start.split("/") if x not in ("", ".")]
    while a and b and a[0] == b[0]:
        a.pop(0), b.pop(0)
    return "/".join([".."] * len(b) + a) or "."


def dirname(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""


def join(d, p):
    return f"{d}/{p}" if d else p


DEFS = ["ALPHA", "BETA=1", "GAMMA=2", "NAME=value", "NDEBUG", "_GNU_SOURCE", "LONG_NAME_WITH_PARTS=10", "Z"]
FLAGS = ["-Wall", "-O2", "-g", "-fno-exceptions", "-ffoo", "-fbar", "-W", "-std=c11", "-pthread"]
LDFLAGS = ["-pthread", "-rdynamic", "-Wl,-z,noexecstack", "-Wl,--as-needed"]
LIBS = ["-lm", "-ldl", "-lrt", "-lz"]


class Gen:
    """style 'gen': anything gyp accepts; style 'build': projects the stub tool chain can build"""

    def __init__(self, seed, style="gen", **kw):
        self.r = random.Random(f"{style}:{seed}")
        self.style = style
        self.p = Project()
        self.kw = kw
        self.n = 0

    def some(self, pool, lo=0, hi=3):
        k = self.r.randint(lo, min(hi, len(pool)))
        return self.r.sample(pool, k)

    def chance(self, x):
        return self.r.random() < x

    # ------------------------------------------------------------------
    def project(self):
        r, p = self.r, self.p
        nfiles = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]) if self.style == "gen" else r.choice([1, 1, 2, 2, 3])
        dirs = ["", "lib", "app", "lib/deep", "tools", "third_party/x"]
        r.shuffle(dirs)
        used = set()
        paths = []
        flat = self.style == "gen" and self.chance(0.15)
        for i in range(nfiles):
            d = r.choice(dirs) if i and not flat else r.choice(["", "", "", "lib"])
            name = r.choice(["all", "core", "base", "zlib", "app", "net", "m"]) + r.choice(["", "1", "_x"])
            while join(d, name + ".gyp") in used:
                name += "2"
            used.add(join(d, name + ".gyp"))
            paths.append(join(d, name + ".gyp"))
        # paths[0] is the top; a file may depend on files after it
        common = {}
        if self.chance(0.7):
            common = self.common_gypi()
            p.gyp["common.gypi"] = common
            p.args += ["-I", "common.gypi"]
        self.vars = {"enable_x": r.choice([0, 1]), "flavour": r.choice(["red", "blue"])}
        built = []
        for path in reversed(paths):
            built = self.gyp_file(path, built)
        p.tops = [paths[0]]
        # make every file reachable, or name it
        reach = self.reachable(p.tops)
        for path in paths:
            if path not in reach:
                p.tops.append(path)
                reach = self.reachable(p.tops)
        for path in paths:
            if path not in p.tops and self.chance(0.1):
                p.tops.append(path)
        r.shuffle(p.tops)
        if self.chance(0.3):
            p.args += ["-D", f"enable_x={r.choice([0, 1])}"]
        p.args += ["--depth", "."]
        if self.style == "gen":
            self.options()
        return p

    def reachable(self, tops):
        out, todo = set(), list(tops)
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.add(f)
            for t in self.p.info:
                if t["file"] == f:
                    for d in t["deps"]:
                        todo.append(d["file"])
        return out

    def options(self):
        r, p = self.r, self.p
        if self.chance(0.15):
            t = r.choice(p.info)
            p.args += ["-R", t["name"]]
            if self.chance(0.3):
                p.args += ["-R", r.choice(p.info)["name"]]
        if self.chance(0.15):
            p.args += ["--no-circular-check"]
        if self.chance(0.1):
            p.args += ["--suffix", ".sfx"]
        if self.chance(0.25):
            p.args += ["--generator-output", r.choice(["gen_out", "build", "./x/y"])]
        if self.chance(0.15):
            p.args += ["-G", "output_dir=" + r.choice(["bld", "out/more"])]
        if self.chance(0.1):
            p.args += ["-G", "config=" + r.choice(["Debug", "Release"])]

    # ------------------------------------------------------------------
    def common_gypi(self):
        r = self.r
        d = {"variables": {"shared_var": "common", "a_list": ["one", "two", "three"], "enable_x%": 0}}
        td = {}
        if self.chance(0.8):
            td["default_configuration"] = r.choice(["Debug", "Release"])
            td["configurations"] = {
                "Debug": {"defines": ["DEBUG", "_DEBUG"], "cflags": ["-O0"],
                          "msvs_settings": {"VCCLCompilerTool": {"Optimization": 0, "RuntimeLibrary": 1}},
                          "xcode_settings": {"GCC_OPTIMIZATION_LEVEL": "0"}},
                "Release": {"defines": ["NDEBUG"], "cflags": ["-O3"],
                            "msvs_settings": {"VCCLCompilerTool": {"Optimization": 3}}},
            }
            if self.style == "gen" and self.chance(0.3):
                td["configurations"]["Base"] = {"abstract": 1, "defines": ["BASE"]}
                td["configurations"]["Debug"]["inherit_from"] = ["Base"]
                td["configurations"]["Third"] = {"inherit_from": ["Base"], "cflags": ["-O1"]}
        if self.chance(0.5):
            td["defines"] = self.some(DEFS, 1)
        if self.chance(0.4):
            td["cflags"] = self.some(FLAGS, 1)
        if self.chance(0.3):
            td["target_conditions"] = [['_type=="static_library"', {"cflags": ["-fstatic"]},
                                        {"defines": ["NOT_STATIC=<(enable_x)"]}]]
        if self.chance(0.3):
            td["conditions"] = [['OS=="linux"', {"defines": ["LINUX"]}], ['OS=="mac" or OS=="win"', {"defines": ["OTHER"]}]]
        if td:
            d["target_defaults"] = td
        if self.style == "gen" and self.chance(0.25):
            d["make_global_settings"] = [["CC", "/usr/bin/cc"], ["CXX", "/usr/bin/c++"]]
            if self.chance(0.5):
                d["make_global_settings"] += [["CC_wrapper", "ccache"]]
        return d

    # ------------------------------------------------------------------
    def gyp_file(self, path, built):
        """built: target infos of the files that may be depended on"""
        r, p = self.r, self.p
        d = dirname(path)
        g = {}
        p.gyp[path] = g
        names = {t["name"] for t in p.info}
        v = {}
        if self.chance(0.8):
            v = {"local_var": f"local_{len(p.gyp)}", "enable_x%": self.vars["enable_x"],
                 "names": ["n1", "n2"], "flavour%": self.vars["flavour"]}
            if self.chance(0.3):
                v["variables"] = {"inner%": "deep"}
                v["outer"] = "<(inner)_out"
            g["variables"] = v
        incs = []
        if self.chance(0.35):
            inc = join(d, r.choice(["settings.gypi", "more.gypi", "feature.gypi"]))
            if inc not in p.gyp:
                p.gyp[inc] = self.include_gypi()
            incs.append(inc.rsplit("/", 1)[-1])
        if self.chance(0.25) and "shared/flags.gypi" not in incs:
            if "shared/flags.gypi" not in p.gyp:
                p.gyp["shared/flags.gypi"] = {"variables": {"from_shared": "yes"},
                                               "target_defaults": {"defines": ["SHARED=<(from_shared)"], "include_dirs": ["inc_shared"]}}
                p.files["shared/inc_shared/shared.h"] = "#define SHARED_H 1\n"
            incs.append(rel("shared/flags.gypi", d))
        if incs:
            g["includes"] = incs
        if self.chance(0.4):
            g["target_defaults"] = {"defines": self.some(DEFS, 1, 2)}
            if self.chance(0.5):
                g["target_defaults"]["include_dirs"] = ["include"]
                p.files.setdefault(join(d, "include/inc.h"), "#define INC 1\n")
        if self.chance(0.4):
            g["conditions"] = [[r.choice(["enable_x==1", "flavour=='red'", "OS!='win'"]),
                                {"target_defaults": {"defines": ["COND_TRUE"]}},
                                {"target_defaults": {"defines": ["COND_FALSE"]}}]]
            if not v:
                g["variables"] = {"enable_x%": 0, "flavour%": "red"}
        g["targets"] = []
        mine = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]) if self.style == "gen" else r.choice([1, 2, 3, 4])):
            self.n += 1
            name = r.choice(["lib", "util", "gen", "obj", "prog", "node", "b"]) + str(self.n)
            t, info = self.target(name, path, d, built + mine)
            if name in names:
                continue
            g["targets"].append(t)
            p.info.append(info)
            mine.append(info)
        if self.style == "gen" and self.chance(0.12):
            # targets with nothing in them
            for _ in range(r.choice([1, 2, 3])):
                self.n += 1
                g["targets"].insert(r.randint(0, len(g["targets"])), {"target_name": "empty" + str(self.n), "type": "none"})
        self.finish_file(g, path, d)
        return built + mine

    def include_gypi(self):
        d = {"variables": {"inc_var": "included"}, "target_defaults": {"defines": ["FROM_GYPI=<(inc_var)"]}}
        if self.chance(0.4):
            d["conditions"] = [['OS=="linux"', {"target_defaults": {"cflags": ["-finc"]}}]]
        return d

    def finish_file(self, g, path, d):
        pass

    # ------------------------------------------------------------------
    def target(self, name, path, d, avail):
        r, p = self.r, self.p
        kind = r.choices(["static_library", "shared_library", "loadable_module", "executable", "none"],
                         [4, 2, 1.5, 3, 1.5])[0]
        t = {"target_name": name, "type": kind}
        deps = []
        info = {"name": name, "file": path, "type": kind, "deps": deps, "toolsets": ["target"], "dir": d}
        cands = [a for a in avail if a["type"] in ("static_library", "shared_library", "none")]
        if cands and self.chance(0.75):
            for a in self.r.sample(cands, min(len(cands), r.choice([1, 1, 2, 3]))):
                deps.append(a)
        tools = [a for a in avail if a["type"] == "executable" and a.get("tool")]
        if self.style == "gen":
            if self.chance(0.12):
                info["toolsets"] = t["toolsets"] = r.choice([["host"], ["host", "target"], ["target", "host"]])
                deps[:] = [a for a in deps if set(info["toolsets"]) <= set(a["toolsets"])]
            else:
                deps[:] = [a for a in deps if "target" in a["toolsets"]]
        if deps:
            t["dependencies"] = [self.dep_name(a, path, d) for a in deps]
            if self.chance(0.25) and kind != "none":
                ex = r.choice(deps)
                t["export_dependent_settings"] = [self.dep_name(ex, path, d)]
        if kind != "none":
            self.sources(t, info, name, d)
        if self.chance(0.5):
            t["defines"] = self.some(DEFS, 1) + ([f"T_{name}=<(local_var)"] if "variables" in p.gyp[path] and "local_var" in p.gyp[path].get("variables", {}) else [])
        if self.chance(0.3):
            t["cflags"] = self.some(FLAGS, 1)
            if self.chance(0.4):
                t["cflags!"] = self.some(FLAGS, 1, 2)
        if self.chance(0.3):
            t["include_dirs"] = ["inc"]
            p.files.setdefault(join(d, "inc/own.h"), "#define OWN 1\n")
        if kind in ("executable", "shared_library", "loadable_module"):
            if self.chance(0.3):
                t["ldflags"] = self.some(LDFLAGS, 1)
            if self.chance(0.3):
                t["libraries"] = self.some(LIBS, 1)
        if self.chance(0.25):
            t["direct_dependent_settings"] = {"defines": [f"USES_{name.upper()}"]}
            if self.chance(0.5):
                t["direct_dependent_settings"]["include_dirs"] = ["pub"]
                p.files.setdefault(join(d, "pub/pub.h"), "#define PUB 1\n")
        if self.chance(0.12):
            t["all_dependent_settings"] = {"defines": [f"ALL_{name.upper()}"]}
        if self.chance(0.15) and kind != "none":
            t["link_settings"] = {"libraries": ["-lpthread"]}
        if self.chance(0.12):
            t["hard_dependency"] = 1
        if kind != "none" and self.chance(0.2):
            t["product_name"] = "prod_" + name
            info["product"] = t["product_name"]
        if self.style == "gen" and kind != "none":
            if self.chance(0.08):
                t["product_extension"] = "ext"
            if self.chance(0.08):
                t["product_dir"] = "<(PRODUCT_DIR)/sub"
            if kind == "static_library" and self.chance(0.15):
                t["standalone_static_library"] = 1
        if self.chance(0.3):
            self.action(t, info, name, d)
        if kind != "none" and self.chance(0.2):
            self.rule(t, info, name, d)
        if self.chance(0.25):
            self.copies(t, info, name, d)
        if self.style == "gen":
            self.exotic(t, info, name, path, d)
        if self.chance(0.3):
            t["conditions"] = t.get("conditions", []) + [['OS=="linux"', {"defines": ["T_LINUX"]}, {"defines": ["T_OTHER"]}]]
        if self.chance(0.2):
            t["target_conditions"] = [["_type=='executable'", {"defines": ["IS_EXE"]}, {"defines": ["NO_EXE=>(_target_name)"]}]]
        return t, info

    def dep_name(self, a, path, d):
        r = self.r
        ref = a["name"] if a["file"] == path else f"{rel(a['file'], d)}:{a['name']}"
        if a["file"] != path and self.style == "gen":
            if self.chance(0.1):
                ref = "./" + ref
        return ref

    def sources(self, t, info, name, d):
        r, p = self.r, self.p
        src = []
        for k in range(r.choice([1, 1, 2, 3, 5])):
            ext = r.choice([".c", ".cc", ".c", ".cpp"])
            f = r.choice(["", "src/"]) + f"{name}_{k}{ext}"
            src.append(f)
            incs = []
            if self.chance(0.6):
                h = f"{name}.h"
                p.files.setdefault(join(d, h), f"#define H_{name} 1\n")
                if h not in src and self.chance(0.7):
                    src.append(h)
                incs.append(("../" if "/" in f else "") + h)
            p.files[join(d, f)] = "".join(f'#include "{i}"\n' for i in incs) + f"int {name}_{k};\n"
        if self.chance(0.15):
            f = f"{name}_win.cc"
            src.append(f)
            p.files[join(d, f)] = "int w;\n"
            t["sources/"] = [["exclude", "_win\\.cc$"]]
        if self.chance(0.1):
            f = f"{name}_x.c"
            src.append(f)
            p.files[join(d, f)] = "int x;\n"
            t["sources!"] = [f]
        t["sources"] = src

    def action(self, t, info, name, d):
        r, p = self.r, self.p
        kind = t["type"]
        i = len(t.setdefault("actions", []))
        out = f"<(SHARED_INTERMEDIATE_DIR)/{name}/{name}_gen.c" if self.chance(0.5) else f"<(INTERMEDIATE_DIR)/{name}_gen.c"
        inp = f"{name}.tmpl"
        p.files[join(d, inp)] = f"int {name}_gen;\n"
        p.files["tools/gen.py"] = GEN_PY
        a = {"action_name": f"act_{name}", "inputs": [inp, rel("tools/gen.py", d)], "outputs": [out],
             "action": ["python3", rel("tools/gen.py", d), inp, out]}
        if self.chance(0.3):
            a["message"] = f"Generating {name}"
        if self.style == "gen" and self.chance(0.4):
            for q in self.some(["x", "yy", "z3", "deep/er"], 1, 3):
                a["outputs"].append(f"<(INTERMEDIATE_DIR)/{q}/{name}.h")
        if kind != "none" and self.chance(0.7):
            a["process_outputs_as_sources"] = 1
        t["actions"].append(a)

    def rule(self, t, info, name, d):
        p = self.p
        p.files["tools/gen.py"] = GEN_PY
        f = f"{name}_r.in"
        p.files[join(d, f)] = f"int {name}_rule;\n"
        t["sources"] = t.get("sources", []) + [f]
        t.setdefault("rules", []).append({
            "rule_name": f"rule_{name}", "extension": "in", "inputs": [rel("tools/gen.py", d)],
            "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"],
            "action": ["python3", rel("tools/gen.py", d), "<(RULE_INPUT_PATH)", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"],
            "process_outputs_as_sources": 1})
        if self.style == "gen":
            ru = t["rules"][-1]
            if self.chance(0.4):
                for q in self.some(["x", "yy", "z3", "deep/er"], 1, 3):
                    ru["outputs"].append(f"<(INTERMEDIATE_DIR)/{q}/<(RULE_INPUT_ROOT).h")
            if self.chance(0.3):
                f2 = f"{name}_s.tpl"
                p.files[join(d, f2)] = "x\n"
                t["sources"] = t["sources"] + [f2]
                t["rules"].append({"rule_name": f"rule2_{name}", "extension": "tpl", "outputs": ["<(SHARED_INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).txt"],
                                   "action": ["cp", "<(RULE_INPUT_PATH)", "<(SHARED_INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).txt"],
                                   "message": "copying <(RULE_INPUT_NAME)"})

    def copies(self, t, info, name, d):
        r, p = self.r, self.p
        fs = []
        for k in range(r.choice([1, 2])):
            f = f"data/{name}_{k}.txt"
            p.files[join(d, f)] = f"data {name} {k}\n"
            fs.append(f)
        t["copies"] = [{"destination": f"<(PRODUCT_DIR)/res_{name}", "files": fs}]

    def exotic(self, t, info, name, path, d):
        r, p = self.r, self.p
        v = t.setdefault("variables", {})
        if self.chance(0.25):
            v["cmd_out"] = "<!(simcmd word %s)" % r.choice(["w1", "w2", name])
            t["defines"] = t.get("defines", []) + ["CMD=<(cmd_out)"]
        if self.chance(0.2):
            t["defines"] = t.get("defines", []) + ["<!@(simcmd list L1 L2 L3)"]
        if self.chance(0.1):
            t["defines"] = t.get("defines", []) + ["<!@([\"simcmd\", \"list\", \"A1\", \"A2\"])"]
        if self.chance(0.1):
            t["defines"] = t.get("defines", []) + ["WHERE=<!(simcmd cwd)"]
        if self.chance(0.15):
            m = "pm_%d" % r.randint(0, 1)
            p.files[join(d, m + ".py")] = "import os\ndef DoMain(args):\n    return 'pm_%s_' + '_'.join(args)\n" % (d.replace("/", "_") or "top")
            t["defines"] = t.get("defines", []) + ["PM=<!pymod_do_main(%s a %s)" % (m, r.choice("bcd"))]
        if self.chance(0.12):
            t["defines"] = t.get("defines", []) + ["LATE=>!(simcmd word late_%s)" % name]
        if self.chance(0.15):
            v["flist"] = ["l1.txt", "l2.txt"] + (["long_name_of_a_file_%d.txt" % k for k in range(r.choice([300, 700]))] if self.chance(0.3) else [])
            t["defines"] = t.get("defines", []) + ["FL=<|(%s.list <@(flist))" % name]
        if self.chance(0.15):
            t["defines"] = t.get("defines", []) + ["EARLY_DEPTH=<(DEPTH)"]
        if self.chance(0.15):
            t["defines"] = t.get("defines", []) + ["LATE_DEPTH=>(DEPTH)"]
        if self.chance(0.1):
            t["defines"] = t.get("defines", []) + ["LATELATE=^(_target_name)"]
        if self.chance(0.2):
            t["xcode_settings"] = {"GCC_OPTIMIZATION_LEVEL": "2", "OTHER_CFLAGS": ["-DX"], "CLANG_CXX_LIBRARY": "libc++"}
            if t["type"] == "none":
                del t["xcode_settings"]
        if self.chance(0.2):
            t["msvs_settings"] = {"VCCLCompilerTool": {"WarningLevel": "3", "ExceptionHandling": 1},
                                  "VCLinkerTool": {"GenerateDebugInformation": "true", "AdditionalOptions": ["/foo"]}}
        if self.chance(0.12) and t["type"] == "executable":
            t["postbuilds"] = [{"postbuild_name": "post_" + name, "action": ["touch", "$BUILT_PRODUCTS_DIR/done"]}]
        if self.chance(0.08) and t["type"] in ("executable", "shared_library", "loadable_module"):
            t["mac_bundle"] = 1
            t["mac_bundle_resources"] = ["res/%s.txt" % name, "res/%s.strings" % name]
            p.files[join(d, "res/%s.txt" % name)] = "r\n"
            p.files[join(d, "res/%s.strings" % name)] = "r\n"
        if self.chance(0.2) and t["type"] != "none":
            xs = t.setdefault("xcode_settings", {})
            more = [("CHROMIUM_STRIP_SAVE_FILE", "${SRCROOT}/$(PRODUCT_NAME)/${CONFIGURATION}.$EXECUTABLE_NAME"), ("DEPLOYMENT_POSTPROCESSING", "YES"),
                    ("STRIP_INSTALLED_PRODUCT", "YES"), ("STRIPFLAGS", "-x -S $(SRCROOT)/${CONFIGURATION}"), ("DYLIB_INSTALL_NAME_BASE", "@rpath"),
                    ("PRODUCT_NAME", "prod_" + name), ("OTHER_LDFLAGS", ["-Wl,-z", "-Lx"]), ("FRAMEWORK_SEARCH_PATHS", ["$(SDKROOT)/fw", "fw2"]),
                    ("WARNING_CFLAGS", ["-Wa", "-Wb"]), ("GCC_PREPROCESSOR_DEFINITIONS", ["P1", "P2=2"]), ("ARCHS", ["x86_64", "arm64"]),
                    ("MACOSX_DEPLOYMENT_TARGET", "10.15"), ("GCC_SYMBOLS_PRIVATE_EXTERN", "YES"), ("DEAD_CODE_STRIPPING", "YES"), ("EXPORTED_SYMBOLS_FILE", "exp_%s.txt" % name),
                    ("CLANG_CXX_LANGUAGE_STANDARD", "c++17"), ("GCC_ENABLE_CPP_EXCEPTIONS", "NO"), ("OTHER_CPLUSPLUSFLAGS", ["$(OTHER_CFLAGS)", "-fq"])]
            for k, val in r.sample(more, r.choice([1, 3, 6, 10])):
                xs[k] = val
            if t.get("mac_bundle") and self.chance(0.5):
                xs["INFOPLIST_FILE"] = "info_%s.plist" % name
                p.files[join(d, "info_%s.plist" % name)] = "<plist></plist>\n"
            if t.get("mac_bundle") and t["type"] == "shared_library" and self.chance(0.5):
                t["mac_framework_headers"] = ["h1_%s.h" % name]
                p.files[join(d, "h1_%s.h" % name)] = "h\n"
            if self.chance(0.3):
                t.setdefault("link_settings", {}).setdefault("libraries", []).extend(["$(SDKROOT)/System/Library/Frameworks/F%s.framework" % r.choice("abc")])
        if self.chance(0.08) and t["type"] == "executable":
            t["run_as"] = {"action": ["./run", name], "environment": {"A": "1"}, "working_directory": "."}
        if self.chance(0.15):
            t["configurations"] = {"Debug": {"defines": ["T_DBG"]}, "Release": {"cflags": ["-O9"]}}
        if self.chance(0.1):
            t["msvs_guid"] = "5ECEC9E5-8F23-47B6-93E0-C3B328B3BE%02X" % self.n
        if self.chance(0.1) and "sources" in t:
            t["msvs_disabled_warnings"] = [4100, 4200]
        if self.chance(0.06) and t["type"] != "none":
            hdr = "%s_pch.h" % name
            src = "%s_pch.cc" % name
            p.files[join(d, hdr)] = "#define PCH\n"
            p.files[join(d, src)] = "#include \"%s\"\n" % hdr
            t["msvs_precompiled_header"] = hdr
            t["msvs_precompiled_source"] = src
            t["sources"] = t["sources"] + [src]
            xs = t.setdefault("xcode_settings", {})
            xs["GCC_PREFIX_HEADER"] = hdr
            xs["GCC_PRECOMPILE_PREFIX_HEADER"] = "YES"
        if not v:
            del t["variables"]


GEN_PY = """import sys
src, dst = sys.argv[1], sys.argv[2]
text = open(src).read()
open(dst, 'w').write('/* generated */\\n' + text)
"""


def project(seed, style="gen", **kw):
    return Gen(seed, style, **kw).project()

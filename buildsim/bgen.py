"""Random projects the stub tool chain can build, and random edits of them.

The model is a list of targets with their sources, headers, actions, rules, copies and dependencies;
render() turns it into gyp dictionaries and files.  Only projects that follow gyp's rules are made: a
target that includes a header another target generates depends on that target, which is of type none,
shared or marked hard_dependency; inputs of actions and rules are listed.
"""
import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pysim"))
import projgen  # noqa: E402
from projgen import rel, join  # noqa: E402

GEN = """# usage: gen.sh word input output...
# %s
set -e
w=$1; i=$2; shift 2
also=
while [ "$1" = --also ]; do also="$also $2"; shift 2; done
for o in "$@"; do { echo "/* made by %s $w */"; cat "$i" $also; } > "$o"; done
"""
FLAGS = ["-O2", "-g", "-Wall", "-ffoo", "-fbar", "-std=c11", "-pthread", "-W"]
DEFS = ["ALPHA", "BETA=1", "GAMMA=2", "NAME=value", "NDEBUG", "DELTA=\"str\"", "EPS=a b"]
LINKABLE = ("executable", "shared_library", "loadable_module")


class Target:
    def __init__(self, name, d, kind):
        self.name, self.dir, self.kind = name, d, kind
        self.file = None
        self.sources = []      # dict(path, incs, ver, sym)
        self.headers = {}      # path (relative to dir) -> dict(incs, ver)
        self.listed = []       # headers named in sources
        self.pub = None        # name of a public header
        self.pubver = 0
        self.actions = []
        self.rules = []
        self.copies = []
        self.deps = []         # target names
        self.exports = []
        self.defines = []
        self.cflags = []
        self.ldflags = []
        self.hard = False
        self.genpub = None     # generated header other targets may include
        self.toolset = None    # None, "host", "both"
        self.product = None
        self.standalone = False
        self.extra_incs = []
        self.linkscript = None
        self.cfgdefs = []


class Model:
    def __init__(self, r, fmt, loose=False):
        self.r = r
        # what a target depends on may be read by its steps without being named as an input of theirs: the
        # dependency is enough for the order, though not for building again
        self.loose = loose
        self.fmt = fmt
        self.targets = {}
        self.order = []
        self.script_ver = 0
        self.common = {"defines": [], "cflags": []}
        self.n = 0
        self.style = "plain"
        self.data = {}         # path -> version: plain data files
        self.configs = False
        self.buildtype = "Default"
        self.include_text = 0
        self.common_path = "common.gypi"  # included by all
        self.user_path = None  # include.gypi of the user, if there is one
        self.user = []

    def chance(self, x):
        return self.r.random() < x

    # -- making --------------------------------------------------------------
    def make(self, size=None):
        r = self.r
        self.style = r.choice(["plain", "plain", "genout", "outdir", "node"]) if self.fmt == "make" else r.choice(["plain", "plain", "genout", "outdir"])
        self.configs = self.style == "node" or self.chance(0.4)
        self.buildtype = r.choice(["Debug", "Release"]) if self.configs else "Default"
        dirs = ["", "lib", "app", "lib/deep"]
        nfiles = r.choice([1, 1, 2, 3])
        self.files = []
        for i in range(nfiles):
            d = "" if i == 0 else r.choice(dirs)
            if d in [x[0] for x in self.files]:
                continue
            self.files.append((d, join(d, "binding.gyp" if self.style == "node" and i == 0 else r.choice(["all", "core", "m"]) + ".gyp")))
        n = size or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        for _ in range(n):
            self.add_target()
        return self

    def visible(self, fi):
        """targets a target of gyp file number fi may depend on: same file earlier, or later files"""
        return [self.targets[n] for n in self.order if self.targets[n].fi >= fi]

    def add_target(self, kind=None):
        r = self.r
        self.n += 1
        # files are filled from the last to the first, so that dependencies go one way
        fi = r.randrange(len(self.files))
        d, f = self.files[fi]
        kind = kind or r.choices(["static_library", "shared_library", "loadable_module", "executable", "none"], [5, 2.5, 1.5, 3, 2])[0]
        t = Target(r.choice(["a", "lib", "gen", "prog", "util", "z"]) + str(self.n), d, kind)
        t.file, t.fi = f, fi
        cands = [a for a in self.visible(fi) if a.kind != "loadable_module"]
        if cands and self.chance(0.8):
            for a in r.sample(cands, min(len(cands), r.choice([1, 1, 2, 3]))):
                if a.toolset != "host":
                    t.deps.append(a.name)
        if kind == "executable" and self.chance(0.25) and all(self.ok_host(x) for x in self.closure(t)):
            t.toolset = "host"
            for x in self.closure(t):
                if self.targets[x].toolset is None:
                    self.targets[x].toolset = "both"
        if kind != "none":
            for _ in range(r.choice([1, 1, 2, 3])):
                self.add_source(t)
            if self.chance(0.5):
                t.pub = f"pub_{t.name}/{t.name}_pub.h"
        if self.chance(0.5):
            t.defines = r.sample(DEFS, r.randint(1, 2))
        if kind != "none" and self.chance(0.4):
            t.cflags = r.sample(FLAGS, r.randint(1, 2))
        if kind in LINKABLE and self.chance(0.3):
            t.ldflags = [r.choice(["-pthread", "-Wl,--as-needed", "-rdynamic"])]
        if self.configs and self.chance(0.3):
            t.cfgdefs = ["CFG_" + t.name]
        if kind != "none" and self.chance(0.15):
            t.product = "prod_" + t.name
        if kind == "static_library" and self.chance(0.25):
            t.standalone = True
        if t.toolset is None:
            if self.chance(0.55):
                for _ in range(r.choice([1, 1, 2])):
                    self.add_action(t)
            if kind != "none" and self.chance(0.3):
                self.add_rule(t)
            if self.chance(0.35):
                self.add_copy(t)
        self.targets[t.name] = t
        self.order.append(t.name)
        if t.deps and kind != "none" and self.chance(0.2):
            t.exports = [r.choice(t.deps)]
        # includes of what dependencies offer
        for s in t.sources:
            self.dep_includes(t, s)
        return t

    def closure(self, t):
        out, todo = [], list(t.deps)
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += self.targets[x].deps
        return out

    def ok_host(self, name):
        x = self.targets[name]
        return not x.actions and not x.rules and not x.copies and x.kind != "none"

    def offered(self, t):
        """headers of other targets that t's sources may include"""
        out = []
        seen = set()

        def visit(n, top):
            if n in seen:
                return
            seen.add(n)
            a = self.targets[n]
            if a.pub:
                out.append(f"{a.name}_pub.h")
            if a.genpub and (top or True):
                out.append(f"{a.genpub}")
            for e in a.exports:
                visit(e, False)
        for n in t.deps:
            visit(n, True)
        return out

    def dep_includes(self, t, s):
        for h in self.offered(t):
            if self.chance(0.6) and h not in s["incs"]:
                s["incs"].append(h)

    def add_source(self, t):
        r = self.r
        k = len(t.sources)
        while any(f"{t.name}_{k}." in s["path"] for s in t.sources):
            k += 1
        sub = r.choice(["", "", "src/"])
        s = {"path": f"{sub}{t.name}_{k}{r.choice(['.c', '.cc', '.c', '.cpp'])}", "incs": [], "ver": 0, "sym": f"{t.name}_{k}"}
        if self.chance(0.15):
            s["data"] = True
        if self.chance(0.08):
            s["bulk"] = r.choice([40, 400])
        if self.chance(0.6):
            h = f"{t.name}.h"
            if h not in t.headers:
                t.headers[h] = {"incs": [], "ver": 0}
                if self.chance(0.4):
                    t.headers[f"{t.name}_in.h"] = {"incs": [], "ver": 0}
                    t.headers[h]["incs"].append(f"{t.name}_in.h")
                if self.chance(0.5):
                    t.listed.append(h)
            s["incs"].append(("../" if sub else "") + h)
        t.sources.append(s)
        return s

    def tool_for(self, t):
        """an executable of the project to run in an action, or None for the script"""
        order = self.order.index(t.name) if t.name in self.order else len(self.order)
        cands = [a for a in self.visible(t.fi) if a.kind == "executable" and self.order.index(a.name) < order]
        if not cands or not self.chance(0.5):
            return None
        a = self.r.choice(cands)
        return a.name

    def add_action(self, t):
        r = self.r
        k = 1 + max([a["k"] for a in t.actions] or [0])
        tool = self.tool_for(t)
        a = {"k": k, "tool": tool, "in": f"{t.name}_{k}.tmpl", "ver": 0, "word": "w0", "kind": r.choice(["source", "header", "data", "both"]),
             "shared": self.chance(0.5), "extra_in": None, "chain": None, "message": self.chance(0.3)}
        if t.kind == "none" and a["kind"] in ("source", "both"):
            a["kind"] = "header"
        if tool and tool not in t.deps:
            t.deps.append(tool)
        if a["kind"] in ("header", "both") and t.genpub is None and self.chance(0.6):
            # visible to dependents
            a["shared"] = True
            a["pub"] = True
            t.genpub = f"{t.name}_g{k}.h"
            if t.kind == "static_library":
                t.hard = True
        if t.actions and self.chance(0.3):
            a["chain"] = t.actions[-1]["k"]
        elif self.chance(0.25):
            ups = [(x.name, b["k"]) for x in (self.targets[n] for n in t.deps if n in self.targets) for b in x.actions
                   if b["shared"] and (x.kind != "static_library" or x.hard or t.kind != "static_library")]
            if ups:
                a["chain"] = list(r.choice(ups))
        if self.loose:
            a["undeclared"] = self.chance(0.5)
            prods = [x.name for x in (self.targets[n] for n in t.deps if n in self.targets) if x.kind in LINKABLE and x.toolset is None]
            outs = [(x.name, b["k"]) for x in (self.targets[n] for n in t.deps if n in self.targets) for b in x.actions
                    if b["shared"] and (x.kind != "static_library" or x.hard or t.kind != "static_library")]
            if a["tool"] is None and (prods or outs) and self.chance(0.5):
                a["also"] = r.choice(prods + outs)
            if t.kind in LINKABLE and a["kind"] == "data" and self.chance(0.5):
                t.linkscript = (t.name, k)
            elif t.kind in LINKABLE and outs and self.chance(0.15):
                t.linkscript = r.choice(outs)
        if a["tool"] is None:
            a["more"] = self.more(f"{t.name}_{k}m")
        t.actions.append(a)
        if a["kind"] in ("header", "both"):
            for s in t.sources:
                if self.chance(0.6):
                    s["incs"].append(self.genheader(t, a))
        return a

    def more(self, base):
        """further files the script reads"""
        n = self.r.choice([0, 0, 0, 1, 2, 3, 7, 12])
        return [{"path": f"{base}{i}.{self.r.choice(['txt', 'def', 'h'])}", "ver": 0} for i in range(n)]

    def genheader(self, t, a):
        return f"{t.name}_g{a['k']}.h"

    def add_rule(self, t):
        k = 1 + max([x["k"] for x in t.rules] or [0])
        tool = self.tool_for(t)
        if tool and tool not in t.deps:
            t.deps.append(tool)
        ru = {"k": k, "tool": tool, "ins": [{"path": f"{t.name}_r{k}{i}.in{k}", "ver": 0} for i in range(self.r.choice([1, 1, 2]))],
              "word": "w0", "header": self.chance(0.4)}
        if tool is None:
            ru["more"] = self.more(f"{t.name}_r{k}m")
        if self.loose:
            ru["undeclared"] = self.chance(0.5)
        t.rules.append(ru)
        if ru["header"]:
            for s in t.sources:
                if self.chance(0.5):
                    s["incs"].append(f"{t.name}_r{k}{self.r.randrange(len(ru['ins']))}.h")
        return ru

    def add_copy(self, t):
        r = self.r
        k = len(t.copies) + 1
        fs = []
        for i in range(r.choice([1, 2])):
            f = f"data/{t.name}_{k}{i}.txt"
            self.data[join(t.dir, f)] = 0
            fs.append(["data", f])
        prods = [a for a in (self.targets[n] for n in t.deps if n in self.targets) if a.kind in LINKABLE and a.toolset is None]
        if prods and self.chance(0.5):
            fs.append(["product", r.choice(prods).name])
        acts = [a for a in t.actions if a["kind"] == "data"]
        if acts and self.chance(0.5):
            fs.append(["gen", r.choice(acts)["k"]])
        c = {"k": k, "files": fs, "header": False}
        if t.kind != "none" and self.chance(0.3):
            h = f"cp_{t.name}_{k}.h"
            self.data[join(t.dir, "data/" + h)] = 0
            c["header"] = h
            for s in t.sources:
                if self.chance(0.6):
                    s["incs"].append(h)
        t.copies.append(c)
        return c

    # -- rendering -----------------------------------------------------------
    def dep_ref(self, t, name):
        a = self.targets[name]
        ref = a.name if a.file == t.file else f"{rel(a.file, t.dir)}:{a.name}"
        if a.toolset == "host" and t.toolset is None:
            ref += "#host"
        return ref

    def product_path(self, a):
        base = a.product or a.name
        if a.kind == "executable":
            return "<(PRODUCT_DIR)/<(EXECUTABLE_PREFIX)%s<(EXECUTABLE_SUFFIX)" % base
        n = base if a.product or not base.startswith("lib") else base[3:]
        ext = ".node" if self.style == "node" and a.kind == "loadable_module" else ".so"
        pre = "" if self.style == "node" else "lib"
        if self.fmt == "ninja" and a.kind == "shared_library":
            return "<(PRODUCT_DIR)/lib/%s%s%s" % (pre, n, ext)
        return "<(PRODUCT_DIR)/%s%s%s" % (pre, n, ext)

    def act_out(self, t, a):
        base = "<(SHARED_INTERMEDIATE_DIR)/%s_dir" % t.name if a["shared"] else "<(INTERMEDIATE_DIR)"
        ext = {"source": [".c"], "header": [".h"], "data": [".dat"], "both": [".c", ".h"]}[a["kind"]]
        return [f"{base}/{t.name}_g{a['k']}{e}" for e in ext], base

    def render(self):
        gyp, files = {}, {}
        for d, f in self.files:
            gyp[f] = {"targets": []}
        used = {t.file for t in self.targets.values()}
        gyp = {f: v for f, v in gyp.items() if f in used}
        tools = "tools/gen.sh"
        files[tools] = GEN % (f"version {self.script_ver}", f"script{self.script_ver}")
        for n in self.order:
            t = self.targets[n]
            gyp[t.file]["targets"].append(self.render_target(t, files, tools))
        for p, v in self.data.items():
            files[p] = f"data {p} {v}\n"
        td = {}
        if self.common["defines"]:
            td["defines"] = list(self.common["defines"])
        if self.common["cflags"]:
            td["cflags"] = list(self.common["cflags"])
        if self.configs:
            td["default_configuration"] = "Release"
            td["configurations"] = {"Debug": {"defines": ["DEBUG"], "cflags": ["-O0"]}, "Release": {"defines": ["NDEBUG2"], "cflags": ["-O3"]}}
        gyp[self.common_path] = {"variables": {"comment": f"v{self.include_text}"}, "target_defaults": td}
        if self.style == "node":
            gyp["build/config.gypi"] = {"target_defaults": {"cflags": [], "default_configuration": "Release", "defines": [], "include_dirs": [], "libraries": []},
                                        "variables": {"node_engine": "v8", "standalone_static_library": 1, "target_arch": "x64"}}
        if self.user_path:
            gyp[self.user_path] = {"target_defaults": {"defines": ["USER"] + self.user}}
        tops = [f for _, f in self.files if f in gyp]
        return gyp, files, tops

    def also_path(self, x):
        """a product of a target, or what an action makes"""
        if not x:
            return None
        if isinstance(x, str):
            return self.product_path(self.targets[x]) if x in self.targets else None
        t = self.targets.get(x[0])
        b = next((b for b in t.actions if b["k"] == x[1]), None) if t else None
        return self.act_out(t, b)[0][0] if b else None

    def more_files(self, a, d, files):
        for m in a.get("more") or []:
            files[join(d, m["path"])] = f"int {m['path'].split('.')[0]}_v{m['ver']};\n"
        return [m["path"] for m in a.get("more") or []]

    @staticmethod
    def also_args(paths):
        return [x for p in paths for x in ("--also", p)]

    def render_target(self, t, files, script):
        d = t.dir
        o = {"target_name": t.name, "type": t.kind}
        if t.toolset == "host":
            o["toolsets"] = ["host"]
        elif t.toolset == "both":
            o["toolsets"] = ["host", "target"]
        if t.deps:
            o["dependencies"] = [self.dep_ref(t, n) for n in t.deps]
        ex = [e for e in t.exports if e in t.deps]
        if ex:
            o["export_dependent_settings"] = [self.dep_ref(t, n) for n in ex]
        incdirs = []
        src = []
        for s in t.sources:
            src.append(s["path"])
            text = "".join(f'#include "{i}"\n' for i in s["incs"])
            text += "".join(f"int {s['sym']}_{i};\n" for i in range(s.get("bulk", 0)))
            text += f"{'data' if s.get('data') else 'int'} {s['sym']};\n// v{s['ver']}\n"
            files[join(d, s["path"])] = text
        for h, hd in t.headers.items():
            files[join(d, h)] = "".join(f'#include "{i}"\n' for i in hd["incs"]) + f"#define H_{t.name} {hd['ver']}\n"
        src += t.listed
        if t.pub:
            files[join(d, t.pub)] = f"#define PUB_{t.name} {t.pubver}\n"
            incdirs.append("pub_" + t.name)
        if t.defines:
            o["defines"] = list(t.defines)
        if t.cflags:
            o["cflags"] = list(t.cflags)
        if t.ldflags:
            o["ldflags"] = list(t.ldflags)
        ls = self.also_path(t.linkscript)
        if ls:
            o["ldflags"] = o.get("ldflags", []) + ["-Wl,--version-script=" + ls]
        if t.cfgdefs:
            o["configurations"] = {"Release": {"defines": list(t.cfgdefs)}, "Debug": {"defines": [x + "_D" for x in t.cfgdefs]}}
        if t.product:
            o["product_name"] = t.product
        if t.standalone:
            o["standalone_static_library"] = 1
        elif self.style == "node" and t.kind == "static_library":
            o["standalone_static_library"] = 0
        if t.hard:
            o["hard_dependency"] = 1
        acts = []
        sp = rel(script, d)
        for a in t.actions:
            outs, base = self.act_out(t, a)
            if a["chain"] is None:
                inp = a["in"]
                files[join(d, inp)] = f"int {t.name}_g{a['k']}_v{a['ver']};\n"
            elif isinstance(a["chain"], list):
                x = self.targets.get(a["chain"][0])
                b = next((b for b in x.actions if b["k"] == a["chain"][1]), None) if x else None
                inp = self.act_out(x, b)[0][0] if b else None
            else:
                b = next((b for b in t.actions if b["k"] == a["chain"]), None)
                inp = self.act_out(t, b)[0][0] if b else None
            if inp is None:
                inp = a["in"]
                files[join(d, inp)] = f"int {t.name}_g{a['k']}_v{a['ver']};\n"
            if a["tool"] in self.targets:
                tp = self.product_path(self.targets[a["tool"]])
                act = {"inputs": [inp] + ([] if a.get("undeclared") else [tp]), "action": [tp, inp, "--out"] + outs}
            else:
                also = self.also_path(a.get("also"))
                if also == inp:
                    also = None    # gyp keeps one of two equal words
                more = self.more_files(a, d, files)
                act = {"inputs": [inp, sp] + more, "action": ["sh", sp, a["word"], inp] + self.also_args(([also] if also else []) + more) + outs}
            act = {"action_name": f"act_{t.name}_{a['k']}", "outputs": outs, **act}
            if a["kind"] in ("source", "both"):
                act["process_outputs_as_sources"] = 1
            if a["message"]:
                act["message"] = f"Generating {t.name} {a['word']}"
            acts.append(act)
            if a["kind"] in ("header", "both") and base not in incdirs:
                incdirs.append(base)
        if acts:
            o["actions"] = acts
        rules = []
        for ru in t.rules:
            outs = ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"] + (["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).h"] if ru["header"] else [])
            for i in ru["ins"]:
                files[join(d, i["path"])] = f"int {i['path'].split('.')[0]}_v{i['ver']};\n"
                src.append(i["path"])
            if ru["tool"] in self.targets:
                tp = self.product_path(self.targets[ru["tool"]])
                x = {"inputs": [] if ru.get("undeclared") else [tp], "action": [tp, "<(RULE_INPUT_PATH)", "--out"] + outs}
            else:
                more = self.more_files(ru, d, files)
                x = {"inputs": [sp] + more, "action": ["sh", sp, ru["word"], "<(RULE_INPUT_PATH)"] + self.also_args(more) + outs}
            rules.append({"rule_name": f"rule_{t.name}_{ru['k']}", "extension": f"in{ru['k']}", "outputs": outs, "process_outputs_as_sources": 1, **x})
            if ru["header"] and "<(INTERMEDIATE_DIR)" not in incdirs:
                incdirs.append("<(INTERMEDIATE_DIR)")
        if rules:
            o["rules"] = rules
        cps = []
        for c in t.copies:
            fs = []
            for kind, f in c["files"]:
                if kind == "data":
                    fs.append(f)
                elif kind == "product":
                    if f in self.targets and f in t.deps and self.targets[f].kind in LINKABLE:
                        fs.append(self.product_path(self.targets[f]))
                else:
                    b = next((b for b in t.actions if b["k"] == f), None)
                    if b:
                        fs.append(self.act_out(t, b)[0][0])
            if fs:
                cps.append({"destination": f"<(PRODUCT_DIR)/res_{t.name}_{c['k']}", "files": fs})
            if c["header"]:
                cps.append({"destination": f"<(SHARED_INTERMEDIATE_DIR)/hdr_{t.name}", "files": ["data/" + c["header"]]})
                x = f"<(SHARED_INTERMEDIATE_DIR)/hdr_{t.name}"
                if x not in incdirs:
                    incdirs.append(x)
        if cps:
            o["copies"] = cps
        dd = []
        if t.pub:
            dd.append("pub_" + t.name)
        if t.genpub:
            dd.append("<(SHARED_INTERMEDIATE_DIR)/%s_dir" % t.name)
        if dd:
            o["direct_dependent_settings"] = {"include_dirs": dd}
        incdirs += t.extra_incs
        if incdirs:
            o["include_dirs"] = incdirs
        if src:
            o["sources"] = src
        if t.kind != "none" and not t.sources and not any(a.get("process_outputs_as_sources") for a in acts) and not rules:
            files[join(d, f"{t.name}_empty.c")] = f"int {t.name}_empty;\n"
            o["sources"] = src + [f"{t.name}_empty.c"]
        return o

    # -- editing -------------------------------------------------------------
    def edit(self):
        """one random change; returns (description, paths to touch)"""
        r = self.r
        for _ in range(40):
            if self.user_path and self.chance(0.15):
                return self.e_user()
            what = r.choice(["source", "source", "header", "pub", "input", "script", "data", "newinc", "delinc", "addsrc", "delsrc", "flags", "common",
                             "word", "addact", "delact", "adddep", "newtarget", "deltarget", "touch", "ext", "kind", "outname", "comment", "addrule",
                             "addcopy", "delcopy", "rule", "product", "ldflags", "deldep", "more", "more", "delmore"])
            t = self.targets[r.choice(self.order)]
            x = getattr(self, "e_" + what)(t)
            if x:
                return x
        return "nothing", []

    def e_source(self, t):
        if t.sources:
            s = self.r.choice(t.sources)
            s["ver"] += 1
            if self.chance(0.3):
                s["sym"] += "x"
            elif self.chance(0.2):
                s["data"] = not s.get("data")
            return f"source {s['path']}", []

    def e_header(self, t):
        if t.headers:
            h = self.r.choice(sorted(t.headers))
            t.headers[h]["ver"] += 1
            return f"header {h}", []

    def e_pub(self, t):
        if t.pub:
            t.pubver += 1
            return f"public header of {t.name}", []

    def e_input(self, t):
        if t.actions:
            a = self.r.choice(t.actions)
            a["ver"] += 1
            return f"input of action {a['k']} of {t.name}", []

    def e_more(self, t):
        x = [m for a in t.actions + t.rules for m in a.get("more") or []]
        if x:
            m = self.r.choice(x)
            m["ver"] += 1
            return f"further input {m['path']}", []

    def e_delmore(self, t):
        x = [a for a in t.actions + t.rules if a.get("more")]
        if x:
            a = self.r.choice(x)
            m = a["more"].pop(self.r.randrange(len(a["more"])))
            return f"no input {m['path']}", []

    def e_script(self, t):
        self.script_ver += 1
        return "script", []

    def e_data(self, t):
        if self.data:
            p = self.r.choice(sorted(self.data))
            self.data[p] += 1
            return f"data {p}", []

    def e_newinc(self, t):
        if not t.sources:
            return None
        s = self.r.choice(t.sources)
        have = self.offered(t)
        have = [h for h in have if h not in s["incs"]]
        if have and self.chance(0.5):
            h = self.r.choice(have)
            s["incs"].append(h)
            return f"{s['path']} includes {h}", []
        h = f"{t.name}_n{len(t.headers)}.h"
        if h in t.headers:
            return None
        t.headers[h] = {"incs": [], "ver": 0}
        s["incs"].append(("../" if s["path"].startswith("src/") else "") + h)
        return f"{s['path']} includes new {h}", []

    def e_delinc(self, t):
        if not t.headers:
            return None
        h = self.r.choice(sorted(t.headers))
        for s in t.sources:
            s["incs"] = [i for i in s["incs"] if i not in (h, "../" + h)]
        for x in t.headers.values():
            x["incs"] = [i for i in x["incs"] if i != h]
        t.listed = [x for x in t.listed if x != h]
        del t.headers[h]
        return f"deleted {h}", []

    def e_addsrc(self, t):
        if t.kind == "none":
            return None
        s = self.add_source(t)
        self.dep_includes(t, s)
        return f"added {s['path']}", []

    def e_delsrc(self, t):
        if len(t.sources) < 2:
            return None
        s = t.sources.pop(self.r.randrange(len(t.sources)))
        return f"removed {s['path']}", []

    def e_flags(self, t):
        f = self.r.choice(DEFS + ["NEW=%d" % self.r.randrange(3)])
        if f in t.defines:
            t.defines.remove(f)
        else:
            t.defines.append(f)
        return f"define {f} of {t.name}", []

    def e_ldflags(self, t):
        if t.kind in LINKABLE:
            f = self.r.choice(["-pthread", "-Wl,--as-needed", "-rdynamic", "-Wl,-z,now"])
            if f in t.ldflags:
                t.ldflags.remove(f)
            else:
                t.ldflags.append(f)
            return f"ldflag {f} of {t.name}", []

    def e_common(self, t):
        f = self.r.choice(["C1", "C2=2"])
        c = self.common["defines"]
        if f in c:
            c.remove(f)
        else:
            c.append(f)
        return f"common define {f}", []

    def e_user(self):
        f = self.r.choice(["U1", "U2=2"])
        if f in self.user:
            self.user.remove(f)
        else:
            self.user.append(f)
        return f"define {f} in the include.gypi of the user", []

    def e_comment(self, t):
        self.include_text += 1
        return "gypi without effect", []

    def e_word(self, t):
        if t.actions:
            a = self.r.choice(t.actions)
            a["word"] = "w%d" % self.r.randrange(100)
            return f"command of action {a['k']} of {t.name}", []

    def e_rule(self, t):
        if t.rules:
            ru = self.r.choice(t.rules)
            if self.chance(0.5):
                ru["word"] = "w%d" % self.r.randrange(100)
                return f"command of rule of {t.name}", []
            i = self.r.choice(ru["ins"])
            i["ver"] += 1
            return f"rule input {i['path']}", []

    def e_addact(self, t):
        if t.toolset is None:
            a = self.add_action(t)
            return f"added action {a['k']} to {t.name}", []

    def e_addrule(self, t):
        if t.toolset is None and t.kind != "none":
            a = self.add_rule(t)
            return f"added rule {a['k']} to {t.name}", []

    def e_addcopy(self, t):
        if t.toolset is None and not t.copies:
            self.add_copy(t)
            return f"added copies to {t.name}", []

    def e_delcopy(self, t):
        if t.copies:
            c = t.copies.pop()
            if c["header"]:
                for s in t.sources:
                    s["incs"] = [i for i in s["incs"] if i != c["header"]]
            return f"removed copies of {t.name}", []

    def e_delact(self, t):
        if not t.actions:
            return None
        a = self.r.choice(t.actions)
        h = self.genheader(t, a)
        if t.genpub == h:
            return None
        for x in self.targets.values():
            for b in x.actions:
                if b["chain"] == [t.name, a["k"]] or (x is t and b["chain"] == a["k"]):
                    return None
        t.actions.remove(a)
        for s in t.sources:
            s["incs"] = [i for i in s["incs"] if i != h]
        return f"removed action {a['k']} of {t.name}", []

    def e_adddep(self, t):
        c = [a for a in self.visible(t.fi) if a.name != t.name and a.name not in t.deps and a.kind != "loadable_module" and a.toolset is None
             and self.order.index(a.name) < self.order.index(t.name)]
        if c and t.toolset is None:
            a = self.r.choice(c)
            t.deps.append(a.name)
            for s in t.sources:
                self.dep_includes(t, s)
            return f"{t.name} depends on {a.name}", []

    def e_deldep(self, t):
        c = [n for n in t.deps if not any(a["tool"] == n or (isinstance(a["chain"], list) and a["chain"][0] == n) for a in t.actions)
             and not any(ru["tool"] == n for ru in t.rules) and not self.targets[n].exports and n not in t.exports
             and not any(["product", n] in c["files"] for c in t.copies)]
        if not c or any(t.name in x.deps for x in self.targets.values()):
            return None
        n = self.r.choice(c)
        gone = {f"{n}_pub.h", self.targets[n].genpub}
        t.deps.remove(n)
        keep = set(self.offered(t))
        for s in t.sources:
            s["incs"] = [i for i in s["incs"] if i not in gone or i in keep]
        return f"{t.name} no longer depends on {n}", []

    def e_newtarget(self, t):
        if len(self.order) < 8:
            t = self.add_target()
            return f"new target {t.name} ({t.kind})", []

    def e_deltarget(self, t):
        if len(self.order) < 2 or any(t.name in x.deps for x in self.targets.values()):
            return None
        left = {x.file for x in self.targets.values() if x is not t}
        if self.files[0][1] not in left:
            return None
        self.order.remove(t.name)
        del self.targets[t.name]
        return f"deleted target {t.name}", []

    def e_touch(self, t):
        gyp, files, _ = self.render()
        p = self.r.choice(sorted(files) + sorted(gyp))
        return f"touch {p}", [p]

    def e_ext(self, t):
        # (for make a known finding ends the history there: not too often)
        if t.sources and self.r.random() < 0.5:
            s = self.r.choice(t.sources)
            base, ext = s["path"].rsplit(".", 1)
            s["path"] = base + "." + self.r.choice([e for e in ("c", "cc", "cpp") if e != ext])
            return f"renamed to {s['path']}", []

    def e_kind(self, t):
        if t.kind in ("static_library", "shared_library") and t.toolset is None and not t.hard and not t.genpub:
            if any(["product", t.name] in c["files"] for x in self.targets.values() for c in x.copies):
                return None
            t.kind = "shared_library" if t.kind == "static_library" else "static_library"
            t.standalone = False
            # static libraries do not wait for static ones: nothing may use what only an order of theirs gives
            for x in self.targets.values():
                for a in x.actions:
                    if isinstance(a["chain"], list) and a["chain"][0] == t.name:
                        t.hard = True
            if any(a["shared"] for a in t.actions):
                t.hard = True
            return f"{t.name} is a {t.kind}", []

    def e_outname(self, t):
        c = [a for a in t.actions if a["kind"] in ("source", "data")]
        if c:
            a = self.r.choice(c)
            if a["kind"] == "data" and not any(["gen", a["k"]] in x["files"] for x in t.copies):
                pass
            a["shared"] = not a["shared"]
            if not a["shared"] and any(b["chain"] == [t.name, a["k"]] for x in self.targets.values() for b in x.actions):
                a["shared"] = True
                return None
            return f"output of action {a['k']} of {t.name} moved", []

    def e_product(self, t):
        if t.kind != "none":
            t.product = None if t.product else "prod_" + t.name
            return f"product name of {t.name}", []


def rendered(m):
    gyp, files, tops = m.render()
    return {"gyp": copy.deepcopy(gyp), "files": dict(files), "tops": list(tops)}


def changes(a, b):
    """what turns state a into state b"""
    out = {"gyp": {}, "files": {}}
    for k in ("gyp", "files"):
        for p in sorted(set(a[k]) | set(b[k])):
            if a[k].get(p) != b[k].get(p):
                out[k][p] = b[k].get(p)
    return out


def text(state):
    out = {p: projgen.render(d) for p, d in state["gyp"].items()}
    out.update(state["files"])
    return out


def arguments(m, sub=""):
    fmt = m.fmt
    args = ["-f", fmt]
    if m.style == "node":
        return args + ["-I", "build/config.gypi", "-I", "@REPO@/addon.gypi", "-I", m.common_path, "-Dlibrary=shared_library", "-Dvisibility=default",
                       "-Dnode_root_dir=@ROOT@/noderoot", "-Dnode_gyp_dir=@REPO@", "-Dnode_lib_file=x", "-Dmodule_root_dir=@ROOT@" + ("/" + sub if sub else ""),
                       "-Dnode_engine=v8", "--depth=.", "--no-parallel", "--generator-output", "build", "-Goutput_dir=."], "build"
    args += ["-I", m.common_path, "--depth", "."]
    if m.style == "genout":
        return args + ["--generator-output", "gen"], "gen"
    if m.style == "outdir":
        return args + ["-G", "output_dir=bld"], ""
    return args, ""


def scenario(seed, fmt, edits=0, size=None, loose=False):
    r = random.Random(seed)
    m = Model(r, fmt, loose).make(size)
    # is what all include in a directory of its own, outside the project (as with the headers of node)?
    sub = "proj" if random.Random(seed + ":sub").random() < 0.5 else ""
    if sub:
        m.common_path = "../noderoot/include/node/common.gypi" if m.style == "node" else "../common.gypi"
    args, mdir = arguments(m, sub)
    ru = random.Random(seed + ":user")
    env = {}
    if ru.random() < 0.3:
        up = "../" if sub else ""
        how = ru.choice(["home", "home", "option", "env"])
        m.user_path = up + (".nohome/.gyp" if how == "home" else "cfg") + "/include.gypi"
        if how == "option":
            args += ["--config-dir", up + "cfg"]
        elif how == "env":
            env["GYP_CONFIG_DIR"] = "@ROOT@/cfg"
    s0 = rendered(m)
    spec = {"fmt": fmt, "style": m.style, "args": args, "start": s0, "makedir": mdir, "buildtype": m.buildtype, "edits": [], "sub": sub, "env": env,
            "nolink": random.Random(seed + ":nolink").random() < 0.4}
    outdir = {"plain": "out", "genout": "gen/out", "outdir": "bld", "node": "build"}[m.style]
    spec["outdir"] = outdir
    state = s0
    for _ in range(edits):
        descs, touch = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            d, p = m.edit()
            descs.append(d)
            touch += p
        new = rendered(m)
        spec["edits"].append({"what": descs, "change": changes(state, new), "tops": new["tops"], "touch": touch})
        state = new
    return spec

"""C23: the helper steps of the build produce their outputs, whole, from their inputs alone."""
import copy
import json
import os
import plistlib
import re
import stat
import struct

import simlib
from props import common
from props.c18 import child

COUNTS = {"quick": 6000, "thorough": 200000}
SECONDS = {"quick": 100, "thorough": 600}
RULE = ("each case is one helper step with its inputs, what was at its destination before, and a failing or fatal file operation; then the step again without it; "
        "distinct = different inputs, state before and fault")
REAL = ["mac_tool.py and win_tool.py, run as __main__", "the files of a scratch directory"]
STUB = ["the file operations as the simulator lets them through (failures, death in the middle, lost buffers, read-only files of Windows)", "commands started by the step (plutil, ibtool)"]
PYLIB = os.path.join(simlib.REPO, "gyp", "pylib", "gyp")
ENV = {"PATH": "/usr/bin:/bin", "HOME": "/nohome", "LANG": "C.UTF-8"}
NAMES = ["a.txt", "b c.h", "ü.png", "x.y.z", "README", "#h", ".hidden", "it's.bin", "$d", "data.json"]
WORDS = ["hello", "", "x" * 9000, "line\nline\n", "ü€", "\0\1\2", "a=b", "<&>"]
ERRORS = ["ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE", "EROFS"]
VALUES = ["App", "com.example.My App", "a b/c_d", "1.0", "x-y", "10.13", "ünï"]


def tree(r, depth=2):
    out = {}
    for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5])):
        if depth and r.random() < 0.3:
            out[n] = tree(r, depth - 1)
        else:
            out[n] = [r.choice(WORDS) + str(r.randint(0, 9)), r.choice([0o644, 0o644, 0o755, 0o444])]
    return out


def afile(r):
    return [r.choice(WORDS) + str(r.randint(0, 9)), r.choice([0o644, 0o644, 0o755, 0o444])]


def change(r, x):
    """what an earlier run made of other inputs, or left half made"""
    y = copy.deepcopy(x)
    if isinstance(y, dict):
        for k in list(y):
            p = r.random()
            if p < 0.2:
                del y[k]
            elif p < 0.5:
                y[k] = change(r, y[k])
        if r.random() < 0.5:
            y["stale" + str(r.randint(0, 3))] = r.choice([afile(r), {}, {"deep": afile(r)}])
        return y
    return [y[0][:len(y[0]) // 2], r.choice([0o644, 0o444])] if r.random() < 0.5 else afile(r)


def value(r, depth=1):
    k = r.random()
    if k < 0.5:
        return r.choice(VALUES)
    if k < 0.62:
        return "${%s}" % r.choice(["PRODUCT_NAME", "EXECUTABLE_NAME", "BUNDLE_ID"]) + r.choice(["", "-x", ":identifier"])
    if k < 0.7:
        return "v ${PRODUCT_NAME%s} w" % r.choice(["", ":identifier", ":rfc1034identifier"])
    if k < 0.76:
        return "${NOT_SET}"
    if k < 0.84:
        return r.choice([True, False, 3, 1.5])
    if depth and k < 0.92 or depth > 1:
        return {f"K{i}": value(r, depth - 1) for i in range(r.randint(0, 3))}
    return [r.choice(VALUES) for _ in range(r.randint(0, 3))]


def nest(r, depth):
    """dictionaries whose keys meet those of another such"""
    return {k: nest(r, depth - 1) if depth and r.random() < 0.85 else r.choice(VALUES) for k in r.sample("ABC", r.randint(1, 2))}


TOOLS = ["stamp", "recursive-mirror", "recursive-mirror", "recursive-mirror", "manifest-to-rc", "copy-bundle-resource", "copy-bundle-resource", "copy-info-plist", "merge-info-plist",
         "package-framework", "package-framework", "package-ios-framework", "copy-ios-framework-headers", "compile-ios-framework-header-map", "xib"]


def scenario(seed):
    r = common.rng(seed)
    tool = r.choice(TOOLS)
    s = {"tool": tool, "seed": r.randint(0, 1 << 30), "platform": "win32" if tool in ("stamp", "recursive-mirror", "manifest-to-rc") else "darwin", "env": {}, "status": 0, "lines": []}
    if tool == "recursive-mirror":
        s["src"] = tree(r) if r.random() < 0.6 else afile(r)
        s["prior"] = r.choice([None, change(r, s["src"]), change(r, s["src"]), s["src"], tree(r), afile(r), {}])
    elif tool == "copy-bundle-resource":
        s["name"] = r.choice(["img.png", "my res.txt", "Loc.plist", "en.lproj", "data.strings", "x.PLIST"])
        s["binary"] = r.choice(["True", "False"]) if not s["name"].endswith(".strings") else "True"
        s["src"] = tree(r) if s["name"] == "en.lproj" else afile(r)
        s["prior"] = r.choice([None, change(r, s["src"]), s["src"]])
        s["status"] = r.choice([0, 0, 0, 1, -9])
    elif tool == "stamp":
        s["prior"] = r.choice([None, "", "old"])
    elif tool == "manifest-to-rc":
        s["prior"] = r.choice([None, "old text that is longer than what is written now " * 9])
        s["res"] = r.choice(["1", "2"])
        s["name"] = r.choice(["a.manifest", "sub dir/app.exe.manifest"])
    elif tool in ("copy-info-plist", "merge-info-plist"):
        s["plists"] = [{f"K{r.randint(0, 5)}": value(r, 3 if tool[0] == "m" and r.random() < 0.5 else 1) for _ in range(r.randint(1, 6))} for _ in range(r.randint(1, 4) if tool[0] == "m" else 1)]
        if tool[0] == "m" and r.random() < 0.5:
            for p in s["plists"]:
                p["N"] = nest(r, 3)
        s["prior"] = r.choice([None, "old" * 999])
        if tool == "copy-info-plist":
            s["plists"][0]["CFBundlePackageType"] = r.choice(["APPL", "APPL", "FMWK", "BNDL"])
            if r.random() < 0.5:
                s["plists"][0]["CFBundleSignature"] = r.choice(["ABCD", "toolong", "x"])
            s["keys"] = r.choice([None, {}, {"BuildMachineOSBuild": "17A1"}, {"K1": "extra", "DTXcode": "0900"}])
            s["binary"] = r.choice(["True", "False", "False"])
            s["status"] = r.choice([0, 0, 0, 1]) if s["binary"] == "True" else 0
            s["env"] = {k: r.choice(VALUES) for k in ("PRODUCT_NAME", "EXECUTABLE_NAME", "BUNDLE_ID") if r.random() < 0.85}
        else:
            s["fmt"] = [r.choice(["xml", "xml", "bin"]) for _ in s["plists"]]
    elif tool == "package-framework":
        s["version"] = r.choice(["A", "B", "1.0"])
        s["made"] = r.random() < 0.85
        s["links"] = {k: r.choice([None, None, "right", "wrong", "file"]) for k in ("Current", "binary", "Resources")}
    elif tool == "package-ios-framework":
        s["prior"] = r.choice([None, "dir", "old"])
    elif tool == "copy-ios-framework-headers":
        s["headers"] = {n + ".h": afile(r) for n in r.sample(["a", "b c", "Ünï", "sub/d", "sub/deep/e", "F"], r.randint(1, 5))}
        s["prior"] = r.choice([None, {}, {n: afile(r) for n in r.sample(["a.h", "F.h", "old.h", "d.h"], 2)}])
    elif tool == "compile-ios-framework-header-map":
        pool = ["Foo.h", "foo_bar.h", "sub/Baz.h", "Ünï.h", "a b.h"] + [f"h{i}.h" for i in range(40)] + ["".join(x) + ".h" for x in ("ab", "ba", "Ab2", "c1a")]
        s["headers"] = r.sample(pool, r.choice([1, 2, 3, 7, 8, 15, 16, 20]))
        s["prior"] = r.choice([None, "old" * 500])
    elif tool == "xib":
        s["lines"] = [r.choice(["/* com.apple.ibtool.document.warnings */", "x.xib:12: warning: something", "x.xib:3: note: Label is clipping its content", "/* com.apple.ibtool.errors */", "ünï: error"])
                      for _ in range(r.choice([0, 1, 3, 6]))]
        s["status"] = r.choice([0, 0, 0, 1, 2])
        s["env"] = {"XCODE_VERSION_ACTUAL": r.choice(["0600", "0940"]), "MACOSX_DEPLOYMENT_TARGET": "10.9"}
        s["name"] = r.choice(["Main.xib", "My Main.storyboard"])
    s["fault"] = None
    if r.random() < 0.7:
        s["fault"] = {"at": r.random(), "kind": r.random() if r.random() < 0.6 else None, **({"errno": r.choice(ERRORS)} if r.random() < 0.5 else {"kill": r.choice(["before", "after", "torn"])})}
    return s


# -- the files -------------------------------------------------------------
def put(path, x, mtime=1500000000):
    if isinstance(x, dict):
        os.mkdir(path)
        for k, v in x.items():
            put(os.path.join(path, k), v, mtime)
        return
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(x[0])
    os.chmod(path, x[1])
    os.utime(path, (mtime, mtime))


def look(path, times=False):
    """what is at path: None, a link, [content, mode], or a dictionary"""
    try:
        st = os.lstat(path)
    except OSError:
        return None
    if stat.S_ISLNK(st.st_mode):
        return "-> " + os.readlink(path)
    if stat.S_ISDIR(st.st_mode):
        return {n: look(os.path.join(path, n), times) for n in sorted(os.listdir(path))}
    with open(path, "rb") as f:
        return [f.read().decode("utf-8", "surrogateescape"), st.st_mode & 0o777] + ([int(st.st_mtime)] if times else [])


def stamped(x, t):
    return {k: stamped(v, t) for k, v in sorted(x.items())} if isinstance(x, dict) else list(x) + [t]


MAC = {"xib": "copy-bundle-resource"}


def layout(s, root):
    """makes the files; returns (arguments, destinations, oracle: a function giving what is wrong or None)"""
    j = lambda *a: os.path.join(root, *a)
    tool = s["tool"]
    os.mkdir(j("in"))
    os.mkdir(j("out"))
    os.mkdir(j("tmp"))
    put(j("out", "bystander"), {"keep.txt": ["keep", 0o644], "d": {"x": ["y", 0o444]}})
    put(j("in", "bystander.txt"), ["keep", 0o600])
    if tool == "stamp":
        if s["prior"] is not None:
            put(j("out/a.stamp"), [s["prior"], 0o644])
        return ["stamp", "out/a.stamp"], ["out/a.stamp"], lambda: None if look(j("out/a.stamp")) and look(j("out/a.stamp"))[0] == "" and os.stat(j("out/a.stamp")).st_mtime > 1600000000 else \
            f"the stamp is {str(look(j('out/a.stamp'), True))[:60]}"
    if tool in ("recursive-mirror", "copy-bundle-resource"):
        name = s.get("name", "the copy")
        put(j("in", name), s["src"])
        if s["prior"] is not None:
            put(j("out", name), s["prior"], 1400000000)
        src, dst = "in/" + name, "out/" + name

        def check():
            have = look(j(dst), tool == "recursive-mirror")
            want = stamped(s["src"], 1500000000) if tool == "recursive-mirror" else s["src"]
            if json.dumps(have, sort_keys=True) != json.dumps(want, sort_keys=True):
                return f"{dst} is {str(have)[:150]} instead of {str(want)[:150]}"
        return [tool, src, dst] + ([s["binary"]] if tool[0] == "c" else []), [dst], check
    if tool == "manifest-to-rc":
        if "/" in s["name"]:
            os.mkdir(j("in/sub dir"))
        put(j("in", s["name"]), ["<m/>", 0o644])
        if s["prior"] is not None:
            put(j("out/a.rc"), [s["prior"], 0o644])
        want = '#include <windows.h>\n%s RT_MANIFEST "%s"' % (s["res"], j("in", s["name"]))
        return [tool, "environment.x64", "in/" + s["name"], "out/a.rc", s["res"]], ["out/a.rc"], lambda: None if look(j("out/a.rc"))[0].strip() == want else f"the resource script is {look(j('out/a.rc'))[0]!r}"
    if tool == "copy-info-plist":
        with open(j("in/Info.plist"), "wb") as f:
            plistlib.dump(s["plists"][0], f, sort_keys=False)
        os.mkdir(j("out/App"))
        if s["prior"] is not None:
            put(j("out/App/Info.plist"), [s["prior"], 0o644])
            put(j("out/App/PkgInfo"), [s["prior"], 0o644])
        env = dict(ENV, **s["env"])

        def expand(x):
            if isinstance(x, dict):
                return {k: expand(v) for k, v in x.items() if not (isinstance(v, str) and expand(v).startswith("${"))}
            if isinstance(x, list):
                return [expand(v) for v in x]
            if not isinstance(x, str):
                return x
            for k, v in env.items():
                x = x.replace("${%s}" % k, v).replace("${%s:identifier}" % k, re.sub(r"[_/\s]", "_", v)).replace("${%s:rfc1034identifier}" % k, re.sub(r"[_/\s]", "-", v))
            return x
        want = expand({**s["plists"][0], **(s["keys"] or {})})

        def check():
            try:
                with open(j("out/App/Info.plist"), "rb") as f:
                    have = plistlib.load(f)
            except Exception as e:
                return f"Info.plist cannot be read: {e!r}"
            if have != want:
                d = [k for k in sorted(set(have) | set(want)) if have.get(k) != want.get(k)]
                return f"Info.plist has {d[0]} = {have.get(d[0])!r} instead of {want.get(d[0])!r}"
            sig = want.get("CFBundleSignature", "????")
            sig = sig if len(sig) == 4 else "????"
            if want["CFBundlePackageType"] == "APPL" and look(j("out/App/PkgInfo"))[0] != "APPL" + sig:
                return f"PkgInfo is {str(look(j('out/App/PkgInfo')))[:60]}"
        return [tool, "in/Info.plist", "out/App/Info.plist", s["binary"]] + ([json.dumps(s["keys"])] if s["keys"] is not None else []), ["out/App/Info.plist", "out/App/PkgInfo"], check
    if tool == "merge-info-plist":
        ins = []
        for i, p in enumerate(s["plists"]):
            ins.append(f"in/{i}.plist")
            with open(j(ins[-1]), "wb") as f:
                plistlib.dump(p, f, fmt=plistlib.FMT_BINARY if s["fmt"][i] == "bin" else plistlib.FMT_XML)
        if s["prior"] is not None:
            put(j("out/m.plist"), [s["prior"], 0o644])

        def merge(a, b):
            for k, v in b.items():
                if isinstance(v, dict) and isinstance(a.get(k, {}), dict):
                    a[k] = merge(dict(a.get(k, {})), v)
                else:
                    a[k] = v
            return a
        want = {}
        for p in s["plists"]:
            want = merge(want, copy.deepcopy(p))

        def check():
            try:
                with open(j("out/m.plist"), "rb") as f:
                    have = plistlib.load(f)
            except Exception as e:
                return f"the merged plist cannot be read: {e!r}"
            return None if have == want else f"the merged plist is {str(have)[:120]} instead of {str(want)[:120]}"
        return [tool, "out/m.plist"] + ins, ["out/m.plist"], check
    if tool == "package-framework":
        v = s["version"]
        fw = "out/My Kit.framework"
        os.makedirs(j(fw, "Versions", v, "Resources"))
        if s["made"]:
            put(j(fw, "Versions", v, "My Kit"), ["binary", 0o755])
        paths = {"Current": ("Versions/Current", v, "old"), "binary": ("My Kit", "Versions/Current/My Kit", "Versions/old/My Kit"), "Resources": ("Resources", "Versions/Current/Resources", "nowhere")}
        for k, how in s["links"].items():
            p, right, wrong = paths[k]
            if how == "file":
                put(j(fw, p), ["a file", 0o644])
            elif how:
                os.symlink(right if how == "right" else wrong, j(fw, p))
        before = {p: look(j(fw, p)) for p, _, _ in paths.values()}

        def check():
            for p, right, _ in paths.values():
                have = look(j(fw, p))
                if s["made"] and (not isinstance(have, str) or os.path.normpath(have[3:]) != right):
                    return f"{p} is {have}, not a link to {right}"
                if not s["made"] and have != before[p]:
                    return f"{p} changed although there is no binary"
        return [tool, fw, v], [os.path.join(fw, p) for p, _, _ in paths.values()], check
    if tool == "package-ios-framework":
        fw = "out/My Kit.framework"
        os.mkdir(j(fw))
        if s["prior"]:
            os.mkdir(j(fw, "Modules"))
        if s["prior"] == "old":
            put(j(fw, "Modules/module.modulemap"), ["old " * 100, 0o644])
        want = 'framework module My Kit { umbrella header "My Kit.h" export * module * { export * } }'
        return [tool, fw], [fw + "/Modules"], lambda: None if " ".join((look(j(fw, "Modules/module.modulemap")) or [""])[0].split()) == want else f"the module map is {look(j(fw, 'Modules/module.modulemap'))}"
    if tool == "copy-ios-framework-headers":
        fw = "out/K.framework"
        os.mkdir(j(fw))
        if s["prior"] is not None:
            put(j(fw, "Headers"), s["prior"])
        for n, x in s["headers"].items():
            os.makedirs(os.path.dirname(j("in", n)), exist_ok=True)
            put(j("in", n), x)

        def check():
            for n, x in s["headers"].items():
                have = look(j(fw, "Headers", os.path.basename(n)))
                if not isinstance(have, list) or have[0] != x[0]:
                    return f"header {os.path.basename(n)} is {str(have)[:80]}"
            for n in s["prior"] or {}:
                if n not in [os.path.basename(x) for x in s["headers"]] and look(j(fw, "Headers", n)) != s["prior"][n]:
                    return f"header {n}, which is not copied, changed"
        return [tool, fw] + ["in/" + n for n in s["headers"]], [fw + "/Headers"], check
    if tool == "compile-ios-framework-header-map":
        for n in s["headers"]:
            os.makedirs(os.path.dirname(j("in", n)), exist_ok=True)
            put(j("in", n), ["h", 0o644])
        if s["prior"] is not None:
            put(j("out/headers.hmap"), [s["prior"], 0o644])

        def check():
            with open(j("out/headers.hmap"), "rb") as f:
                data = f.read()
            for n in s["headers"]:
                for name in (os.path.basename(n), "Kit/" + os.path.basename(n), "".join(c.upper() if c.isascii() else c for c in os.path.basename(n))):
                    have = lookup(data, name)
                    if have != j("in", n):
                        return f"the header map gives {have!r} for {name}, not in/{n}"
            if lookup(data, "absent.h") is not None:
                return "the header map holds absent.h"
        return [tool, "out/headers.hmap", "out/Kit.framework"] + ["in/" + n for n in s["headers"]], ["out/headers.hmap"], check
    put(j("in", s["name"]), ["<xib/>", 0o644])
    return ["copy-bundle-resource", "in/" + s["name"], "out/Main.nib", "False"], ["out/Main.nib"], lambda: None


def lookup(data, name):
    """what clang finds for name in a header map"""
    try:
        magic, version, _, strings, count, size, longest = struct.unpack_from("<LHHLLLL", data)
        if magic != 0x686D6170 or version != 1 or size & (size - 1) or count >= size:
            return "?"

        def text(o):
            e = data.index(b"\0", strings + o)
            return data[strings + o:e].decode()
        low = bytes(c + 32 if 65 <= c <= 90 else c for c in name.encode())
        h = sum(c * 13 for c in low)
        while True:
            k, p, x = struct.unpack_from("<LLL", data, 24 + 12 * (h & (size - 1)))
            if k == 0:
                return None
            t = text(k).encode()
            if bytes(c + 32 if 65 <= c <= 90 else c for c in t) == low:
                return text(p) + text(x)
            h += 1
    except Exception as e:
        return f"? {e!r}"


def outside(root, dests):
    """everything but the destinations"""
    out = {}

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = rel + n
            full = os.path.join(d, n)
            if p in dests or p in (".tmp", "tmp"):
                continue
            if os.path.isdir(full) and not os.path.islink(full):
                out[p] = "dir"
                walk(full, p + "/")
            else:
                out[p] = look(full, True)
    walk(root, "")
    return out


def run(spec, ctx):
    root = ctx.scratch.root
    mac = spec["platform"] == "darwin"
    tool = spec["tool"]

    def fresh():
        ctx.scratch.fresh({})
        return layout(spec, root)

    def once(fault):
        data = "".join(x + "\n" for x in spec["lines"]).encode()
        p = {"path": os.path.join(PYLIB, "mac_tool.py" if mac else "win_tool.py"), "argv": args, "commands": [{"steps": 1, "status": spec["status"], "out": data}], "platform": spec["platform"],
             "faults": {}, "fsfault": fault}
        r = child(lambda ts: ts.run_world(root, spec["seed"], [p], dict(ENV, TMPDIR=os.path.join(root, "tmp"), **spec["env"]), files=True))
        ctx.cover.execs += 1
        return r
    args, dests, check = fresh()
    before = outside(root, dests)
    out = []

    def judge(res, what, fault=None):
        if res is None or res["stuck"]:
            return [{"kind": "hang", "text": f"{what}: does not end"}]
        v = []
        exit_ = res["exits"][0]
        if res["escapes"]:
            v.append({"kind": "escape", "text": f"{what}: would change {res['escapes'][0]}"})
        now = outside(root, dests)
        if now != before:
            d = [k for k in sorted(set(now) | set(before)) if now.get(k) != before.get(k)]
            v.append({"kind": "bystander", "text": f"{what}: {d[0]} is {str(now.get(d[0]))[:60]}, was {str(before.get(d[0]))[:60]}"})
        if exit_ == "killed":
            return v
        ran = [c for c in res["cmds"][0]]
        failing = spec["status"] != 0 and ran
        if exit_ == 0:
            if failing:
                v.append({"kind": "exit", "text": f"{what}: {ran[0]['argv'][:3]} ends with {spec['status']} and the step exits 0"})
            q = check()
            if q:
                v.append({"kind": "incomplete", "text": f"{what}: exits 0 and {q}"})
            if tool == "xib":
                want, head = [], None
                for x in spec["lines"]:
                    if re.match(r"/\*.*\*/", x):
                        head = x
                    elif not re.match(r".*note:.*is clipping its content", x):
                        want += ([head] if head else []) + [x]
                        head = None
                if res["out"][0].splitlines() != want:
                    v.append({"kind": "output", "text": f"{what}: printed {res['out'][0].splitlines()[:4]}, expected {want[:4]}"})
            plut = tool in ("copy-bundle-resource", "copy-info-plist") and spec["binary"] == "True" and (tool == "copy-info-plist" or spec["name"].lower().endswith((".plist", ".strings")))
            if tool == "merge-info-plist" and fault:
                pass  # an input that cannot be read is converted and read again
            elif len(ran) != (1 if plut or tool == "xib" else 0) or (ran and not fits(ran[0]["argv"], tool, args)):
                v.append({"kind": "ran", "text": f"{what}: ran {[c['argv'] for c in ran]}"})
        elif not fault and not failing:
            v.append({"kind": "refused", "text": f"{what}: exits with {exit_}: {simlib.last_lines(res['err'][0])}"})
        return v
    what = " ".join(args[:3])
    res = once(None)
    out = judge(res, what)
    ctx.cover.note(tool)
    ctx.cover.state(tool, args, spec.get("prior"), spec.get("src"), spec["status"], spec["fault"])
    f = spec["fault"]
    if out or not f or res is None:
        return out
    n = len(res["fsops"][0])
    if n:
        args, dests, check = fresh()
        before = outside(root, dests)
        # over the kinds of operation rather than over the list, which is mostly writes
        ops = res["fsops"][0]
        kinds = sorted(set(ops))
        cands = range(n) if f["kind"] is None else [i for i in range(n) if ops[i] == kinds[int(f["kind"] * len(kinds))]]
        fault = {"n": cands[int(f["at"] * len(cands))], **{k: v for k, v in f.items() if k not in ("at", "kind")}}
        res = once(fault)
        if res and res["fired"][0]:
            kind = res["fired"][0][0][0]
            ctx.cover.fault(f"{kind}:{f.get('errno') or 'kill ' + f['kill']}")
            out = judge(res, f"{what} ({kind} {f.get('errno') or 'killed ' + f['kill']})", fault)
            if out:
                return out
    # the same step again: over what it made, or over what the failure left
    res = once(None)
    return judge(res, f"{what}, again after {'a fault' if n else 'itself'}")


def fits(argv, tool, args):
    if tool == "xib":
        return argv[:2] == ["xcrun", "ibtool"] and "--compile" in argv
    return argv[:4] == ["xcrun", "plutil", "-convert", "binary1"] and argv[-2:] == [args[2], args[2]]


def shrink(spec):
    for k in ("fault", "prior"):
        if spec.get(k) is not None:
            yield dict(copy.deepcopy(spec), **{k: None})
    if isinstance(spec.get("src"), dict):
        for k in spec["src"]:
            c = copy.deepcopy(spec)
            del c["src"][k]
            yield c
    for k in ("headers", "plists", "lines"):
        x = spec.get(k)
        if x and len(x) > 1:
            for i in range(len(x)):
                c = copy.deepcopy(spec)
                if isinstance(x, dict):
                    del c[k][list(x)[i]]
                else:
                    del c[k][i]
                    if k == "plists":
                        del c["fmt"][i]
                yield c
    for i, p in enumerate(spec.get("plists") or []):
        for k in p:
            if k != "CFBundlePackageType":
                c = copy.deepcopy(spec)
                del c["plists"][i][k]
                yield c


def describe(spec):
    return f"{spec['tool']} over {'nothing' if spec.get('prior') is None else 'something'}, fault {spec['fault']}"

"""new.py: creates seeded dirs from a python spec; each entry: id, prop, needs, breaks, edits[(file, old, new)], files{name:text}, js(bool)"""
import json, os, subprocess, shutil, sys
WT = "/tmp/seedw/wt"
def make(id, prop, needs, breaks, edits, files, js=True):
    d = f"/tmp/seedw/out/{id}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "-C", WT, "fetch", "-q", "/repo", "main"], check=True)
    subprocess.run(["git", "-C", WT, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    for f, old, new in edits:
        p = os.path.join(WT, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    if js:
        shutil.copy("/tmp/seedw/common/lib.js", d + "/lib.js")
        files.setdefault("demo.sh", '#!/bin/bash\n# the demonstration itself is demo.js\nexec timeout 120 node "$(dirname "$0")/demo.js"\n')
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["/tmp/seedw/mk.sh", id], check=False)

"""mutants: run.py FILE [id...]; each: (id, prop(s), [(file, old, new)])"""
import os, subprocess, shutil, sys, importlib.util, threading, queue
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
q = queue.Queue()
for x in m.MUT:
    if not want or x[0] in want: q.put(x)
lock = threading.Lock()
def one(id, props, edits):
    w = f"/var/tmp/mu-{id}"
    subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new, *al in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(old) != 1 and not al: return f"{id}: BAD EDIT {f} {s.count(old)}"
        open(p, "w").write(s.replace(old, new))
    out = f"{id} "
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=w, capture_output=True, text=True, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    if r.returncode: out += "TESTSFAIL "
    for p in props.split():
        n = int(p[1:])
        cmd = ["node", "jssim/run.js"] if n <= 10 else ["python3", "pysim/run.py"]
        try:
            r = subprocess.run(cmd + ["--property", p, "--tier", "quick"] + (["--seconds", os.environ["SECS"]] if n > 10 and "SECS" in os.environ else []), cwd=os.environ.get("VC", "/verif"), capture_output=True, text=True, env={**os.environ, "NODE_GYP_REPO": w}, timeout=900)
            L = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
            d = "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "missed" if r.returncode == 0 else f"ERROR{r.returncode}"
            first = (L or [""])[0][:130] if d == "CAUGHT" else (L or [""])[-1][:100] + (r.stderr[-200:] if d.startswith("ERR") else "")
        except subprocess.TimeoutExpired:
            d, first = "TIMEOUT", ""
        out += f"{p} {d} | {first} "
        if d == "CAUGHT": break
    subprocess.run(["rm", "-rf", w])
    return out
def work():
    while True:
        try: x = q.get_nowait()
        except queue.Empty: return
        try: o = one(*x)
        except Exception as e: o = f"{x[0]} EXC {e}"
        with lock: print(o, flush=True)
T = [threading.Thread(target=work) for _ in range(int(os.environ.get("PAR", "2")))]
[t.start() for t in T]; [t.join() for t in T]

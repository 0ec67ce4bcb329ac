"""Simulated runs of the gyp half of node-gyp.

  python3 pysim/run.py --property C11 --tier quick|thorough     search; exit 0 held, 1 violation, 2 harness error
  python3 pysim/run.py --replay FILE                            execute one replay file again
  python3 pysim/run.py --property C11 --one SEED [--verbose]    one scenario

A scenario is a JSON value made from a seed by props/<id>.py; running it is deterministic.
"""
import argparse
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "buildsim")]
sys.dont_write_bytecode = True
import simlib  # noqa: E402

VERIF = os.path.dirname(HERE)


class Ctx:
    """what a scenario needs to run: a scratch directory, zygotes, counters"""

    def __init__(self, ident):
        self.scratch = simlib.Scratch(ident)
        self.zygotes = simlib.Zygotes()
        self.cover = simlib.Cover()
        self.verbose = False
        self.eng = None

    def engine(self):
        """the simulated builds' engine (see buildsim)"""
        if self.eng is None:
            import bcommon
            import engine
            self.eng = engine.Engine(bcommon.prepare(simlib.scratch_base()), self.scratch)
        return self.eng

    def gyp(self, spec, plan, hashseed=0, argv=None, env=None, cwd=None, keep=True, limit=60, zenv=None):
        """one simulated gyp process in the scratch directory as it is"""
        root = self.scratch.root
        args = list(argv if argv is not None else spec["argv"])
        e = {"PATH": "/usr/bin:/bin", "HOME": root + "/.nohome", "LC_ALL": "C.UTF-8"}
        e.update({k: v.replace("@ROOT@", root) for k, v in (env if env is not None else spec.get("env", {})).items()})
        req = {"root": root, "cwd": os.path.join(root, cwd) if cwd else root, "env": e,
               "argv": [os.path.join(simlib.REPO, "gyp", "gyp_main.py")] + [a.replace("@ROOT@", root) for a in args],
               "plan": plan, "limit": limit}
        self.cover.execs += 1
        r = self.zygotes.get(hashseed, zenv).run(req)
        for f in r.get("fired") or []:
            self.cover.fault(f"{f[2]}:{f[1]}" if f[1] not in ("cmd-spawn", "cmd-exit", "cmd-signal") else f[1])
        if self.verbose:
            print(f"  hash={hashseed} argv={args[:12]} -> exit={r.get('exit')} crashed={r.get('crashed')} hang={r.get('hang')} "
                  f"timeout={r.get('timeout')} ops={r.get('count')} fired={r.get('fired')} err={simlib.last_lines(r.get('err'))}")
        return r

    def close(self):
        self.zygotes.close()
        if self.eng:
            self.eng.close()
        self.scratch.remove()


def load(prop):
    return importlib.import_module("props." + prop.lower())


def known_findings():
    try:
        with open(os.path.join(VERIF, "known-findings.json")) as f:
            return json.load(f).get("findings", [])
    except FileNotFoundError:
        return []


def matches(finding, prop, v):
    return finding.get("property") == prop and finding.get("kind") == v["kind"] and all(s in v["text"] for s in finding.get("contains", []))


def run_spec(mod, spec, ctx):
    vs = mod.run(spec, ctx)
    for v in vs:
        # paths of the scratch directory differ from process to process
        v["text"] = v["text"].replace(ctx.scratch.root, "<root>")
    return vs


def same_failure(a, b):
    """is b the violation a? A build that fails could fail for any reason: it has to name one of the files that the first one named"""
    if a["kind"] != b["kind"]:
        return False
    if a["kind"] != "serial-build-fails":
        return True
    fa, fb = (set(re.findall(r"[\w-]+\.[A-Za-z]\w*", x["text"].partition(": ")[2])) for x in (a, b))
    return not fa or bool(fa & fb)


def minimise(mod, spec, ctx, first, budget=120, seconds=90):
    best = spec
    n = 0
    t0 = time.time()
    progress = True
    while progress and n < budget and time.time() - t0 < seconds:
        progress = False
        for cand in mod.shrink(best):
            n += 1
            if n > budget or time.time() - t0 > seconds:
                break
            try:
                vs = run_spec(mod, cand, ctx)
            except Exception:
                continue
            if any(same_failure(first, v) for v in vs):
                best = cand
                progress = True
                break
    return best, n


def apart(fn):
    """the result of fn, called in a process of its own: one that enters the private, elsewhere read-only, file system"""
    simlib.scratch_base()
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as out:
                json.dump(fn(), out)
            code = 0
        except simlib.HarnessError as e:
            print(f"harness error: {e}", file=sys.stderr)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    if os.waitpid(pid, 0)[1] != 0:
        raise simlib.HarnessError("a process of the check failed")
    return json.loads(text)


def search(prop, tier, seed, args):
    mod = load(prop)
    count = args.count or mod.COUNTS[tier]
    limit = args.seconds or (mod.SECONDS[tier] if hasattr(mod, "SECONDS") else {"quick": 240, "thorough": 800}[tier])
    t0 = time.time()
    cover = simlib.Cover()
    bad = []
    seen_known = {}
    known = known_findings()

    def worker(ident, _):
        ctx = Ctx(ident)

        def one(i):
            spec = mod.scenario(f"{seed}:{prop}:{i}")
            vs = run_spec(mod, spec, ctx)
            ctx.cover.runs += 1
            if i < 3:
                ctx.cover.sample(f"seed {seed}:{prop}:{i} " + mod.describe(spec))
            fresh = [v for v in vs if not any(matches(f, prop, v) for f in known)]
            old = [v for v in vs if v not in fresh]
            if fresh or old:
                return {"i": i, "fresh": fresh, "old": old}
            return 0

        def finish():
            ctx.close()
            return ctx.cover.dump()
        one.finish = finish
        return one

    def on_result(i, res):
        if i == -1:
            cover.merge(res)
            return False
        if res:
            for v in res["old"]:
                seen_known[next(f["id"] for f in known if matches(f, prop, v))] = v
            if res["fresh"]:
                bad.append(res)
                return True
        return False

    if getattr(mod, "TOOLS", False):
        import bcommon
        bcommon.prepare(simlib.scratch_base())
    nproc = min(args.jobs or os.cpu_count() or 4, 8)
    simlib.sharded(worker, list(range(count)), nproc, t0 + limit, on_result)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cover.runs, "distinct_nontrivial": len(cover.states), "rule": mod.RULE, "samples": cover.samples[:3],
            "simulated_processes": cover.execs,
            "runs_per_hour": int(cover.runs / max(wall, 0.001) * 3600),
            "simulated_time": "the gyp runs take no simulated time: they have no clock; their length is counted in operations",
            "states_digest": simlib.digest(dict.fromkeys(cover.states, 1)),
            "faults": dict(sorted(cover.faults.items())), "notes": dict(sorted(cover.notes.items())),
            "real": mod.REAL, "stub": mod.STUB,
        },
        "wall_s": round(wall, 1),
    }
    if os.environ.get("VERIF_STATES"):
        with open(os.environ["VERIF_STATES"], "w") as f:
            f.write("\n".join(sorted(cover.states)) + "\n")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {v['text'][:300]}")
    if bad:
        res = min(bad, key=lambda r: r["i"])
        kind = res["fresh"][0]["kind"]

        def smallest():
            ctx = Ctx(0)
            best, n = minimise(mod, mod.scenario(f"{seed}:{prop}:{res['i']}"), ctx, res["fresh"][0])
            vs = [v for v in run_spec(mod, best, ctx) if v["kind"] == kind]
            again = [v for v in run_spec(mod, best, ctx) if v["kind"] == kind]
            ctx.close()
            return [best, n, vs, again]
        best, n, vs, again = apart(smallest)
        v = (vs or res["fresh"])[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = f"{prop}-{hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]}.json"
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": f"{seed}:{prop}:{res['i']}", "violation": v, "spec": best}, f, indent=1)
            f.write("\n")
        print(f"{v['kind']}: {v['text'][:600]}")
        print(f"seed {seed}:{prop}:{res['i']}, minimised in {n} runs; replay " + ("reproduces it exactly" if vs and vs == again else "does NOT reproduce it exactly"))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: {cover.runs} simulated runs ({cover.execs} processes), {len(cover.states)} distinct states, no violation ({wall:.1f} s)")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=int)
    ap.add_argument("--seconds", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--one")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    try:
        if args.replay:
            with open(args.replay) as f:
                d = json.load(f)
            mod = load(d["property"])

            def replay():
                ctx = Ctx(0)
                ctx.verbose = args.verbose
                vs = [v for v in run_spec(mod, d["spec"], ctx) if v["kind"] == d["violation"]["kind"]]
                ctx.close()
                return vs
            vs = apart(replay)
            if vs:
                print(f"{vs[0]['kind']}: {vs[0]['text']}")
                print("same as recorded" if vs[0] == d["violation"] else "differs from what was recorded")
                print(f"VIOLATION property={d['property']} replay={args.replay}")
                return 1
            print("no violation")
            return 0
        if args.one:
            mod = load(args.property)
            a, _, b = args.one.partition("-")

            def ones():
                ctx = Ctx(0)
                ctx.verbose = args.verbose
                kinds = {}
                for i in range(int(a), int(b or a) + 1):
                    vs = run_spec(mod, mod.scenario(f"{args.seed}:{args.property}:{i}"), ctx)
                    for v in vs:
                        kinds[v["kind"]] = kinds.get(v["kind"], 0) + 1
                        print(i, v["kind"], v["text"][:500])
                ctx.close()
                return kinds
            kinds = apart(ones)
            print(kinds)
            return 1 if kinds else 0
        return search(args.property, args.tier, args.seed, args)
    except simlib.HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())

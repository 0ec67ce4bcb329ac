"""C15: every order of the steps of a parallel build succeeds and gives the same products."""
import copy
import random

import bcommon
import bgen

COUNTS = {"quick": 800, "thorough": 6000}
RULE = ("the project and its products, and the order in which a build took its steps, of a run in which gyp accepted the project and at least two orders were compared")
REAL, STUB = bcommon.REAL, bcommon.STUB
TOOLS = True


def scenario(seed):
    r = random.Random(seed)
    fmt = r.choice(["make", "ninja"])
    spec = bgen.scenario(seed + ":p", fmt, edits=0, loose=random.Random(seed + ":l").random() < 0.6)
    spec["orders"] = [{"policy": r.choice(["random", "random", "lifo", "favour"]), "seed": r.randrange(10 ** 6), "goals": r.choice([0, 0, 1, 2, 3]), "jobs": r.choice([10000, 10000, 10000, 2, 3])}
                      for _ in range(r.choice([2, 3, 4]))]
    return spec


describe = bcommon.describe


def goals(spec, order):
    """names of targets, in an order of the seed"""
    names = [t["target_name"] for d in spec["start"]["gyp"].values() for t in d.get("targets", []) if t.get("toolsets") is None]
    r = random.Random(order["seed"])
    r.shuffle(names)
    return names[:order["goals"]]


def run(spec, ctx):
    w = bcommon.World(spec, ctx)
    out = []
    try:
        w.lay(spec["start"])
        w.gyp(spec["start"]["tops"])
        w.save("a")
        r = w.build(jobs=1, policy="fifo", seed=0)
        if r.exit != 0:
            return [{"kind": "serial-build-fails", "text": f"{spec['fmt']}: the serial build of a correct project fails: {bcommon.simlib.last_lines(r.out)}"}]
        p0 = w.products()
        for kind, text in bcommon.races(r)[:1]:
            out.append({"kind": kind, "text": text})
        for o in spec["orders"]:
            w.restore("a")
            g = goals(spec, o)
            trace = []
            for gs in ([g] if g else []) + [[]]:
                r = w.build(gs, jobs=o["jobs"], policy=o["policy"], seed=o["seed"])
                trace += [s.target or s.cmd for s in r.steps]
                if r.exit != 0:
                    out.append({"kind": "order-fails", "text": f"{spec['fmt']}: an order of steps fails that a parallel build may take (goals {gs}): {bcommon.simlib.last_lines(r.out)}"})
                    break
                for kind, text in bcommon.races(r)[:1]:
                    out.append({"kind": kind, "text": text})
            if r.exit != 0:
                break
            d = bcommon.diff(p0, w.products())
            if d:
                out.append({"kind": "order-differs", "text": f"{spec['fmt']}: products differ between two orders of the steps: {d}"})
                break
            ctx.cover.state(sorted(p0), trace)
            ctx.cover.fault("order:" + o["policy"])
            if out:
                break
    except bcommon.Problem as e:
        out.append({"kind": e.kind, "text": e.text})
    finally:
        w.cleanup()
    return out


def shrink(spec):
    if len(spec["orders"]) > 1:
        for i in range(len(spec["orders"])):
            c = copy.deepcopy(spec)
            del c["orders"][i]
            yield c
    for i, o in enumerate(spec["orders"]):
        if o["goals"]:
            c = copy.deepcopy(spec)
            c["orders"][i]["goals"] = 0
            yield c
    yield from bcommon.shrink(spec)

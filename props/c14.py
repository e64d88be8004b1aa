"""C14 seeded runs are reproducible."""
import atexit
import json
import os
import subprocess
import sys

from sim import est as E
from sim import gen as G
from sim import net as N
from sim.case import HarnessError, check, must, seed_streams

ID = "C14"
QUICK, THOROUGH = 330, 12000
RULE = ("Each case: a seeded workflow of 3-8 steps (generate a network, sample from it, sample in parallel, import the "
        "samples, run sequential hill climbing or tabu search) executed four times: twice in one interpreter and once in "
        "each of two interpreters with other hash seeds, every time with different operating-system entropy, clock, "
        "number of processors, worker schedule and leftovers of an earlier run. All results must be equal. Non-trivial: "
        "the workflow contains a search or a parallel batch; distinct by workflow.")
REAL = ["NetworkGenerator", "TrajectoryGenerator", "SampleImporter", "StructureScoreBasedEstimator", "HillClimbing",
        "TabuSearch"]
STUB = ["entropy", "clock", "cpu count", "worker processes", "queue.Queue"]


def gen(r, idx, tier):
    d = N.gen(r, 4, 3, kind="generated")
    steps = []
    for _ in range(r.randint(3, 7)):
        u = r.random()
        if u < 0.2:
            steps.append({"op": "net", "density": r.choice([0.3, 0.5, 1.0]), "fixed": r.random() < 0.3,
                          "range": r.choice([[1, 3], [5, 20]])})
        elif u < 0.45:
            steps.append({"op": "sample", "n": r.choice([2, 10, 30])} if r.random() < 0.7 else
                         {"op": "sample", "end": r.choice([0.2, 1.0])})
        elif u < 0.65:
            steps.append({"op": "multi", "trs": [r.choice([1, 4, 9, 15]) for _ in range(r.randint(1, 4))]})
        else:
            steps.append({"op": "search", "s": E.gen_sb(r, d["names"])})
    steps.append({"op": "search", "s": E.gen_sb(r, d["names"])})
    ds = G.dataset(r, 2, 5, (20, 90), 3)
    if idx % 15 == 4:
        ds = G.wide(r, 6, 9, (20, 60), 2)
    ds_s = E.gen_sb(r, ds["names"], None if len(ds["names"]) < 6 else 0.1)
    if len(ds["names"]) > 5:
        ds_s.update(max_parents=r.choice([1, 2, 3]), iterations=r.choice([5, 12, 25]))
    return {"net": d, "steps": steps, "stream": r.randrange(2 ** 32), "method": r.choice(["fork", "spawn"]), "ds": ds,
            "ds_s": ds_s, "wild": [r.randrange(10 ** 9) for _ in range(3)]}


def workflow(case, ctx, i):
    """The results of one execution, plain data."""
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    out = []
    w = case["wild"][i % 3]
    with ctx.kernel("exec%d" % i, fresh=i > 1, cpus=[4, 1, 16, 2][(i + w) % 4], entropy=(w, i), clock=1e9 * (1 + (w * (i + 1)) % 97),
                    tick=[1e-6, 40.0, 1e-3, 3.0][i % 4], start_method=case["method"]) as k:
        from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
        import pandas as pd
        seed_streams(case["stream"])
        ng = must("NetworkGenerator", NetworkGenerator, list(nm), list(cs))
        fr = None
        trajs = []

        def new_net(density, fixed, rng):
            if fixed:
                pairs = len(nm) * (len(nm) - 1)
                density = round(density * pairs) / pairs if pairs else 0.0
            ng.generate_graph(density, fixed)
            ng.generate_cims(*rng)
            fr = (ng.variables, ng.dyn_str, ng.cims)
            out.append(["net", [list(map(str, x)) for x in fr[1].values.tolist()],
                        [[x, [[list(map(int, cfg)), m.cim.tolist()] for cfg, m in zip(fr[2][x].p_combs,
                                                                                      fr[2][x].actual_cims)]] for x in nm]])
            return fr
        fr = must("generating a network", new_net, d["density"], False, d["range"])
        g = must("TrajectoryGenerator", N.generator, fr)
        for s in case["steps"]:
            if s["op"] == "net":
                fr = must("generating a network", new_net, s["density"], s["fixed"], s["range"])
                g = must("TrajectoryGenerator", N.generator, fr)
                trajs = []
            elif s["op"] == "sample":
                kw = {"max_tr": s["n"]} if "n" in s else {"t_end": s["end"]}
                df = must("CTBN_Sample", g.CTBN_Sample, **kw)
                out.append(["sample", N.rows_of(df, nm, "sample")])
                trajs.append(out[-1][1])
            elif s["op"] == "multi":
                got = must("multi_trajectory", lambda: list(g.multi_trajectory(max_trs=list(s["trs"]))))
                got = sorted(N.rows_of(x, nm, "multi") for x in got)
                out.append(["multi", got])
                trajs += got
            else:
                ts = [t for t in trajs if len(t) > 1]
                if len(nm) < 2 or not ts:
                    continue
                from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
                from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath

                def search():
                    imp = SampleImporter([pd.DataFrame(t, columns=["Time"] + nm) for t in ts],
                                         pd.DataFrame({"Name": nm, "Value": cs}))
                    imp.import_data()
                    sp = SamplePath(imp)
                    sp.build_trajectories()
                    sp.build_structure()
                    return E.estimate(E.make(sp, s["s"]), s["s"])
                out.append(["search", sorted(map(list, E.edges_of(must("search", search))))])
        sp = must("building the dataset", G.sample_path, case["ds"])
        got = must("search", E.estimate, must("estimator", E.make, sp, case["ds_s"]), case["ds_s"])
        out.append(["search", sorted(map(list, E.edges_of(got)))])
        import random
        import numpy as np
        out.append(["streams after", random.random(), float(np.random.random_sample())])
    return out


HELPERS = {}


def helper(n, case, ctx):
    """The same case in an interpreter with another hash seed."""
    if n not in HELPERS:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str((int(os.environ.get("PYTHONHASHSEED") or 0) * 31 + 1000003 * (n + 1)) %
                                                  4294967291))
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(here, "sim", "worker.py"), ID, "serve"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        HELPERS[n] = p
        atexit.register(p.kill)
        if b"ready" not in p.stdout.readline():
            raise HarnessError("helper interpreter did not start")
    p = HELPERS[n]
    path = os.path.join(ctx.scratch, "helper-out.json")
    if os.path.exists(path):
        os.unlink(path)
    c = dict(case, helper=path, which=2 + n)
    p.stdin.write((json.dumps(c) + "\n").encode())
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        HELPERS.pop(n)
        raise HarnessError("helper interpreter died")
    r = json.loads(line)
    if r.get("error"):
        raise HarnessError("helper: " + r["error"])
    if not r["ok"]:
        check(False, r["kind"], "in another interpreter: %s", r["msg"])
    with open(path) as f:
        return json.load(f)


def run(case, ctx):
    if case.get("helper"):
        out = workflow(case, ctx, case["which"])
        with open(case["helper"], "w") as f:
            json.dump(out, f)
        return
    base = json.loads(json.dumps(workflow(case, ctx, 0)))
    others = [("a second run in the same interpreter", lambda: json.loads(json.dumps(workflow(case, ctx, 1))))]
    for n in (0, 1):
        others.append(("an interpreter with another hash seed", lambda n=n: helper(n, case, ctx)))
    for what, fn in others:
        got = fn()
        check(len(got) == len(base), "not reproducible", "%s: %d results, not %d", what, len(got), len(base))
        for i, (a, b) in enumerate(zip(got, base)):
            check(a == b, "not reproducible", "%s: result %d: %s, not %s", what, i, str(a)[:500], str(b)[:500])
        ctx.probe("executions")
    ctx.nontrivial = any(s["op"] in ("multi", "search") for s in case["steps"])
    ctx.seen(base)


def shrink(case):
    s = case["steps"]
    for i in range(len(s)):
        yield dict(case, steps=s[:i] + s[i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

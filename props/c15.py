"""C15 all reports of an estimated structure agree with the result."""
import json

from sim import est as E
from sim import gen as G
from sim import simfs
from sim.case import attempt, check, describe, must, seed_streams

ID = "C15"
QUICK, THOROUGH = 700, 30000
RULE = ("Each case: one dataset (with or without a prior structure), 1-3 estimators on it and a history of 2-7 estimations "
        "(constraint-based, hill climbing, tabu; sequential or on a simulated pool; some failing at a seeded step) and "
        "saves (some failing on the disk). After every completed estimation the adjacency matrix, the saved file and the "
        "spurious edges of its estimator are compared with the returned edges; after a failure they must agree with each "
        "other. Non-trivial: a result with an isolated variable, a prior structure, or a failure before it; distinct by "
        "data and history.")
REAL = ["StructureEstimator (save_results, adjacency_matrix, spurious_edges)", "StructureConstraintBasedEstimator",
        "StructureScoreBasedEstimator", "optimizers", "SamplePath"]
STUB = ["process pool", "raw file layer", "entropy"]


def gen(r, idx, tier):
    ds = G.dataset(r, 2, 5, (12, 100), r.choice([2, 3, 3]))
    if idx % 12 == 7:
        ds = G.wide(r)
    nm = ds["names"]
    sb = E.gen_wide_sb if idx % 12 == 7 else E.gen_sb
    ests = [E.gen_cb(r, nm) if r.random() < 0.5 else sb(r, nm) for _ in range(r.randint(1, 3))]
    ops = []
    for _ in range(r.randint(2, 7)):
        o = {"e": r.randrange(len(ests)), "op": "est" if r.random() < 0.8 else "save", "seed": r.randrange(2 ** 32),
             "mp": r.random() < 0.3, "procs": r.choice([None, 1, 2]), "fault": None}
        if r.random() < 0.3:
            o["fault"] = [r.choice(["interrupt", "memory"]), r.random()]
        if o["op"] == "save" and r.random() < 0.6:
            o["fault"] = [r.choice(["enospc", "eio", "close"]), r.random()]
        ops.append(o)
    return {"ds": ds, "ests": ests, "ops": ops, "other": E.gen_other(r, ds, ests[0], 0.2)}


def reports(est, nm, path, where):
    """(adjacency edges, saved edges, spurious edges), each checked for form."""
    adj = E.adjacency(est, nm)
    must(where + ": save_results", est.save_results, path)
    with open(path) as f:
        data = json.load(f)
    nodes = [str(n["id"]) for n in data["nodes"]]
    check(sorted(nodes) == sorted(nm), "saved file: wrong variables", "%s: %s", where, nodes)
    check(data.get("directed", True) is True, "saved file: not directed", where)
    saved = [(str(e["source"]), str(e["target"])) for e in data["links"]]
    check(len(set(saved)) == len(saved), "saved file: repeated edges", "%s: %s", where, saved)
    spur = [(str(a), str(b)) for a, b in must(where + ": spurious_edges", est.spurious_edges)]
    check(len(set(spur)) == len(spur), "repeated spurious edges", "%s: %s", where, spur)
    return adj, set(saved), set(spur)


def run(case, ctx):
    ds = case["ds"]
    nm = ds["names"]
    prior = {tuple(e) for e in ds["prior"] or []}
    home = ctx.dir()
    failed = set()
    last = {}
    kept = E.other_first(ctx, ds, case.get("other"))
    with ctx.kernel("build"):
        sp = must("building the dataset", G.sample_path, ds)
        ests = [must("building the estimator", E.make, sp, s) for s in case["ests"]]
    for i, o in enumerate(case["ops"]):
        s, est = case["ests"][o["e"]], ests[o["e"]]
        where = "operation %d %s" % (i, o)
        path = home + "/r%d.json" % (i % 2)
        with ctx.kernel("op%d" % i) as k:
            f = o["fault"]
            got = None
            if o["op"] == "est":
                seed_streams(o["seed"])
                if f:
                    if o["mp"]:
                        k.worker_plan = {int(o["seed"]) % 2: [(1 + int(f[1] * 900), f[0])]}
                    else:
                        k.root.plan = [(1 + int(f[1] * 3000), f[0])]
                st, v = attempt(E.estimate, est, s, o["mp"], o["procs"])
                k.root.plan = []
                n = sum(x for a, x in k.counts.items() if a.startswith("fault_"))
                if st == "ok":
                    got = E.edges_of(v)
                else:
                    check(n > 0, "unexpected exception", "%s: %s", where, describe(v))
                    failed.add(o["e"])
                    ctx.probe("failed_estimations")
                    last.pop(o["e"], None)
            elif f:
                simfs.attach(k, home, [{"n": 0, "kind": f[0], "at": int(f[1] * 300)}])
                st, v = attempt(est.save_results, path)
                k.fs = None
                if st == "exc":
                    check(isinstance(v, OSError), "unexpected exception", "%s: %s", where, describe(v))
                    ctx.probe("failed_saves")
            k.worker_plan = {}
            if got is not None:
                last[o["e"]] = got
            for e in range(len(ests)):
                if e != o["e"] and e not in last:
                    continue
                adj, saved, spur = reports(ests[e], nm, path, where)
                want = last.get(e)
                what = where if e == o["e"] else where + " (estimator %d, estimated before)" % e
                if want is None:
                    want = adj
                    what += " (no completed estimation)"
                check(adj == want, "wrong adjacency matrix", "%s: %s", what, E.diff(adj, want))
                check(saved == want, "saved file: wrong edges", "%s: %s", what, E.diff(saved, want))
                w = want - prior if prior else set()
                check(spur == w, "wrong spurious edges", "%s: result %s, prior %s: %s", what, sorted(want), sorted(prior),
                      E.diff(spur, w))
                if got is not None and e == o["e"]:
                    iso = any(all(x not in ed for ed in got) for x in nm)
                    ctx.probe("isolated_variables", int(iso))
                    ctx.probe("with_prior", int(bool(prior)))
                    ctx.probe("after_failure", int(e in failed))
                    ctx.nontrivial = ctx.nontrivial or iso or bool(prior) or e in failed
    del kept
    ctx.seen(nm, ds["cards"], sorted(prior), case["ests"], case["ops"])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    o = case["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield dict(case, ops=o[:i] + o[i + 1:])
        if o[i]["fault"]:
            yield dict(case, ops=o[:i] + [dict(o[i], fault=None)] + o[i + 1:])
        if o[i]["mp"]:
            yield dict(case, ops=o[:i] + [dict(o[i], mp=False)] + o[i + 1:])
    for i, s in enumerate(case["ests"]):
        if s.get("known"):
            yield dict(case, ests=case["ests"][:i] + [dict(s, known=[])] + case["ests"][i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

"""C01 constraint-based learning equals the CTPC reference, whatever the schedule."""
import contextlib
import io

from sim import est as E
from sim import gen as G
from sim import ref
from sim.case import Skip, attempt, check, describe, must

ID = "C01"
QUICK, THOROUGH = 900, 30000
RULE = ("Each case: a generated dataset (2-11 variables of 2-4 states, trajectories with ties, simultaneous changes, "
        "sentinel rows), significance levels, data threshold, known edges, and one sequential plus two pool runs with "
        "seeded worker counts, start methods and schedules, all compared with a reference CTPC. Non-trivial: the "
        "reference removes at least one edge at level >= 1 or keeps one for lack of data or knowledge, or the pool "
        "really interleaved; distinct by dataset, settings and result.")
REAL = ["StructureConstraintBasedEstimator", "ConstraintBasedOptimizer", "ParametersEstimator", "NetworkGraph",
        "SetOfCims", "Cache", "SampleImporter", "SamplePath", "numpy/scipy/pandas/networkx"]
STUB = ["process pool (simulated workers with pickled tasks)", "cpu count", "entropy"]


def gen(r, idx, tier):
    big = idx % 12 == 11
    ds = G.dataset(r, 2, 5 if big else 4, (15, 400 if not big else 150), r.choice([2, 3, 4]))
    exp = r.choice([0.01, 0.05, 0.1, 0.2, 0.4, 0.0001])
    chi = r.choice([0.01, 0.05, 0.1, 0.3, 0.0001])
    thr = r.choice([25, 25, 1, 3, 8, 0, 60, 1000])
    if idx % 8 == 2:        # independence that shows only given two or three others
        ds = G.vee(r)
        exp, chi = r.choice([1e-4, 0.001, 0.01]), r.choice([1e-4, 0.001, 0.01])
        thr = 0 if r.random() < 0.3 else critical(r, ds, exp, chi)
    elif idx % 8 == 6:
        ds = G.rich(r, 4, 4 if r.random() < .7 else 5, (250, 1200), r.choice([2, 3, 3]))
        exp, chi = r.choice([1e-4, 0.001, 0.01]), r.choice([1e-4, 0.001, 0.01])
        thr = r.choice([0, critical(r, ds, exp, chi)])
    elif idx % 12 == 1:
        ds = G.jumps(r)
        exp, chi, thr = r.choice([0.0001, 0.01, 0.05]), r.choice([0.001, 0.05, 0.1, 0.3]), r.choice([0, 1, 25])
    elif idx % 24 == 5:
        ds = G.wide(r)
    elif idx % 12 == 9:     # sparse tests at generous levels: candidates fall late, given four others and more
        ds = G.dataset(r, 6, 7, (80, 220), r.choice([2, 2, 3]), (1, 3))
        exp, chi, thr = r.choice([0.3, 0.6, 0.9]), r.choice([0.3, 0.6, 0.9]), r.choice([0, 25, 1])
    runs = [{"mp": False}]
    for _ in range(2):
        runs.append({"mp": True, "procs": r.choice([None, 1, 2, 3, 8]), "cpus": r.choice([1, 2, 4, 16]),
                     "method": r.choice(["fork", "fork", "spawn"])})
    r.shuffle(runs)
    known = G.known_edges(r, ds["names"], r.choice([0, 0, .15, .4]))
    return {"other": E.gen_other(r, ds, {"kind": "cb", "exp": exp, "chi": chi, "thr": thr, "known": known}, 0.25),
            "ds": ds, "exp": exp, "chi": chi, "thr": thr,
            "known": known,
            "runs": runs}


def critical(r, ds, exp, chi):
    """A data threshold that a variable's larger tests just miss."""
    tr = []
    try:
        ref.ctpc(ds, exp, chi, (), 0, None, tr)
    except ref.Ambiguous:
        pass
    if not tr:
        return r.choice([1, 25])
    top = max(b for b, _ in tr)
    x = r.choice([m for b, m in tr if b == (top if r.random() < 0.8 else r.randint(0, top))] or [tr[0][1]])
    return round(x * r.uniform(1.0, 1.5), 3) + 0.001


def estimator(sp, case):
    from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
    kw = {}
    if case["known"]:
        kw["known_edges"] = [tuple(e) for e in case["known"]]
    if case["thr"] != 25:
        kw["thumb_threshold"] = case["thr"]
    return StructureConstraintBasedEstimator(sp, case["exp"], case["chi"], **kw)


def expected(case, probes=None):
    try:
        return ref.ctpc(case["ds"], case["exp"], case["chi"], case["known"], case["thr"], probes)
    except ref.Ambiguous:
        raise Skip("a test statistic sits on its threshold")


def edges_of(x):
    out = set()
    n = 0
    for e in x:
        a, b = e
        out.add((str(a), str(b)))
        n += 1
    check(n == len(out), "repeated edges", "%d edges returned, %d distinct", n, len(out))
    return out


def diff(got, want):
    return "missing %s, unexpected %s" % (sorted(want - got), sorted(got - want))


def run(case, ctx):
    probes = {}
    want = expected(case, probes)
    for k, v in probes.items():
        ctx.probe(k, v)
    inter = False
    kept = E.other_first(ctx, case["ds"], case.get("other"))
    for i, rn in enumerate(case["runs"]):
        with ctx.kernel("run%d" % i, cpus=rn.get("cpus", 4), start_method=rn.get("method", "fork")) as k:
            sp = must("building the dataset", G.sample_path, case["ds"])
            est = must("building the estimator", estimator, sp, case)
            got = edges_of(must("estimate_structure", est.estimate_structure, not rn["mp"], rn.get("procs")))
            inter = inter or k.switches > 8
        check(got == want, "wrong edges", "run %d (%s): %s", i, rn, diff(got, want))
    del kept
    ctx.nontrivial = bool(probes.get("thumb") or case["known"] or inter or
                          any(k.startswith("removed_level") and k != "removed_level0" for k in probes))
    ctx.seen(case["ds"], case["exp"], case["chi"], case["thr"], case["known"], sorted(want))


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    for rn in case["runs"]:
        if len(case["runs"]) > 1:
            yield dict(case, runs=[rn])
    if case["known"]:
        yield dict(case, known=[])
        for i in range(len(case["known"])):
            yield dict(case, known=case["known"][:i] + case["known"][i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)
    if case["thr"] not in (0, 25):
        yield dict(case, thr=25)

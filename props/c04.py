"""C04 score-based search always ends with a valid structure."""
from sim import est as E
from sim import gen as G
from sim.case import check, must, seed_streams

ID = "C04"
QUICK, THOROUGH = 900, 40000
RULE = ("Each case: a dataset, known edges (none to all), optimiser, limits and seeds of the random streams; one "
        "sequential and one simulated pool run (seeded schedule, workers with inherited or fresh random streams). "
        "Blocking for ever is detected as no runnable task, looping by a step budget. Non-trivial: known edges or a "
        "parent limit constrain the search, or it accepted a move; distinct by dataset, settings and results.")
REAL = ["StructureScoreBasedEstimator", "HillClimbing", "TabuSearch", "FamScoreCalculator", "ParametersEstimator"]
STUB = ["queue.Queue (blocking get under the scheduler)", "process pool", "entropy", "cpu count"]


def gen(r, idx, tier):
    ds = G.dataset(r, 2, 4, (12, 100), r.choice([2, 3, 3, 4]))
    s = E.gen_sb(r, ds["names"])
    if idx % 3 == 1:
        ds = G.rich(r)
        s = E.gen_rich_sb(r, ds["names"])
    elif idx % 12 == 5:
        ds = G.wide(r)
        s = E.gen_wide_sb(r, ds["names"])
    if idx % 120 == 50:     # far more iterations than usual
        ds = G.dataset(r, 2, 3, (12, 30), 2)
        s = E.gen_sb(r, ds["names"], 0)
        s.update(iterations=r.randint(1050, 1300), patience=r.choice([None, 1040]), max_parents=r.choice([None, 1]))
    return {"ds": ds, "s": s, "other": E.gen_other(r, ds, s) if idx % 120 != 50 else None, "seeds": [r.randrange(2 ** 32) for _ in range(2)],
            "procs": r.choice([None, 1, 2, 3, 9]), "cpus": r.choice([1, 2, 4, 8]), "method": r.choice(["fork", "spawn"])}


def valid(ds, s, got, what):
    nm = ds["names"]
    sc = E.Scores(ds, s)
    known = {tuple(e) for e in s["known"]}
    for a, b in got:
        check(a in nm and b in nm and a != b, "invalid edge", "%s: %s", what, (a, b))
    check(known <= got, "known edge dropped", "%s: %s", what, sorted(known - got))
    for c in nm:
        ps = {a for a, b in got if b == c}
        kn = {a for a, b in known if b == c}
        if s["max_parents"] is not None:
            check(len(ps) <= max(s["max_parents"], len(kn)), "too many parents", "%s: %s has %s (limit %s, known %s)",
                  what, c, sorted(ps), s["max_parents"], sorted(kn))
        if ps != kn:
            x, y = sc(c, ps), sc(c, kn)
            check(x >= y - E.tol(y), "worse than the known parents", "%s: %s scores %.9g with %s, %.9g with %s", what, c, x,
                  sorted(ps), y, sorted(kn))


def run(case, ctx):
    ds, s = case["ds"], case["s"]
    moved = False
    kept = E.other_first(ctx, ds, case.get("other"))
    for i, seed in enumerate(case["seeds"]):
        with ctx.kernel("run%d" % i, cpus=case["cpus"], start_method=case["method"]):
            seed_streams(seed)
            sp = must("building the dataset", G.sample_path, ds)
            est = must("building the estimator", E.make, sp, s)
            got = E.edges_of(must("estimate_structure", E.estimate, est, s, bool(i % 2), case["procs"]))
        valid(ds, s, got, "run %d" % i)
        moved = moved or got != {tuple(e) for e in s["known"]}
        ctx.seen(sorted(got) if not i else None)
    del kept
    for c in ds["names"]:
        kn = [e for e in s["known"] if e[1] == c]
        if len(kn) == len(ds["names"]) - 1:
            ctx.probe("no_candidates")
        if s["max_parents"] is not None and len(kn) >= s["max_parents"]:
            ctx.probe("no_room")
        if s["max_parents"] is not None and kn and len(kn) < s["max_parents"]:
            ctx.probe("known_with_room")
    if s["tabu_length"] == 0:
        ctx.probe("tabu_length_0")
    ctx.nontrivial = bool(s["known"]) or s["max_parents"] is not None or moved
    ctx.seen(ds, s)


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    if len(case["seeds"]) > 1:
        yield dict(case, seeds=case["seeds"][:1])
    s = case["s"]
    for k, v in (("patience", None), ("tabu_length", None), ("tabu_dur", None), ("tau", None), ("alpha", None)):
        if s[k] is not None:
            yield dict(case, s=dict(s, **{k: v}))
    for n in (0, 1, 2, 5, 12):
        if s["iterations"] > n:
            yield dict(case, s=dict(s, iterations=n))
    for i in range(len(s["known"])):
        yield dict(case, s=dict(s, known=s["known"][:i] + s["known"][i + 1:]))
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

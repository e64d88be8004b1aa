"""C02 a failed or interrupted estimation surfaces and leaves no trace."""
from sim import est as E
from sim import gen as G
from sim.case import Skip, attempt, check, describe, must, seed_streams

ID = "C02"
QUICK, THOROUGH = 800, 30000
RULE = ("Each case: one dataset and estimator (constraint-based, hill climbing or tabu), 1-4 attempts on the same "
        "objects, each sequential or on a simulated pool and each with a fault at a seeded step (KeyboardInterrupt or "
        "MemoryError in the caller or a worker, worker killed, process start failing), then fault-free attempts "
        "compared with the answer on fresh objects. Non-trivial: at least one fault struck and surfaced; distinct by "
        "dataset, settings and fault points.")
REAL = ["StructureConstraintBasedEstimator", "StructureScoreBasedEstimator", "optimizers", "Cache",
        "ParametersEstimator", "SampleImporter/SamplePath"]
STUB = ["process pool and its processes", "entropy", "cpu count"]
ASSUMPTIONS = ["exceptions strike between source lines of the package, not inside a C call"]


def gen(r, idx, tier):
    ds = G.dataset(r, 2, 4, (15, 120), r.choice([2, 3, 3]), prior=r.choice([0, 0, 1]))
    kind = r.choice(["cb", "cb", "cb", "sb"])
    s = E.gen_cb(r, ds["names"]) if kind == "cb" else E.gen_sb(r, ds["names"])
    if kind == "sb" and r.random() < 0.5:
        s.update(iterations=60, patience=None, max_parents=None)      # converges: any worker order can be judged
    atts = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        mp = r.random() < 0.45
        f = {"mp": mp, "procs": r.choice([None, 1, 2, 3]), "cpus": r.choice([1, 2, 4]),
             "method": r.choice(["fork", "spawn"]), "seed": r.randrange(10 ** 6),
             "fault": r.choice(["interrupt", "memory"]), "frac": r.random(), "who": "caller"}
        if r.random() < 0.15:
            f["frac"] = r.choice([0.0, 0.97 + 0.03 * r.random()])
        if mp:
            f["who"] = r.choice(["worker", "worker", "worker", "start", "caller"])
            if f["who"] == "worker":
                f["fault"] = r.choice(["crash", "crash", "memory", "interrupt"])
                f["n"] = r.randrange(3)
            elif f["who"] == "start":
                f["n"] = r.randrange(3)
        atts.append(f)
    if r.random() < 0.3:
        atts.insert(r.randrange(len(atts) + 1), dict(atts[0], who="none"))
    return {"ds": ds, "s": s, "other": E.gen_other(r, ds, s), "atts": atts, "final_seed": r.randrange(10 ** 6), "fresh_est": r.random() < 0.2}


def local_optimum(ds, s, got):
    """Per variable: no single toggle of a free candidate improves the reference score."""
    sc = E.Scores(ds, s)
    for c in ds["names"]:
        known = {a for a, b in s["known"] if b == c}
        ps = {a for a, b in got if b == c}
        check(known <= ps, "incomplete result", "known parents %s of %s are missing", sorted(known - ps), c)
        here = sc(c, ps)
        for x in ds["names"]:
            if x != c and x not in known:
                other = sc(c, ps ^ {x})
                check(other <= here + E.tol(here), "incomplete result",
                      "%s: parents %s score %.9g, toggling %s gives %.9g", c, sorted(ps), here, x, other)


def run(case, ctx):
    ds, s = case["ds"], case["s"]
    nm = ds["names"]
    cb = s["kind"] == "cb"
    converges = not cb and s["iterations"] >= 60 and s["patience"] is None and s["max_parents"] is None \
        and len(nm) <= 3
    want = E.cb_expected(ds, s) if cb else None

    def fresh(seed, key):
        with ctx.kernel(key, fresh=True) as k:
            sp = must("building the dataset", G.sample_path, ds)
            e = must("building the estimator", E.make, sp, s)
            n0 = k.steps
            seed_streams(seed)
            return E.edges_of(must("estimate_structure on fresh objects", E.estimate, e, s)), k.steps - n0
    base, base_steps = fresh(case["final_seed"], "fresh")
    if cb:
        check(base == want, "wrong edges", "fresh sequential run: %s", E.diff(base, want))
    complete = {(a, b) for a in nm for b in nm if a != b}

    def judge(got, f, seed, key, what):
        if cb:
            check(got == want, "wrong result", "%s: %s", what, E.diff(got, want))
        elif not f["mp"]:
            w, _ = fresh(seed, key + "-fresh")
            check(got == w, "wrong result", "%s: %s", what, E.diff(got, w))
        elif converges:
            local_optimum(ds, s, got)
        else:
            known = {tuple(e) for e in s["known"]}
            check(known <= got, "wrong result", "%s: known edges missing: %s", what, sorted(known - got))

    kept = E.other_first(ctx, ds, case.get("other"))
    with ctx.kernel("build"):
        sp = must("building the dataset", G.sample_path, ds)
        est = must("building the estimator", E.make, sp, s)
        before = E.adjacency(est, nm)
        check(before == complete, "wrong initial structure", "%s", sorted(before))
    struck = 0
    atts = list(case["atts"]) + [dict(mp=False, who="none", seed=case["final_seed"], cpus=2)]
    for i, f in enumerate(atts):
        key = "att%d" % i
        seed_streams(f["seed"])
        step = max(1, int(f.get("frac", 0) * base_steps))
        with ctx.kernel(key, cpus=f.get("cpus", 2), start_method=f.get("method", "fork")) as k:
            if f["who"] == "caller":
                lim = step if not f["mp"] else max(1, int(f["frac"] * (len(nm) * 2 + 40)))
                k.root.plan = [(lim, f["fault"])]
            elif f["who"] == "worker":
                k.worker_plan = {f["n"]: [(max(1, step // (1 if f["n"] else 2)), f["fault"])]}
            elif f["who"] == "start":
                k.start_fail = [f["n"]]
            if case.get("fresh_est") and f["who"] == "none":
                k.root.plan = []
                est = must("building another estimator", E.make, sp, s)
                before = complete
            st, v = attempt(E.estimate, est, s, f["mp"], f.get("procs"))
            k.root.plan = []
            n_faults = sum(n for a, n in k.counts.items() if a.startswith("fault_")) + k.counts.get("start_failure", 0)
            if st == "ok":
                got = E.edges_of(v)
            else:
                check(n_faults > 0, "unexpected exception", "attempt %d (%s): %s", i, f, describe(v))
                struck += 1
                ctx.probe("surfaced_" + f["who"] + ("_mp" if f["mp"] else ""))
            adj = E.adjacency(est, nm)
        if st == "ok":
            judge(got, f, f["seed"], key, "attempt %d%s" % (i, " (after a failure)" if struck else ""))
            check(adj == got, "wrong reported structure", "attempt %d: adjacency differs from the result: %s", i,
                  E.diff(adj, got))
            if n_faults:
                ctx.probe("survived")
        elif adj != before:
            # the new structure may already be in place, but then completely
            if cb:
                check(adj == want, "partial structure", "after the failure of attempt %d: %s", i, E.diff(adj, want))
            elif not f["mp"]:
                w, _ = fresh(f["seed"], key + "-fresh")
                check(adj == w, "partial structure", "after the failure of attempt %d: %s", i, E.diff(adj, w))
            elif converges:
                local_optimum(ds, s, adj)
            ctx.probe("replaced_before_failure")
        before = adj
    del kept
    ctx.nontrivial = struck > 0
    ctx.seen(ds, s, case["atts"])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    a = case["atts"]
    for i in range(len(a)):
        if len(a) > 1:
            yield dict(case, atts=a[:i] + a[i + 1:])
    if case.get("fresh_est"):
        yield dict(case, fresh_est=False)
    if case["s"].get("known"):
        yield dict(case, s=dict(case["s"], known=[]))
    for i, f in enumerate(a):
        if f["mp"] and f["who"] == "caller":
            yield dict(case, atts=a[:i] + [dict(f, mp=False)] + a[i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

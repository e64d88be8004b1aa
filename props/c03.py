"""C03 estimations on shared data never influence one another."""
from sim import est as E
from sim import gen as G
from sim import ref
from sim.case import attempt, check, describe, must, seed_streams
from props.c04 import valid

ID = "C03"
QUICK, THOROUGH = 700, 30000
RULE = ("Each case: one dataset imported once, 2-4 estimators on it and a history of 3-9 requests (structure estimations "
        "of every kind, sequential or on a simulated pool; parameter learning; family scores; other datasets of the same "
        "size used and dropped in between), then 2-3 threads making requests (some of them on another dataset) at the same time under a scheduler that may switch before any source line of the package. Every "
        "answer is compared with the reference answer or the same request alone on a fresh copy. Non-trivial: an "
        "estimator was used twice, or two threads were interleaved inside the package; distinct by history and switches.")
REAL = ["StructureConstraintBasedEstimator", "StructureScoreBasedEstimator", "optimizers", "Cache",
        "ParametersEstimator", "FamScoreCalculator", "SamplePath", "NetworkGraph"]
STUB = ["threads (baton, switched at source lines)", "process pool", "entropy", "cpu count"]
ASSUMPTIONS = ["threads switch between source lines of the package, not inside one"]


def gen(r, idx, tier):
    ds = G.dataset(r, 2, 4, (15, 110), r.choice([2, 3, 3]), prior=r.choice([0, 1, 2, 2]))
    nm = ds["names"]
    ests = []
    for i in range(r.randint(2, 4)):
        ests.append(E.gen_cb(r, nm) if r.random() < 0.55 else E.gen_sb(r, nm))
        if r.random() < 0.3 and i:
            ests[-1] = dict(ests[0], known=ests[-1]["known"])

    def req(threaded, allow_sb=True):
        u = r.random()
        n = r.choice(nm)
        if u < 0.6:
            e = r.randrange(len(ests))
            sb = ests[e]["kind"] != "cb"
            if not (sb and not allow_sb):
                return {"op": "est", "e": e, "seed": r.randrange(2 ** 32), "mp": (not sb) and
                        r.random() < (0.15 if threaded else 0.4), "procs": r.choice([None, 1, 2, 3])}
        if u < 0.85:
            return {"op": "params", "node": n, "parents": r.choice([None, r.sample(nm, r.randint(0, len(nm)))])}
        if u < (0.92 if threaded else 0.98):
            return {"op": "other", "seed": r.randrange(2 ** 32), "times": 1 if threaded else r.randint(2, 8), "node": n,
                    "parents": r.sample(nm, r.randint(0, len(nm))), "e": r.choice([None, r.randrange(len(ests))])}
        return {"op": "score", "node": n, "parents": r.sample(nm, r.randint(0, len(nm)))}
    seq = [req(False) for _ in range(r.randint(2, 6))]
    threads, sb_used = [], False
    if r.random() < 0.7:
        for _ in range(r.choice([2, 2, 3])):
            t = []
            for _ in range(r.choice([1, 1, 2])):
                q = req(True, not sb_used)
                t.append(q)
            sb_used = sb_used or any(q["op"] == "est" and ests[q["e"]]["kind"] != "cb" for q in t)
            threads.append(t)
    tail = [req(False) for _ in range(r.randint(0, 2))]
    return {"ds": ds, "ests": ests, "seq": seq, "threads": threads, "tail": tail,
            "mean": r.choice([20, 60, 200, 800, 3000]), "cpus": r.choice([1, 2, 4])}


def own(ds, node):
    return sorted({a for a, b in ds["prior"] or [] if b == node}, key=ds["names"].index)


def execute(sp, ests, q):
    if q["op"] == "est":
        s, e = ests[q["e"]]
        if s["kind"] != "cb":
            seed_streams(q["seed"])
        return E.estimate(e, s, q["mp"], q["procs"])
    ps = q["parents"]
    if ps is not None:
        ps = [p for p in ps if p != q["node"]]
    if q["op"] == "params":
        return E.learn(sp, q["node"], ps)
    from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
    from PyCTBN.PyCTBN.structure_graph.structure import Structure
    st = sp.structure
    g = NetworkGraph(Structure(list(st.nodes_labels), st.nodes_indexes, st.nodes_values, [], st.total_variables_number))
    g.add_edges([(p, q["node"]) for p in ps])
    return E.sb_class()(sp).get_score_from_graph(g, q["node"])


def elsewhere(case, q):
    """Other datasets of the same dimensions, one after another in the same process, each forgotten after use."""
    ps = [p for p in q["parents"] if p != q["node"]]
    for i in range(q["times"]):
        ds = G.variation(case["ds"], q["seed"] + i)
        sp = must("building another dataset", G.sample_path, ds)
        what = "dataset %d of %s" % (i, q)
        E.check_cims(ds, q["node"], ps, must("learning on " + what, E.learn, sp, q["node"], ps), what)
        E.check_cims(ds, q["node"], [], must("learning on " + what, E.learn, sp, q["node"], None), what)
        s = None if q["e"] is None else case["ests"][q["e"]]
        if s and s["kind"] == "cb":
            try:
                w = ref.ctpc(ds, s["exp"], s["chi"], s.get("known", ()), s.get("thr", 25))
            except ref.Ambiguous:
                continue
            got = E.edges_of(must("estimating on " + what, E.estimate, E.make(sp, s), s))
            check(got == w, "influenced by other datasets", "%s: %s", what, E.diff(got, w))
        del sp, s       # the next one may get its place in memory


def run(case, ctx):
    ds = case["ds"]
    nm = ds["names"]
    fresh = {}

    def alone(q):
        s = case["ests"][q["e"]]
        key = "alone-%d-%s" % (q["e"], q["seed"])
        if key not in fresh:
            with ctx.kernel(key, fresh=True, cpus=case["cpus"]):
                sp1 = must("building the dataset", G.sample_path, ds)
                e = must("building the estimator", E.make, sp1, s)
                seed_streams(q["seed"])
                fresh[key] = E.edges_of(must("estimate_structure on fresh objects", E.estimate, e, s))
        return fresh[key]
    expected = {i: E.cb_expected(ds, s) for i, s in enumerate(case["ests"]) if s["kind"] == "cb"}
    done = []
    with ctx.kernel("build", cpus=case["cpus"]):
        sp = must("building the dataset", G.sample_path, ds)
        ests = [(s, must("building the estimator", E.make, sp, s)) for s in case["ests"]]
        before = E.snapshot(sp)
    used = {}

    def note(q, v, when):
        if q["op"] == "est":
            used[q["e"]] = used.get(q["e"], 0) + 1
            v = E.edges_of(v)
        done.append((q, v, when))

    def sequence(reqs, label):
        for i, q in enumerate(reqs):
            with ctx.kernel("%s%d" % (label, i), cpus=case["cpus"]):
                if q["op"] == "other":
                    elsewhere(case, q)
                    ctx.probe("other_datasets", q["times"])
                    continue
                st, v = attempt(execute, sp, ests, q)
                check(st == "ok", "unexpected exception", "%s %d %s raised %s", label, i, q, describe(v) if st != "ok" else "")
            note(q, v, "%s %d" % (label, i))
    sequence(case["seq"], "request")
    if case["threads"]:
        out = []
        with ctx.kernel("threads", cpus=case["cpus"], preempt_mean=case["mean"]) as k:
            def body(i, reqs):
                for j, q in enumerate(reqs):
                    if q["op"] == "other":
                        elsewhere(case, q)
                        ctx.probe("other_datasets_beside")
                        continue
                    try:
                        out.append((i, j, q, "ok", execute(sp, ests, q)))
                    except Exception as e:
                        out.append((i, j, q, "exc", e))
            ts = [k.spawn(lambda i=i, t=t: body(i, t), k.root, "caller%d" % i, preempt=True)
                  for i, t in enumerate(case["threads"])]
            k.block(lambda: all(t.done for t in ts), "callers")
            for t in ts:
                if t.exc is not None:
                    raise t.exc
            ctx.probe("preempted_in_package", k.counts.get("preemption", 0))
            if k.counts.get("preemption", 0) > 1:
                ctx.nontrivial = True
            ctx.seen(k.sched_digest.hexdigest())
        for i, j, q, st, v in out:
            check(st == "ok", "unexpected exception", "thread %d request %d %s raised %s", i, j, q,
                  describe(v) if st != "ok" else "")
            note(q, v, "thread %d request %d" % (i, j))
    sequence(case["tail"], "later request")
    for q, v, when in done:
        if q["op"] == "est":
            s = case["ests"][q["e"]]
            if s["kind"] == "cb":
                w = expected[q["e"]]
            else:
                w = alone(q)
                valid(ds, s, v, when)
            check(v == w, "influenced by earlier or concurrent requests", "%s: %s: %s", when, q, E.diff(v, w))
        else:
            ps = own(ds, q["node"]) if q["parents"] is None else [p for p in q["parents"] if p != q["node"]]
            if q["op"] == "params":
                E.check_cims(ds, q["node"], ps, v, when)
            else:
                w = ref.fam_score(ref.stats(ds, q["node"], ps), 0.1, 1)
                check(abs(v - w) <= E.tol(w), "wrong score", "%s: %s: %.12g, not %.12g", when, q, v, w)
    after = E.snapshot(sp)
    for what, a, b in zip(("transitions", "states", "times", "variable order", "cardinalities", "indexes", "size", "size",
                           "own edges"), before, after):
        check(a == b, "dataset changed", "its %s: %s -> %s", what, str(a)[:200], str(b)[:200])
    if any(n > 1 for n in used.values()):
        ctx.nontrivial = True
    ctx.seen(ds["names"], ds["cards"], case["ests"], case["seq"], case["threads"], case["tail"], len(ds["trajs"][0]))


def shrink(case):
    for key in ("tail", "seq"):
        for i in range(len(case[key])):
            yield dict(case, **{key: case[key][:i] + case[key][i + 1:]})
    t = case["threads"]
    if t:
        yield dict(case, threads=[])
        for i in range(len(t)):
            yield dict(case, threads=t[:i] + t[i + 1:])
            for j in range(len(t[i])):
                if len(t[i]) > 1:
                    yield dict(case, threads=t[:i] + [t[i][:j] + t[i][j + 1:]] + t[i + 1:])
    for i, s in enumerate(case["ests"]):
        if s.get("known"):
            yield dict(case, ests=case["ests"][:i] + [dict(s, known=[])] + case["ests"][i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

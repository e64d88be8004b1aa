"""C05 score-based search accepts only improvements and respects its budgets."""
from sim import est as E
from sim import gen as G
from sim.case import HarnessError, Violation, check, must, seed_streams

ID = "C05"
QUICK, THOROUGH = 900, 40000
RULE = ("Each case: a dataset and a search setting; the real search runs under a seeded random stream (sequentially or on "
        "a simulated pool) and the sequence of (parent set, score) evaluations of every variable is checked move by "
        "move against a model of the search. Non-trivial: some variable both accepted and rejected a move, or hit its "
        "patience, its parent limit or a full tabu list; distinct by evaluation history.")
REAL = ["StructureScoreBasedEstimator", "HillClimbing", "TabuSearch", "FamScoreCalculator", "ParametersEstimator"]
STUB = ["queue.Queue", "process pool", "entropy", "cpu count"]
ASSUMPTIONS = ["evaluations are observed by overriding get_score_from_graph in a subclass that calls the original"]


def gen(r, idx, tier):
    ds = G.dataset(r, 2, 5, (12, 100), r.choice([2, 3, 3]))
    s = E.gen_sb(r, ds["names"], r.choice([0, 0, 0.2, 0.4]))
    if idx % 3 == 1:
        ds = G.rich(r, 4, 6)
        s = E.gen_rich_sb(r, ds["names"])
    elif idx % 12 == 6:
        ds = G.wide(r, 7, 10)
        s = E.gen_wide_sb(r, ds["names"])
    if idx % 9 == 4:        # long enough to tell what is never tried
        ds = G.dataset(r, 3, 4, (12, 60), 3)
        s = E.gen_sb(r, ds["names"], r.choice([0, 0, 0.2]))
        s.update(iterations=200, patience=None, kind=r.choice(["hill", "tabu", "tabu", "tabu"]),
                 max_parents=r.choice([None, None, 1, 2]), tabu_length=r.choice([None, 0, 1, 1, 2, 3]),
                 tabu_dur=r.choice([None, 1, 2, 50, 1000]))
    if idx % 120 == 50:
        ds = G.dataset(r, 2, 3, (12, 30), 2)
        s = E.gen_sb(r, ds["names"], 0)
        s.update(iterations=r.randint(1050, 1300), patience=r.choice([None, 1040]), max_parents=r.choice([None, 1]))
    return {"ds": ds, "s": s, "other": E.gen_other(r, ds, s) if idx % 120 != 50 else None, "stream": r.randrange(2 ** 32), "mp": r.random() < 0.25, "procs": r.choice([None, 2, 3])}


def remembers(ctx, s):
    """Whether searches look up scores they have already computed, so that repeated moves are not seen as evaluations."""
    ds = {"names": ["A", "B"], "cards": [2, 2], "time": "Time", "prior": None, "form": "frame", "trajs": [[[0.0, 0, 0], [1.0, 1, 0], [1.5, 1, 1], [2.5, 0, 1], [3.0, 0, 0], [4.0, -1, -1]]]}
    q = dict(s, known=[], max_parents=None, iterations=12, patience=None, tabu_length=None, tabu_dur=None)
    del E.EVALS[:]
    with ctx.kernel("remembers", fresh=True):
        must("another search", lambda: E.estimate(E.make(G.sample_path(ds), q, True), q, False, None))
    seen = [ps for node, ps, _ in E.EVALS if node == "A"]
    del E.EVALS[:]
    return 1 < len(seen) <= 3


def model(ds, s, node, evals, returned, ctx, counted=True):
    """evals: [(parents, score)] of this node, in order; all of them, if counted, else only the new ones."""
    nm = ds["names"]
    known = {a for a, b in s["known"] if b == node}
    others = [x for x in nm if x != node and x not in known]
    mx = s["max_parents"]
    if not others or (mx is not None and len(known) >= mx):
        check(returned == known, "wrong parents", "%s: nothing to decide, got %s", node, sorted(returned))
        check(all(p == known for p, _ in evals), "moved without room", "%s: %s", node, evals)
        return
    if not evals and s["iterations"] == 0:
        check(returned == known, "wrong parents", "%s: no iteration, got %s", node, sorted(returned))
        return
    check(bool(evals), "no evaluation", "%s: the search returned %s without evaluating anything", node, sorted(returned))
    check(evals[0][0] == known, "wrong start", "%s starts from %s, known %s", node, sorted(evals[0][0]), sorted(known))
    inc, best = set(evals[0][0]), evals[0][1]
    tabu = s["kind"] == "tabu"
    L = len(others) if s["tabu_length"] is None else s["tabu_length"]
    D = len(others) if s["tabu_dur"] is None else s["tabu_dur"]
    q, cnt, bad = [], 0, 0
    moves = evals[1:]
    last, fresh = [], [0.0, 0]      # candidates by when they were last tried; draws of the latest one allowed again
    drawn = {x: [0.0, 0] for x in others}
    acc = rej = i = 0
    for ps, score in moves:
        if set(ps) == inc:      # a score looked up again, no move
            continue
        i += 1
        where = "%s, move %d: %s -> %s" % (node, i, sorted(inc), sorted(ps))
        check(i <= s["iterations"], "too many iterations", "%s (limit %d)", where, s["iterations"])
        if s["patience"] is not None:
            check(bad <= s["patience"], "patience exceeded", "%s after %d moves without improvement (patience %d)", where,
                  bad, s["patience"])
        add, rem = set(ps) - inc, inc - set(ps)
        check(known <= set(ps), "known parent moved", where)
        if len(add) == 1 and not rem:
            c = next(iter(add))
            check(mx is None or len(inc) < mx, "parent limit ignored", "%s (limit %s)", where, mx)
        elif not add and len(rem) == 1:
            c = next(iter(rem))
        elif len(add) == 1 and len(rem) == 1:
            c = next(iter(add))
            check(mx is not None and len(inc) >= mx, "swap below the limit", "%s (limit %s)", where, mx)
            ctx.probe("swap")
        else:
            raise Violation("not a single move", where)
        check(c in others, "not a candidate", where)
        allowed = [x for x in others if x not in q] if tabu else others
        if not counted:
            allowed = []
        for x in allowed:
            drawn[x][0] += 1.0 / len(allowed)
        drawn[c][1] += c in allowed
        again = [x for x in reversed(last) if x in allowed]
        if again:
            fresh[0] += 1.0 / len(allowed)
            fresh[1] += c == again[0]
        if c in last:
            last.remove(c)
        last.append(c)
        if tabu and counted:
            free = [x for x in others if x not in q]
            if free:
                check(c in free, "tabu candidate retried", "%s: %s is on the tabu list %s", where, c, q)
            else:
                check(c == q[0], "wrong candidate from a full tabu list", "%s: %s, oldest of %s expected", where, c, q)
                q.pop(0)
                ctx.probe("full_tabu_list")
            q.append(c)
            while len(q) > L:
                q.pop(0)
            cnt += 1
            if cnt % D == 0:
                if q:
                    q.pop(0)
                cnt = 0
        if score > best:
            inc, best, bad = set(ps), score, 0
            acc += 1
        else:
            bad += 1
            rej += 1
    if i < s["iterations"] and counted:
        check(s["patience"] is not None and bad == s["patience"] + 1, "stopped early",
              "%s: %d of %d iterations, %d moves without improvement, patience %s", node, i, s["iterations"], bad,
              s["patience"])
        ctx.probe("patience_stop")
    for x in others:
        check(drawn[x][0] < 25 or drawn[x][1] > 0, "candidate never tried", "%s: %s, %.0f draws expected in %d moves", node,
              x, drawn[x][0], len(moves))
    check(fresh[0] < 25 or fresh[1] > 0, "candidate off the tabu list never retried", "%s: %.0f draws expected in %d moves, "
          "tabu length %s, rule duration %s", node, fresh[0], len(moves), L, D)
    check(returned == inc, "wrong parents returned", "%s: returned %s, accepted %s", node, sorted(returned), sorted(inc))
    top = max(x for _, x in evals)
    check(best == top, "not the best evaluated", "%s: %.12g, best %.12g", node, best, top)
    if acc and rej:
        ctx.nontrivial = True
    ctx.probe("accepted", acc)
    ctx.probe("rejected", rej)


def settled(ds, s, node, returned):
    """For a long search whose evaluations were not seen: no single move from its result raises the score."""
    nm = ds["names"]
    known = {a for a, b in s["known"] if b == node}
    others = [x for x in nm if x != node and x not in known]
    mx = s["max_parents"]
    if mx is not None and len(known) >= mx or s["patience"] is not None or s["iterations"] < 150 or len(others) > 4:
        return
    sc = E.Scores(ds, s)
    have = sc(node, returned)
    for x in others:
        if x in returned:
            new = returned - {x}
        elif mx is None or len(returned) < mx:
            new = returned | {x}
        else:
            continue
        check(sc(node, new) <= have + E.tol(have), "improvement left out", "%s: %s scores %.9g, %s %.9g, after %d iterations",
              node, sorted(returned), have, sorted(new), sc(node, new), s["iterations"])


def run(case, ctx):
    ds, s = case["ds"], case["s"]
    kept = E.other_first(ctx, ds, case.get("other"))
    del E.EVALS[:]
    with ctx.kernel("run", cpus=4):
        seed_streams(case["stream"])
        sp = must("building the dataset", G.sample_path, ds)
        est = must("building the estimator", E.make, sp, s, True)
        got = E.edges_of(must("estimate_structure", E.estimate, est, s, case["mp"], case["procs"]))
    del kept
    ev = {c: [] for c in ds["names"]}
    for node, ps, v in E.EVALS:
        check(node in ev, "unknown variable", node)
        ev[node].append((ps, v))
    unobserved = not E.EVALS and s["iterations"] > 0
    del E.EVALS[:]
    for c in ds["names"]:
        if unobserved:
            # every move of every variable went another way than through get_score_from_graph (or there was none)
            known = {a for a, b in s["known"] if b == c}
            check(known <= {a for a, b in got if b == c}, "wrong parents", "%s: a known parent is missing", c)
            settled(ds, s, c, {a for a, b in got if b == c})
            continue
        returned = {a for a, b in got if b == c}
        try:
            model(ds, s, c, ev[c], returned, ctx)
        except Violation:
            if len(set(map(frozenset, [p for p, _ in ev[c][1:]]))) < len(ev[c]) - 1 or not remembers(ctx, s):
                raise
            model(ds, s, c, ev[c], returned, ctx, False)
            settled(ds, s, c, returned)
    if s["patience"] is not None or s["max_parents"] is not None:
        ctx.nontrivial = True
    ctx.seen([(c, [(sorted(p), "%.6g" % v) for p, v in ev[c]]) for c in ds["names"]])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    if case["mp"]:
        yield dict(case, mp=False)
    s = case["s"]
    for k in ("patience", "tabu_length", "tabu_dur", "tau", "alpha", "max_parents"):
        if s[k] is not None:
            yield dict(case, s=dict(s, **{k: None}))
    if s["known"]:
        yield dict(case, s=dict(s, known=[]))
    for n in (1, 2, 3, 5, 12):
        if s["iterations"] > n:
            yield dict(case, s=dict(s, iterations=n))
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

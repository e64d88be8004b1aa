"""Shared by the estimation properties: building estimators, requests, observing searches."""
from . import ref
from .case import Skip, check

EVALS = []          # (node, parents, score) in evaluation order, across simulated processes


def cb(sp, s):
    from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
    kw = {}
    if s.get("known"):
        kw["known_edges"] = [tuple(e) for e in s["known"]]
    if s.get("thr", 25) != 25:
        kw["thumb_threshold"] = s["thr"]
    return StructureConstraintBasedEstimator(sp, s["exp"], s["chi"], **kw)


def sb_class():
    from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator
    return StructureScoreBasedEstimator


def sb_kwargs(s):
    kw = {}
    if s.get("known"):
        kw["known_edges"] = [tuple(e) for e in s["known"]]
    if s.get("tau") is not None:
        kw["tau_xu"] = s["tau"]
    if s.get("alpha") is not None:
        kw["alpha_xu"] = s["alpha"]
    return kw


_rec = {}


def recording_class():
    """The real estimator; its score function also notes what it was asked (graph, node) and what it said."""
    base = sb_class()
    if base not in _rec:
        def get_score_from_graph(self, graph, node_id):
            parents = frozenset(str(a) for a, b in graph.edges if b == node_id)
            v = base.get_score_from_graph(self, graph, node_id)
            EVALS.append((str(node_id), parents, float(v)))
            return v
        cls = type("RecordingEstimator", (base,), {"get_score_from_graph": get_score_from_graph,
                                                    "__module__": __name__})
        _rec[base] = cls
        globals()["RecordingEstimator"] = cls
    return _rec[base]


LEARNED = []        # variables in the order their learning began, across simulated processes


def counting_class(base, method):
    """The real estimator; it also notes which variables it learns."""
    if (base, method) not in _rec:
        def one(self, node, *a, **kw):
            LEARNED.append(str(node))
            return getattr(base, method)(self, node, *a, **kw)
        name = "Counting" + base.__name__
        cls = type(name, (base,), {method: one, "__module__": __name__})
        one.__name__ = method
        one.__qualname__ = name + "." + method
        _rec[base, method] = cls
        globals()[name] = cls
    return _rec[base, method]


def make_counting(sp, s):
    """make(), with LEARNED kept."""
    est = make(sp, s)
    method = "one_iteration_of_CTPC_algorithm" if s["kind"] == "cb" else "estimate_parents"
    if hasattr(est, method):
        est.__class__ = counting_class(type(est), method)
    return est


def make(sp, s, recording=False):
    if s["kind"] == "cb":
        return cb(sp, s)
    cls = recording_class() if recording else sb_class()
    return cls(sp, **sb_kwargs(s))


DEFAULTS = {"max_parents": None, "iterations_number": 40, "patience": None, "tabu_length": None,
            "tabu_rules_duration": None, "optimizer": "tabu"}


def search_kwargs(s):
    kw = dict(max_parents=s.get("max_parents"), iterations_number=s.get("iterations", 40),
                patience=s.get("patience"), tabu_length=s.get("tabu_length"),
                tabu_rules_duration=s.get("tabu_dur"), optimizer=s["kind"])
    if s.get("brief"):      # as documented when left out
        kw = {k: v for k, v in kw.items() if v != DEFAULTS[k]}
    return kw


def estimate(est, s, mp=False, procs=None):
    if s["kind"] == "cb":
        return est.estimate_structure(not mp, procs)
    return est.estimate_structure(disable_multiprocessing=not mp, processes_number=procs, **search_kwargs(s))


def edges_of(x):
    out = set()
    n = 0
    for e in x:
        a, b = e
        out.add((str(a), str(b)))
        n += 1
    check(n == len(out), "repeated edges", "%d edges returned, %d distinct", n, len(out))
    return out


def diff(got, want):
    return "missing %s, unexpected %s" % (sorted(want - got), sorted(got - want))


def cb_expected(ds, s, probes=None):
    try:
        return ref.ctpc(ds, s["exp"], s["chi"], s.get("known", ()), s.get("thr", 25), probes)
    except ref.Ambiguous:
        raise Skip("a test statistic sits on its threshold")


def adjacency(est, names):
    m = est.adjacency_matrix()
    n = len(names)
    check(getattr(m, "shape", None) == (n, n), "wrong adjacency matrix", "shape %s", getattr(m, "shape", None))
    return {(names[i], names[j]) for i in range(n) for j in range(n) if bool(m[i][j])}


class Scores:
    """Reference family scores of a dataset, memoised."""

    def __init__(self, ds, s):
        self.ds, self.tau, self.alpha, self.m = ds, s.get("tau"), s.get("alpha"), {}
        self.tau = 0.1 if self.tau is None else self.tau
        self.alpha = 1 if self.alpha is None else self.alpha

    def __call__(self, child, parents):
        key = (child, frozenset(parents))
        if key not in self.m:
            self.m[key] = ref.fam_score(ref.stats(self.ds, child, parents), self.tau, self.alpha)
        return self.m[key]


def tol(x):
    return 1e-7 * max(1.0, abs(x))


def gen_cb(r, nm):
    from . import gen as G
    return {"kind": "cb", "exp": r.choice([0.01, 0.05, 0.1, 0.3]), "chi": r.choice([0.01, 0.05, 0.1, 0.3]),
            "thr": r.choice([25, 25, 1, 3, 8, 60]), "known": G.known_edges(r, nm, r.choice([0, 0, .15, .4]))}


def gen_sb(r, nm, known=None):
    from . import gen as G
    return {"kind": r.choice(["hill", "tabu"]), "known": G.known_edges(r, nm, known),
            "max_parents": r.choice([None, None, 0, 1, 1, 2, 3]), "iterations": r.choice([0, 1, 2, 5, 12, 25, 40, 40]),
            "patience": r.choice([None, None, 0, 1, 2, 5, 10]),
            "brief": r.random() < 0.5, "tabu_length": r.choice([None, None, 0, 1, 2, 3, 8]),
            "tabu_dur": r.choice([None, None, 1, 2, 3, 5, 20]),
            "tau": r.choice([None, None, 0.5, 2.0]), "alpha": r.choice([None, None, 0.5, 3])}


def gen_other(r, ds, s, p=0.3):
    """Another estimation of the same dimensions to go on before, in the same interpreter: other data, as many known edges."""
    if r.random() >= p:
        return None
    nm = ds["names"]
    pairs = [(a, b) for a in nm for b in nm if a != b]
    r.shuffle(pairs)
    known = []
    for e in pairs:
        if len(known) < len(s.get("known") or []) and sum(x[1] == e[1] for x in known) < 3:
            known.append(list(e))
    o = dict(s, known=known)
    if r.random() < 0.5:
        if s["kind"] == "cb":
            o[r.choice(["exp", "chi"])] = r.choice([0.01, 0.05, 0.1, 0.3])
            o["thr"] = r.choice([25, 1, 8, s.get("thr", 25)])
        else:
            o.update(kind=r.choice(["hill", "tabu"]), max_parents=r.choice([None, 0, 1, 2]) if len(nm) < 5 else 1,
                     tau=r.choice([None, 0.5, 2.0, 10.0]), alpha=r.choice([None, 0.5, 3, 30]))
    return {"seed": r.randrange(2 ** 32), "s": o, "kept": r.random() < 0.5}


def other_first(ctx, ds, o):
    """Returns what stays alive of it."""
    from . import gen as G
    from .case import must, seed_streams
    if not o:
        return None
    with ctx.kernel("other"):
        seed_streams(o["seed"])
        sp = must("building another dataset", G.sample_path, G.variation(ds, o["seed"]))
        est = must("building another estimator", make, sp, o["s"])
        edges_of(must("another estimate_structure", estimate, est, o["s"]))
    ctx.probe("other_estimation_before")
    return (sp, est) if o["kept"] else None


def gen_wide_sb(r, nm):
    """Settings for many variables: few known edges and few parents, or matrices get too many to compute."""
    s = gen_sb(r, nm, r.choice([0, 0, 0.1]))
    s["known"] = [e for i, e in enumerate(s["known"]) if sum(x[1] == e[1] for x in s["known"][:i]) < 3]
    s["max_parents"] = r.choice([0, 1, 1, 2, 3])
    return s


def gen_rich_sb(r, nm):
    """Settings with room for a parent or two beside the known ones, and time to find them."""
    s = gen_sb(r, nm, r.choice([0, 0.25, 0.4]))
    s.update(max_parents=r.choice([None, 1, 2, 2, 3]), iterations=r.choice([12, 25, 40, 60]),
             patience=r.choice([None, None, None, 4, 8]))
    return s


# ------------------------------------------------------------------------------ parameter learning
def learn(sp, node, parents=None):
    """The real parameter learning of one variable; parents None: those of the dataset's own structure."""
    from PyCTBN.PyCTBN.structure_graph.structure import Structure
    from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
    from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
    st = sp.structure
    if parents is not None:
        st = Structure(list(st.nodes_labels), st.nodes_indexes, st.nodes_values, [(p, node) for p in parents],
                       st.total_variables_number)
    g = NetworkGraph(st)
    g.fast_init(node)
    p = ParametersEstimator(sp.trajectories, g)
    p.fast_init(node)
    return p.compute_parameters_for_node(node)


def check_cims(ds, node, parents, s, what):
    """A learnt SetOfCims against the replayed statistics, configuration by configuration."""
    want = ref.stats(ds, node, parents)
    cfgs = [tuple(int(v) for v in c) for c in s.p_combs]
    check(len(cfgs) == len(want) and set(cfgs) == set(want), "wrong configurations", "%s: %s given %s: %s", what, node,
          sorted(parents), cfgs)
    check(len(s.actual_cims) == len(want), "wrong number of matrices", "%s: %s given %s: %d, not %d", what, node,
          sorted(parents), len(s.actual_cims), len(want))
    for cfg, c in zip(cfgs, s.actual_cims):
        check_cim(c, want[cfg], "%s: %s given %s=%s" % (what, node, sorted(parents, key=ds["names"].index), list(cfg)))
    return want


def check_cim(c, stat, where):
    T, M = stat
    k = len(T)
    t, m, q = c.state_residence_times, c.state_transition_matrix, c.cim
    check(len(t) == k and getattr(m, "shape", None) == (k, k) and getattr(q, "shape", None) == (k, k),
          "wrong matrix size", "%s: %s %s %s", where, len(t), getattr(m, "shape", None), getattr(q, "shape", None))
    for i in range(k):
        check(abs(float(t[i]) - T[i]) <= 1e-9 * abs(T[i]) + 1e-13 * sum(T), "wrong residence time",
              "%s: %.12g in state %d, replay gives %.12g", where, t[i], i, T[i])
        for j in range(k):
            w = sum(M[i]) if i == j else M[i][j]
            check(float(m[i][j]) == w, "wrong transition count", "%s: %s from %d to %d, replay gives %s", where, m[i][j], i,
                  j, w)
            w = ((-sum(M[i]) if i == j else M[i][j]) + 1) / (T[i] + 1)
            check(abs(float(q[i][j]) - w) <= 1e-9 * abs(w) + 1e-12, "wrong intensity", "%s: %.12g from %d to %d, not %.12g",
                  where, q[i][j], i, j, w)


def snapshot(sp):
    """What a dataset must keep through every estimation."""
    import numpy as np
    t, s = sp.trajectories, sp.structure
    return (np.array(t.complete_trajectory).tolist(), np.array(t.trajectory).tolist(),
            [float(x) for x in t.times], list(map(str, s.nodes_labels)), [int(x) for x in s.nodes_values],
            [int(x) for x in s.nodes_indexes], int(s.total_variables_number), int(sp.total_variables_count),
            sorted((str(a), str(b)) for a, b in s.edges))

"""C06 estimated statistics and scores are exact and order-independent."""
import itertools

from sim import est as E
from sim import gen as G
from sim import ref, seams
from sim.case import attempt, check, describe, must, seed_streams

ID = "C06"
QUICK, THOROUGH = 1600, 80000
RULE = ("Each case: trajectories delivered by simulated worker processes in a seeded order, imported once, then a history "
        "of graph edits (edges and nodes) and requests for parameters and family scores on long-lived graph and "
        "estimator objects, some interrupted at a seeded step and repeated; every residence time, count, intensity, "
        "configuration list and score is compared with a row-by-row replay. All earlier answers are compared again at "
        "the end. Non-trivial: a variable with at least one parent was learnt after an edit or an interruption; "
        "distinct by dataset size, delivery order and history.")
REAL = ["SampleImporter", "SamplePath", "Structure", "NetworkGraph", "ParametersEstimator", "SetOfCims",
        "ConditionalIntensityMatrix", "FamScoreCalculator"]
STUB = ["the processes that deliver trajectories", "entropy"]
ASSUMPTIONS = ["interruptions strike between source lines of the package"]


def gen(r, idx, tier):
    ds = G.dataset(r, 1, 5, (3, 260), r.choice([2, 3, 4, 5]), trajs=(1, 6), prior=0)
    if idx % 12 == 3:        # more states than digits, more trajectories than fingers
        ds = G.dataset(r, 1, 3, (60, 300), 13, trajs=(8, 30), prior=0)
    if idx % 12 == 7:
        ds = G.wide(r, 6, 12, (5, 200), 4, prior=0)
    if idx % 48 == 35:       # hours of data
        ds = G.dataset(r, 1, 2, (3000, 9000), 3, trajs=(1, 4), prior=0)
    if idx % 48 == 11:       # more configurations than small integers can count
        ds = G.dataset(r, 4, 4, (60, 150), 14, trajs=(1, 4), prior=0)
        ds["cards"] = [max(c, 11 if i < 3 else 8) for i, c in enumerate(ds["cards"])]
        nm = ds["names"]
        a, b = r.sample(nm, 2)
        ops = [["add", x, a] for x in nm if x != a and (x != b or r.random() < 0.5)]
        ops += [["learn", a, False, None], ["learn", b, False, None]]
        return {"ds": ds, "edges": [], "ops": ops, "deliver": r.random() < 0.7, "method": r.choice(["fork", "spawn"])}
    nm = ds["names"]
    edges = G.known_edges(r, nm, r.choice([0, 0, 0.3, 0.7]) if len(nm) < 6 else r.choice([0, 0.15]))
    ops = []
    for _ in range(r.randint(3, 12)):
        u = r.random()
        if u < 0.3 and len(nm) > 1:
            a, b = r.sample(nm, 2)
            ops.append(["add", a, b])
        elif u < 0.45 and len(nm) > 1 and not edges:
            a, b = r.sample(nm, 2)
            ops.append(["del", a, b])
        elif u < 0.5 and len(nm) > 2:
            ops.append(["drop", r.choice(nm)])
        elif u < 0.85:
            ops.append(["learn", r.choice(nm), r.random() < 0.5,
                        [r.random() ** 2, r.choice(["interrupt", "memory"])] if r.random() < 0.25 else None])
        else:
            ops.append(["score", r.choice(nm), [x for x in nm if r.random() < 0.4][:5],
                        r.choice([0.1, 0.1, 0.5, 2.0, 10.0]), r.choice([1, 1, 0.5, 3, 4.2])])
    ops.append(["learn", r.choice(nm), False, None])
    if r.random() < 0.3 and len(nm) > 1:
        for _ in range(r.randint(1, 4)):
            n = r.choice(nm)
            ops.insert(r.randint(0, len(ops)), ["other", r.randrange(2 ** 32), n,
                                                [x for x in nm if x != n and r.random() < 0.4][:4]])
    return {"ds": ds, "edges": edges, "ops": ops, "deliver": r.random() < 0.7,
            "method": r.choice(["fork", "spawn"])}


def put(frame, out):
    out.append(frame)


def dataset(case, ctx):
    """The dataset as its workers delivered it: (SamplePath, dataset in delivery order)."""
    ds = case["ds"]
    if not case["deliver"] or len(ds["trajs"]) < 2:
        return must("building the dataset", G.sample_path, ds), ds
    frames = G.frames(ds)
    mp = seams.SHIMS["multiprocessing"]
    out = mp.Manager().list()
    ps = [mp.Process(target=put, args=((i, f), out)) for i, f in enumerate(frames)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    got = list(out)
    order = [i for i, _ in got]
    if order != sorted(order):
        ctx.probe("delivered_out_of_order")
    ds2 = dict(ds, trajs=[ds["trajs"][i] for i in order])
    from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath

    def build():
        imp = SampleImporter([f for _, f in got], G.variables(ds))
        imp.import_data()
        sp = SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        return sp
    ctx.seen(order)
    return must("building the dataset", build), ds2


def run(case, ctx):
    from PyCTBN.PyCTBN.structure_graph.structure import Structure
    from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
    from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
    from PyCTBN.PyCTBN.estimators.fam_score_calculator import FamScoreCalculator
    nm = case["ds"]["names"]
    with ctx.kernel("run", start_method=case["method"]) as k:
        sp, ds = dataset(case, ctx)
        st0 = sp.structure

        def structure(edges):
            return Structure(list(st0.nodes_labels), st0.nodes_indexes, st0.nodes_values, edges, st0.total_variables_number)
        st = structure([tuple(e) for e in case["edges"]])
        g = must("NetworkGraph", NetworkGraph, st)
        g.add_nodes(st.nodes_labels)
        g.add_edges(st.edges)
        est = must("ParametersEstimator", ParametersEstimator, sp.trajectories, g)
        model = {tuple(e) for e in case["edges"]}
        gone = set()
        held = []
        edited = False
        scorer = None

        def learn(node, e):
            g.fast_init(node)
            e.fast_init(node)
            return e.compute_parameters_for_node(node)
        for i, op in enumerate(case["ops"]):
            what = "operation %d %s" % (i, op)
            if any(x in gone for x in op[1:3] if isinstance(x, str)):
                continue
            if op[0] == "add":
                must(what, g.add_edges, [(op[1], op[2])])
                model.add((op[1], op[2]))
                edited = True
            elif op[0] == "del":
                if (op[1], op[2]) in model:
                    must(what, g.remove_edges, [(op[1], op[2])])
                    model.discard((op[1], op[2]))
                    edited = True
            elif op[0] == "drop":
                if len(gone) < len(nm) - 1:
                    must(what, g.remove_node, op[1])
                    gone.add(op[1])
                    model = {e for e in model if op[1] not in e}
                    edited = True
            elif op[0] == "other":
                o = G.variation(case["ds"], op[1])
                so = must("another dataset", G.sample_path, o)
                E.check_cims(o, op[2], op[3], must(what, E.learn, so, op[2], op[3]), what)
                del so
                ctx.probe("other_datasets")
            elif op[0] == "learn":
                node = op[1]
                ps = sorted({a for a, b in model if b == node}, key=nm.index)
                e = est if op[2] else must("ParametersEstimator", ParametersEstimator, sp.trajectories, g)
                if op[3]:
                    k.root.plan = [(k.root.steps + 1 + int(op[3][0] * 120), op[3][1])]
                    s, v = attempt(learn, node, e)
                    k.root.plan = []
                    if s == "exc":
                        check(isinstance(v, (KeyboardInterrupt, MemoryError)), "unexpected exception", "%s: %s", what,
                              describe(v) if s == "exc" else "")
                        ctx.probe("interrupted")
                        v = must(what + " (repeated)", learn, node, e)
                        ctx.nontrivial = ctx.nontrivial or bool(ps)
                else:
                    v = must(what, learn, node, e)
                got_ps = [str(x) for x in g.get_parents_by_id(node)]
                check(sorted(got_ps) == sorted(ps), "wrong parents", "%s: %s, not %s", what, got_ps, ps)
                want = E.check_cims(ds, node, ps, v, what)
                x, y = must("get_fam_score", FamScoreCalculator().get_fam_score, v.actual_cims), ref.fam_score(want, 0.1, 1)
                check(abs(x - y) <= 1e-9 * max(10, abs(y)), "wrong score", "%s: %.12g, not %.12g", what, x, y)
                held.append((what, node, ps, v))
                ctx.nontrivial = ctx.nontrivial or (edited and bool(ps))
                ctx.probe("learnt_with_%d_parents" % len(ps))
            else:
                _, node, ps, tau, alpha = op
                ps = [p for p in ps if p != node]
                g2 = NetworkGraph(structure([]))
                g2.add_edges([(p, node) for p in ps])
                from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator
                sc = must("StructureScoreBasedEstimator", StructureScoreBasedEstimator, sp, tau, alpha)
                for _ in range(2):
                    x = must(what, sc.get_score_from_graph, g2, node)
                    y = ref.fam_score(ref.stats(ds, node, ps), tau, alpha)
                    check(abs(x - y) <= 1e-9 * max(10, abs(y)), "wrong score", "%s: %.12g, not %.12g", what, x, y)
        for what, node, ps, v in held:
            E.check_cims(ds, node, ps, v, what + ", looked at again at the end")
    # conservation: every interval and every transition is accounted for once
    for node in nm[:2]:
        w = ref.stats(ds, node, [])
        tot = sum(float(b[0]) - float(a[0]) for t in ds["trajs"] for a, b in zip(t, t[1:]))
        check(abs(sum(map(sum, [T for T, _ in w.values()])) - tot) <= 1e-6 * max(1, tot), "reference model", "lost time")
    ctx.seen(nm, ds["cards"], [len(t) for t in ds["trajs"]], case["edges"], case["ops"])


def shrink(case):
    o = case["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield dict(case, ops=o[:i] + o[i + 1:])
    if case["deliver"]:
        yield dict(case, deliver=False)
    if case["edges"]:
        for i in range(len(case["edges"])):
            yield dict(case, edges=case["edges"][:i] + case["edges"][i + 1:])
    for i, op in enumerate(o):
        if op[0] == "learn" and op[3]:
            yield dict(case, ops=o[:i] + [op[:3] + [None]] + o[i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

"""C18 sampled trajectories can be learned from, in memory or through a file."""
import math

from sim import est as E
from sim import gen as G
from sim import net as N
from sim import ref, simfs
from sim.case import Skip, attempt, check, describe, must, seed_streams
from props.c08 import LIMIT, THETAS, Evidence

ID = "C18"
QUICK, THOROUGH = 400, 16000
RULE = ("Each case: a network and 1-3 rounds, each sampling further trajectories (one by one or in parallel worker "
        "processes, some attempts failing first), then handing all of them to learning twice: straight from memory, and "
        "saved and imported (some saves and reads failing first; some saves running beside the import from memory, "
        "preempted at package lines). Parameters under the network's own edges, constraint-based structures (sequential or "
        "on worker processes), seeded hill climbing and spurious edges are compared between the two ways and with "
        "reference models replaying the rows as sampled; the counts learnt are tested against the network's intensities. "
        "Non-trivial: the network has an edge and a structure was learnt; distinct by network and trajectories.")
REAL = ["NetworkGenerator", "TrajectoryGenerator", "JsonExporter", "JsonImporter", "SampleImporter", "SamplePath",
        "ParametersEstimator", "StructureConstraintBasedEstimator", "StructureScoreBasedEstimator", "both optimisers"]
STUB = ["raw file layer", "entropy", "process pool", "worker processes of multi_trajectory"]
ASSUMPTIONS = ["statistical part: departures too small for the number of transitions drawn are not seen",
               "constraint-based answers are not judged where a statistic lies on its threshold"]


def gen(r, idx, tier):
    big = tier == "thorough"
    d = N.gen(r, 5, r.choice([2, 2, 3, 4]), maxpar=2, scale=r.choice([1.0, 1.0, 1.0, 0.02, 50.0]),
              digits=r.choice([4, None]))
    rounds = []
    for _ in range(r.randint(1, 3)):
        par = r.random() < 0.4
        q = {"par": par, "seed": r.randrange(2 ** 32), "fail": r.random() < 0.25, "at": r.random(),
             "bounds": [r.choice([3, 20, 50, 90]) * (2 if big else 1) for _ in range(r.choice([1, 2, 4, 6]))],
             "save_fail": r.choice([None, None, "enospc", "eio", "close"]), "save_at": r.random(),
             "read_fail": r.choice([None, None, None, "read_eio", "read_trunc"]),
             "beside": r.choice([0, 0, 3, 15]), "fresh": r.random() < 0.4}
        rounds.append(q)
    s = E.gen_cb(r, d["names"])
    s["known"] = s["known"] if r.random() < 0.3 else []
    hill = {"kind": r.choice(["hill", "tabu"]), "known": [], "iterations": r.choice([3, 8, 15]), "max_parents": r.choice([None, 2]),
            "patience": r.choice([None, 4]), "tabu_length": r.choice([1, 3]), "tabu_dur": r.choice([1, 3])}
    return {"net": d, "rounds": rounds, "cb": s, "mp": r.random() < 0.5, "procs": r.randint(1, 4), "cpus": r.choice([1, 2, 4]),
            "method": r.choice(["fork", "spawn"]), "hill": hill, "hseed": r.randrange(2 ** 32)}


def from_memory(frames, fr):
    from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
    imp = SampleImporter(trajectory_list=frames, variables=fr[0], prior_net_structure=fr[1])
    imp.import_data()
    sp = SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def from_file(path):
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
    imp = N.importer(path)
    imp.import_data(0)
    sp = SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp


def sample(case, q, k, g, where, ctx):
    seed_streams(q["seed"])
    if not q["par"]:
        out = []
        for i, n in enumerate(q["bounds"]):
            if q["fail"] and i == 0:
                k.root.plan = [(k.root.steps + 1 + int(q["at"] * 30 * n), "interrupt")]
                st, v = attempt(g.CTBN_Sample, max_tr=n)
                k.root.plan = []
                if st == "exc":
                    check(isinstance(v, KeyboardInterrupt), "unexpected exception", "%s: %s", where, describe(v))
                    ctx.probe("failed_samplings")
            out.append(must(where + ": CTBN_Sample", g.CTBN_Sample, max_tr=n))
        return out
    if q["fail"]:
        n = k.starts
        k.worker_plan = {i: [(1 + int(q["at"] * 300), "crash")] for i in range(n, n + len(q["bounds"]))}
        st, v = attempt(lambda: list(g.multi_trajectory(max_trs=list(q["bounds"]))))
        k.worker_plan = {}
        if st == "exc":
            ctx.probe("failed_samplings")
        else:
            check(len(v) == len(q["bounds"]), "wrong number of trajectories", "%s: %d", where, len(v))
    ctx.probe("parallel_samplings")
    return must(where + ": multi_trajectory", lambda: list(g.multi_trajectory(max_trs=list(q["bounds"]))))


def run(case, ctx):
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    home = ctx.dir()
    path = home + "/data.json"
    rows, frames, fr, net = [], [], None, None
    with ctx.kernel("sample", start_method=case["method"], cpus=case["cpus"], preempt_mean=10) as k:
        from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
        fr, net, make = N.build(d, home)
        g = must("building the generator", make)
        exp = must("JsonExporter", JsonExporter, *fr)
        for qi, q in enumerate(case["rounds"]):
            where = "round %d" % qi
            got = sample(case, q, k, g, where, ctx)
            for f, n in zip(got, q["bounds"]):
                rows.append(N.rows_of(f, nm, where))
                N.check_path(rows[-1], nm, cs, net, where, max_tr=None if q["par"] else n)
                must("add_trajectory", exp.add_trajectory, f)
            check(sorted(len(x) - 1 for x in rows[-len(got):]) == sorted(q["bounds"]), "wrong number of transitions", "%s: %s",
                  where, [len(x) - 1 for x in rows[-len(got):]])
            frames.extend(got)
            ds = {"names": nm, "cards": cs, "trajs": rows, "prior": []}
            if q["save_fail"]:
                simfs.attach(k, home, [{"n": 0, "kind": q["save_fail"], "at": int(q["save_at"] * 4000), "errno": 28}])
                st, v = attempt(exp.out_file, "data.json")
                k.fs = None
                if st == "exc":
                    check(isinstance(v, OSError), "unexpected exception", "%s: %s", where, describe(v))
                    ctx.probe("failed_saves")
            if q["beside"]:
                box = {}
                k.preempt_mean = q["beside"]

                def save():
                    exp.out_file("data.json")

                def load():
                    box["sp"] = from_memory(frames, fr)
                ts = [k.spawn(f, k.root, n, preempt=True) for n, f in (("save", save), ("load", load))]
                k.block(lambda: all(t.done for t in ts), "save and import")
                for t in ts:
                    if t.exc is not None:
                        check(not isinstance(t.exc, Exception), "unexpected exception", "%s, saving beside importing: %s", where,
                              describe(t.exc))
                        raise t.exc
                memory = box["sp"]
                ctx.probe("saved_beside_import")
            else:
                memory = must(where + ": importing from memory", from_memory, frames, fr)
                must(where + ": out_file", exp.out_file, "data.json")
            if q["read_fail"]:
                simfs.attach(k, home, [{"n": 0, "kind": q["read_fail"], "at": int(q["save_at"] * 3000), "errno": 5}])
                st, v = attempt(from_file, path)
                k.fs = None
                if st == "exc":
                    ctx.probe("failed_reads")
            filed = must(where + ": importing the file", from_file, path)
            for x, f in enumerate(frames):
                check(N.rows_of(f, nm, where) == rows[x], "sampled trajectory changed", "%s: trajectory %d", where, x)
            for c in nm:
                ps = sorted(net[c][0], key=nm.index)
                for how, sp in (("memory", memory), ("file", filed)):
                    what = "%s, from %s" % (where, how)
                    E.check_cims(ds, c, ps, must(what + ": learning parameters", E.learn, sp, c), what)
            judge_law(ds, net, where, ctx)
    want = sorted((p, c) for c in nm for p in net[c][0])
    s, h = case["cb"], case["hill"]
    answers = []
    for how in ("memory", "file"):
        sp = memory if how == "memory" else filed
        fresh = case["rounds"][-1]["fresh"] and how == "file"
        with ctx.kernel("learn_" + how, fresh=fresh, start_method=case["method"], cpus=case["cpus"]) as k:
            if fresh:
                sp = must("importing the file in another process", from_file, path)
            est = must("estimator", E.make, sp, s)
            got = E.edges_of(must("constraint-based, from " + how, E.estimate, est, s, case["mp"], case["procs"]))
            adj = E.adjacency(est, nm)
            check(adj == got, "wrong adjacency matrix", "from %s: %s", how, E.diff(adj, got))
            sur = E.edges_of(must("spurious_edges", est.spurious_edges))
            exp_sur = got - set(want) if want else set()
            check(sur == exp_sur, "wrong spurious edges", "from %s: %s", how, E.diff(sur, exp_sur))
            seed_streams(case["hseed"])
            est2 = must("estimator", E.make, sp, h)
            got2 = E.edges_of(must("%s, from %s" % (h["kind"], how), E.estimate, est2, h))
            answers.append((got, got2))
    (a, a2), (b, b2) = answers
    check(a == b, "file and memory differ", "constraint-based: %s", E.diff(b, a))
    check(a2 == b2, "file and memory differ", "%s: %s", h["kind"], E.diff(b2, a2))
    try:
        exp_edges = E.cb_expected(ds, s, ctx.probes)
        check(a == exp_edges, "wrong edges", "%s", E.diff(a, exp_edges))
    except Skip:
        ctx.probe("undecidable_structures")
    sc = E.Scores(ds, h)
    for c in nm:
        ps = {x for x, y in a2 if y == c}
        check(sc(c, ps) >= sc(c, ()) - E.tol(sc(c, ())), "worse than without parents", "%s: %s", c, sorted(ps))
    ctx.nontrivial = bool(want)
    ctx.seen(d, [x[-1] for x in rows])


def judge_law(ds, net, where, ctx):
    """The counts a learner sees against the network's intensities.

    The last transition of each trajectory is not recorded, so up to as many events as there are trajectories may be
    missing from any count; the statistic is the least favourable one.
    """
    nm = ds["names"]
    miss = len(ds["trajs"])
    fam, tot = [], 0
    for c in nm:
        ps, mats = net[c]
        order = sorted(ps, key=nm.index)
        for cfg, (T, M) in ref.stats(ds, c, order).items():
            m = mats[tuple(cfg[order.index(p)] for p in ps)]
            for x, t in enumerate(T):
                n, lam = sum(M[x]), -m[x][x] * float(t)
                tot += n
                e = min(Evidence._mean([th * (n + i) - lam * (math.exp(th) - 1) for th in THETAS]) for i in range(miss + 1))
                fam.append((e, (c, tuple(cfg), x), n, lam))
    top = max(fam)
    e = Evidence._mean([f[0] for f in fam])
    check(e < math.log(LIMIT), "learnt counts do not fit the network", "%s: %s: %d exits, %.2f expected (e-value 1e%.1f)", where,
          top[1], top[2], top[3], e / math.log(10))
    ctx.probe("transitions", tot)


def shrink(case):
    q = case["rounds"]
    for i in range(len(q)):
        if len(q) > 1:
            yield dict(case, rounds=q[:i] + q[i + 1:])
        for key, v in (("fail", False), ("save_fail", None), ("read_fail", None), ("beside", 0), ("par", False), ("fresh", False)):
            if q[i][key]:
                yield dict(case, rounds=q[:i] + [dict(q[i], **{key: v})] + q[i + 1:])
        if len(q[i]["bounds"]) > 1:
            yield dict(case, rounds=q[:i] + [dict(q[i], bounds=q[i]["bounds"][:1])] + q[i + 1:])
        if max(q[i]["bounds"]) > 3:
            yield dict(case, rounds=q[:i] + [dict(q[i], bounds=[max(3, b // 2) for b in q[i]["bounds"]])] + q[i + 1:])
    if case["mp"]:
        yield dict(case, mp=False)
    if case["cb"].get("known"):
        yield dict(case, cb=dict(case["cb"], known=[]))
    for d in N.shrink(case["net"]):
        if len(d["names"]) == len(case["net"]["names"]):
            yield dict(case, net=d)

"""C16 estimations stay within their worker limit and clean up after themselves."""
from sim import est as E
from sim import gen as G
from sim.case import attempt, check, describe, must, seed_streams

ID = "C16"
QUICK, THOROUGH = 900, 40000
RULE = ("Each case: 1-4 estimations (constraint-based, hill climbing, tabu) on one dataset with a requested number of "
        "workers, a number of processors, a start method and a seeded schedule, most with workers killed or failing at "
        "seeded steps, or an interrupt in the caller. The simulated process table is watched throughout and inspected "
        "when the call ends. Non-trivial: at least two workers were alive at once, or a fault struck; distinct by "
        "settings and schedule.")
REAL = ["StructureConstraintBasedEstimator", "StructureScoreBasedEstimator", "optimizers"]
STUB = ["process pool and processes (a model of concurrent.futures.ProcessPoolExecutor)", "cpu count", "entropy"]
ASSUMPTIONS = ["the simulated pool behaves as CPython 3.12's: fork starts all workers at the first task, spawn on demand; "
               "a dead worker breaks the pool and ends the others", "processes that cannot be started are left out: "
               "CPython's own pool leaves its other workers behind then"]


def gen(r, idx, tier):
    ds = G.dataset(r, 1, 6, (10, 60), r.choice([2, 2, 3]), prior=0)
    runs = []
    for _ in range(r.randint(1, 4)):
        s = E.gen_cb(r, ds["names"]) if r.random() < 0.6 else E.gen_sb(r, ds["names"])
        q = {"s": s, "mp": r.random() < 0.85, "procs": r.choice([None, None, 1, 2, 3, 4, 7, 50]),
             "cpus": r.choice([1, 2, 3, 4, 8, 64]), "method": r.choice(["fork", "spawn"]), "seed": r.randrange(2 ** 32),
             "faults": {}, "caller": None}
        if q["mp"] and r.random() < 0.5:
            for _ in range(r.choice([1, 1, 2, 3])):
                q["faults"][str(r.randrange(4))] = [[r.choice([0, r.randrange(60), r.randrange(600), r.randrange(3000)]),
                                                     r.choice(["crash", "crash", "memory", "interrupt"])]]
        elif r.random() < 0.2:
            q["caller"] = [r.randrange(6) if q["mp"] else r.randrange(1500), r.choice(["interrupt", "memory"])]
        runs.append(q)
    return {"ds": ds, "runs": runs, "shared": r.random() < 0.5}


def run(case, ctx):
    ds = case["ds"]
    nm = ds["names"]
    sp = est = None
    for i, q in enumerate(case["runs"]):
        s = q["s"]
        where = "estimation %d (%s, %s workers asked, %d processors, %s)" % (
            i, s["kind"], q["procs"] if q["mp"] else "no", q["cpus"], q["method"])
        with ctx.kernel("run%d" % i, cpus=q["cpus"], start_method=q["method"]) as k:
            if sp is None or not case["shared"]:
                sp = must("building the dataset", G.sample_path, ds)
            est = must("building the estimator", E.make_counting, sp, s)
            del E.LEARNED[:]
            k.worker_plan = {int(a): [tuple(x) for x in b] for a, b in q["faults"].items()}
            if q["caller"] and q["mp"]:        # the caller fails while it hands out the work
                k.submit_fail = {q["caller"][0]: q["caller"][1]}
            elif q["caller"]:
                k.root.plan = [(k.root.steps + 1 + q["caller"][0], q["caller"][1])]
            seed_streams(q["seed"])
            st, v = attempt(E.estimate, est, s, q["mp"], q["procs"])
            k.root.plan = []
            faults = sum(n for a, n in k.counts.items() if a.startswith("fault_"))
            if st == "exc":
                check(faults > 0, "unexpected exception", "%s: %s", where, describe(v))
                ctx.probe("raised")
            limit = min(q["cpus"], q["procs"]) if q["procs"] is not None else q["cpus"]
            if not q["mp"]:
                check(k.starts == 0 and not k.children, "worker started although disabled", "%s: %d", where, k.starts)
                check(all(x.kind != "process" or not x.workers for x in k.executors), "worker started although disabled", where)
            check(k.max_alive <= limit, "too many workers", "%s: %d alive at once, limit %d", where, k.max_alive, limit)
            live = [p.name for p in k.procs if p is not k.root and p.alive]
            check(not live, "workers left behind", "%s: %s after it %s", where, live, "returned" if st == "ok" else "raised")
            for x in k.executors:
                check(not x.live_workers(), "workers left behind", "%s: %s", where, x.live_workers())
                check(not x.pending and not x.queue, "tasks left behind", "%s: %d", where, len(x.pending))
            left = [t.name for t in k.tasks[1:] if not t.done and t.proc.alive and t.proc is k.root]
            check(not left, "threads left behind", "%s: %s", where, left)
            if st == "ok" and not faults:
                twice = sorted(x for x in set(E.LEARNED) if E.LEARNED.count(x) > 1)
                check(not twice, "processed more than once", "%s: %s of %s", where, twice, E.LEARNED)
                ctx.probe("variables_counted", len(E.LEARNED))
            del E.LEARNED[:]
            if q["mp"] and not faults:
                done = sum(1 for a in k.task_log)
                ctx.probe("tasks_executed", done)
            ctx.probe("max_alive_%d" % min(k.max_alive, 9))
            ctx.nontrivial = ctx.nontrivial or k.max_alive > 1 or faults > 0
            ctx.seen(s, q["procs"], q["cpus"], q["method"], k.sched_digest.hexdigest())


def shrink(case):
    q = case["runs"]
    for i in range(len(q)):
        if len(q) > 1:
            yield dict(case, runs=q[:i] + q[i + 1:])
        if q[i]["faults"]:
            yield dict(case, runs=q[:i] + [dict(q[i], faults={})] + q[i + 1:])
        if q[i]["s"].get("known"):
            yield dict(case, runs=q[:i] + [dict(q[i], s=dict(q[i]["s"], known=[]))] + q[i + 1:])
    for ds in G.shrink_dataset(case["ds"]):
        yield dict(case, ds=ds)

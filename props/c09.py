"""C09 parallel sampling delivers each requested trajectory exactly once."""
from sim import net as N
from sim.case import attempt, check, describe, must, seed_streams

ID = "C09"
QUICK, THOROUGH = 800, 30000
RULE = ("Each case: a network and 2-4 batches asked of multi_trajectory (by numbers of transitions or end times) on one "
        "generator, with worker processes simulated under a seeded schedule (fork or spawn start) and, in some batches, "
        "a worker killed or failing at a seeded step, a process that cannot be started, or an interrupt in the caller, or a "
        "second thread asking for a batch of its own. "
        "A batch that returns is matched one-to-one with the bounds; all trajectories of all batches must be separate "
        "draws. Non-trivial: at least two workers overlapped, or a fault struck; distinct by network, bounds and schedule.")
REAL = ["TrajectoryGenerator", "SetOfCims", "NetworkGenerator"]
STUB = ["multiprocessing.Process and Manager (simulated processes with their own random streams and globals)", "entropy"]
ASSUMPTIONS = ["a killed worker runs no further code; the shared list keeps what was appended before",
               "exceptions strike between source lines of the package"]


def gen(r, idx, tier):
    d = N.gen(r, 3, 3, slow=1.0)
    batches = []
    for _ in range(r.randint(2, 4)):
        n = r.choice([1, 2, 3, 3, 4, 5, 6, r.choice([6, 11, 17, 36])])
        b = {"by": r.choice(["tr", "tr", "tr", "end"]), "seed": r.choice([None, None, r.randrange(2 ** 32)]),
             "cpus": r.choice([1, 2, 4]), "method": r.choice(["fork", "fork", "spawn"])}
        if b["by"] == "tr":
            b["bounds"] = [r.choice([0, 1, 2, 5, 6, 8, 12]) for _ in range(n)]
            if r.random() < 0.05:       # more than the system buffers
                b["bounds"][r.randrange(n)] = r.choice([120, 180])
            elif r.random() < 0.04:     # long and alike
                b["bounds"] = [r.choice([55, 70, 101])] * 2
        else:
            b["bounds"] = [r.choice([0.02, 0.3, 1, 3]) for _ in range(min(n, 4))]
            b["dup"] = r.random() < 0.5
        if r.random() < 0.45:
            b["fault"] = {"who": r.choice(["worker", "worker", "worker", "start", "caller"]), "n": r.randrange(len(b["bounds"])),
                          "kind": r.choice(["crash", "crash", "memory", "interrupt", "late"]), "frac": r.choice([0, r.random(), r.random(),
                                                                                                        0.9 + 0.2 * r.random()])}
            if b["fault"]["who"] == "caller" and b["fault"]["kind"] in ("crash", "late"):
                b["fault"]["kind"] = "interrupt"
            if r.random() < 0.3:
                b["fault"]["n2"] = r.randrange(len(b["bounds"]))
        elif r.random() < 0.25:     # another thread asks for a batch of its own meanwhile
            b["beside"] = [r.choice([0, 3, 4, 7, 9, 10]) for _ in range(r.choice([1, 2, 3, 5]))]
            b["mean"] = r.choice([3, 10, 40])
        batches.append(b)
    if idx % 100 == 50:     # many at once: streams must be told apart by more than a few bits
        batches = [{"by": "tr", "seed": None, "cpus": 4, "method": "fork", "bounds": [6] * 250}]
    return {"net": d, "batches": batches, "other": N.gen_other(r, d), "other_n": [r.choice([0, 1, 2, 5]) for _ in range(3)]}


def signature(rows):
    return tuple(map(tuple, rows[1:6]))


def run(case, ctx):
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    home = ctx.dir()
    seen = {}
    overlapped = struck = 0
    with ctx.kernel("build"):
        fr, net, make = N.build(d, home)
        g = must("building the generator", make)
    slow = N.exit_rate_min(nm, cs, net)
    if case.get("other"):
        with ctx.kernel("other"):
            ofr = must("building another network", N.frames, case["other"])
            onet = must("building another network", N.rates, nm, cs, ofr[1], ofr[2])
            og = must("building another generator", N.generator, ofr)
            got = must("another batch", lambda: [N.rows_of(x, nm, "another") for x in og.multi_trajectory(max_trs=case["other_n"])])
        check(sorted(len(p) - 1 for p in got) == sorted(case["other_n"]), "bounds mixed up", "another batch: %s",
              [len(p) for p in got])
        for p in got:
            N.check_path(p, nm, cs, onet, "another batch")
        ctx.probe("other_batches")
    for bi, b in enumerate(case["batches"]):
        bounds = b["bounds"]
        if b["by"] == "end":
            # in units of the slowest total rate: long enough to tell the bounds apart
            fast = N.exit_rate_max(nm, cs, net)
            bounds = [round(min(x * 10 / slow, 40 / fast), 3) for x in bounds]
            if not b.get("dup") and len(set(bounds)) < len(bounds):
                bounds = sorted(set(bounds))
        where = "batch %d (%s %s)" % (bi, b["by"], bounds)
        f = b.get("fault")
        if b["seed"] is not None:
            seed_streams(b["seed"])
        beside = b.get("beside")
        with ctx.kernel("batch%d" % bi, cpus=b["cpus"], start_method=b["method"],
                        **({"preempt_mean": b["mean"]} if beside else {})) as k:
            if f:
                if f["who"] == "start":
                    k.start_fail = [f["n"]]
                elif f["who"] == "caller":
                    k.root.plan = [(1 + int(f["frac"] * (8 + 2 * len(bounds))), f["kind"])]
                else:
                    n = bounds[f["n"] % len(bounds)] if b["by"] == "tr" else 8
                    step = 1 + int(f["frac"] * (25 + 42 * n)) if f["kind"] != "late" else 1
                    k.worker_plan = {f["n"]: [(step, f["kind"])]}
                    if "n2" in f:
                        k.worker_plan[f["n2"]] = [(step // 2 + 1, f["kind"])]
            asked = {"max_trs" if b["by"] == "tr" else "t_ends": list(bounds)}
            if beside:
                got = {}

                def body(name, kw):
                    got[name] = list(g.multi_trajectory(**kw))
                ts = [k.spawn(lambda n=n, kw=kw: body(n, kw), k.root, n, preempt=True)
                      for n, kw in (("asked", asked), ("beside", {"max_trs": list(beside)}))]
                k.block(lambda: all(t.done for t in ts), "callers")
                for t in ts:
                    if t.exc is not None:
                        check(not isinstance(t.exc, Exception), "unexpected exception", "%s: %s", where, describe(t.exc))
                        raise t.exc
                st, v = "ok", got["asked"]
                ctx.probe("batches_in_two_threads")
            else:
                st, v = attempt(lambda: list(g.multi_trajectory(**asked)))
            k.root.plan = []
            faults = sum(n for a, n in k.counts.items() if a.startswith("fault_")) + k.counts.get("start_failure", 0)
            overlapped += k.switches > 2 * len(bounds) + 2
            ctx.seen(k.sched_digest.hexdigest())
        if st == "exc":
            check(faults > 0, "unexpected exception", "%s: %s", where, describe(v))
            struck += 1
            ctx.probe("surfaced_" + f["who"])
            continue
        check(len(v) == len(bounds), "wrong number of trajectories", "%s: %d%s", where, len(v),
              " after a fault (%s)" % f if faults else "")
        if faults:
            ctx.probe("survived_fault")
        paths = [N.rows_of(x, nm, where) for x in v]
        more = []
        if beside:
            more = [N.rows_of(x, nm, where + " beside") for x in got["beside"]]
            ns = sorted(len(p) - 1 for p in more)
            check(ns == sorted(beside), "wrong number of trajectories", "%s beside %s: transitions %s", where, beside, ns)
        for p in paths + more:
            N.check_path(p, nm, cs, net, where)
        if b["by"] == "tr":
            got = sorted(len(p) - 1 for p in paths)
            check(got == sorted(bounds), "bounds mixed up", "%s: transitions %s", where, got)
        else:
            for p, end in zip(sorted(paths, key=lambda p: p[-1][0]), sorted(bounds)):
                check(p[-1][0] <= end + 5.1e-5, "bounds mixed up", "%s: last times %s", where, [x[-1][0] for x in paths])
                check(end - p[-1][0] < 32 / slow + 1e-3, "bounds mixed up", "%s: last times %s", where,
                      [x[-1][0] for x in paths])
        for i, p in enumerate(paths + more):
            if len(p) > 6:
                s = signature(p)
                w = (b["seed"], "batch %d trajectory %d" % (bi, i))
                if s in seen:
                    ow, oname = seen[s]
                    reseeded = b["seed"] is not None and ow == b["seed"] and not oname.startswith("batch %d " % bi)
                    check(reseeded, "repeated trajectory", "%s equals %s: %s", w[1], oname, s)
                seen.setdefault(s, w)
                ctx.probe("compared_trajectories")
    ctx.nontrivial = overlapped > 0 or struck > 0
    ctx.seen(d, case["batches"])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    b = case["batches"]
    for i in range(len(b)):
        if len(b) > 1:
            yield dict(case, batches=b[:i] + b[i + 1:])
    for i, x in enumerate(b):
        if x.get("beside"):
            y = dict(x)
            del y["beside"]
            yield dict(case, batches=b[:i] + [y] + b[i + 1:])
        if x.get("fault"):
            y = dict(x)
            del y["fault"]
            yield dict(case, batches=b[:i] + [y] + b[i + 1:])
        for j in range(len(x["bounds"])):
            if len(x["bounds"]) > 1:
                yield dict(case, batches=b[:i] + [dict(x, bounds=x["bounds"][:j] + x["bounds"][j + 1:])] + b[i + 1:])
    for d in [] if case.get("other") else N.shrink(case["net"]):
        yield dict(case, net=d)

"""C07 every sampled trajectory is a well-formed path of the network."""
from sim import net as N
from sim.case import attempt, check, describe, must, seed_streams

ID = "C07"
QUICK, THOROUGH = 480, 20000
RULE = ("Each case: a network (given directly, generated, or imported from a file it was exported to) and 2-6 requests "
        "for trajectories on one generator, by number of transitions or end time, some interrupted at a seeded step and "
        "repeated, some made by two threads at once; every row is checked, end times against a longer run on the same "
        "stream, repeated streams against each other, and the matrices and earlier trajectories for changes. "
        "Non-trivial: more than 3 transitions were checked; distinct by network and requests.")
REAL = ["TrajectoryGenerator", "SetOfCims", "NetworkGenerator", "JsonExporter", "JsonImporter"]
STUB = ["entropy", "threads"]
ASSUMPTIONS = ["no absorbing state (every exit rate is positive)"]


def gen(r, idx, tier):
    if idx % 4 == 1:
        # states that cannot be reached directly, at rates of any magnitude
        d = N.gen(r, zeros=0.5, scale=r.choice([0.01, 0.1, 1.0, 30.0]), kind=r.choice(["direct", "imported"]))
    elif idx % 12 == 3:
        d = N.gen(r, 8, r.choice([2, 2, 3]), maxpar=5, kind=r.choice(["direct", "imported"]))
    elif idx % 12 == 6:
        d = N.gen_tall(r, zeros=0.6)
    else:
        d = N.gen(r, digits=r.choice([4, 4, None]))
    reqs = []
    if idx % 60 == 7:
        # one trajectory much longer than the others
        reqs.append({"seed": r.randrange(2 ** 32), "n": r.randint(1050, 1300), "end": "mid", "cut": 0.95 + r.random() * 0.05,
                     "threads": False, "rebuild": False})
    for _ in range(r.randint(2, 5)):
        q = {"seed": r.randrange(2 ** 32), "n": r.choice([0, 1, 2, 3, 6, 12, 20, 35, 80]),
             "end": r.choice([None, None, "mid", "mid", "zero", "exact"])}
        q["cut"] = r.random()
        if r.random() < 0.3:
            q["fault"] = [r.random() ** 2, r.choice(["interrupt", "memory"])]
        q["threads"] = r.random() < 0.1
        q["rebuild"] = r.random() < 0.2
        reqs.append(q)
    return {"net": d, "reqs": reqs, "other": N.gen_other(r, d),
            "beside": [[r.randrange(2 ** 32), r.choice([1, 3, 9]), r.random() < 0.5] for _ in range(r.randint(1, 3))]}


def freeze(fr):
    return ([[repr(x) for x in row] for row in fr[0].values.tolist()], [list(map(str, row)) for row in fr[1].values.tolist()],
            {c: ([list(map(int, x)) for x in s.p_combs], [m.cim.tolist() for m in s.actual_cims])
             for c, s in fr[2].items()})


def run(case, ctx):
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    home = ctx.dir()
    held = []
    with ctx.kernel("run", preempt_mean=300) as k:
        fr, net, make = N.build(d, home)
        g = must("building the generator", make)
        before = freeze(fr)

        def sample(seed, **kw):
            seed_streams(seed)
            return g.CTBN_Sample(**kw)
        for i, q in enumerate(case["reqs"]):
            where = "request %d %s" % (i, q)
            if case.get("other") and i < len(case["beside"]):
                oseed, on, before_rebuild = case["beside"][i]
                ofr = must("building another network", N.frames, case["other"])
                onet = must("building another network", N.rates, nm, cs, ofr[1], ofr[2])
                og = must("building another generator", N.generator, ofr)
                seed_streams(oseed)
                N.check_path(N.rows_of(must("sampling another network", og.CTBN_Sample, max_tr=on), nm, where), nm, cs, onet,
                             where + ", another network", max_tr=on)
                if before_rebuild:
                    del og, ofr
                ctx.probe("other_networks")
            if q["rebuild"]:
                g = must("building the generator", make)
            if q.get("fault"):
                k.root.plan = [(k.root.steps + 1 + int(q["fault"][0] * (40 + 60 * q["n"])), q["fault"][1])]
                st, v = attempt(sample, q["seed"], max_tr=q["n"])
                k.root.plan = []
                if st == "exc":
                    check(isinstance(v, (KeyboardInterrupt, MemoryError)), "unexpected exception", "%s: %s", where,
                          describe(v) if st == "exc" else "")
                    ctx.probe("interrupted")
            df = must(where, sample, q["seed"], max_tr=q["n"])
            rows = N.rows_of(df, nm, where)
            N.check_path(rows, nm, cs, net, where, max_tr=q["n"])
            held.append((where, df, rows))
            if q["n"] > 3:
                ctx.nontrivial = True
            again = N.rows_of(must(where, sample, q["seed"], max_tr=q["n"]), nm, where)
            check(again == rows, "not repeatable", "%s: the same stream gave %s, then %s", where, rows, again)
            if q["end"]:
                # an end time away from every transition (times are kept to 4 decimals), or a trivial one
                times = [x[0] for x in rows]
                gaps = [(a, b) for a, b in zip(times, times[1:]) if b - a > 4e-4]
                if q["end"] == "zero" or not gaps:
                    end, keep = 0, 0
                else:
                    a, b = gaps[int(q["cut"] * len(gaps))]
                    end = a + (b - a) * (0.5 if q["end"] == "mid" else 0.3)
                    keep = sum(t < end for t in times) - 1
                df = must(where, sample, q["seed"], t_end=end)
                part = N.rows_of(df, nm, where)
                N.check_path(part, nm, cs, net, where, t_end=end)
                want = [list(x) for x in rows[:keep + 1]]
                want[-1][1:] = [-1] * len(nm)
                check(part == want, "wrong rows for an end time", "%s: end %r: %s, not %s", where, end, part, want)
                ctx.probe("end_times")
            if q["threads"]:
                out = []

                def body(n):
                    out.append((n, g.CTBN_Sample(max_tr=n)))
                ts = [k.spawn(lambda n=n: body(n), k.root, "t%d" % n, preempt=True) for n in (q["n"], q["n"] + 3)]
                k.block(lambda: all(t.done for t in ts), "threads")
                for t in ts:
                    if t.exc is not None:
                        raise t.exc
                for n, df in out:
                    rows = N.rows_of(df, nm, where)
                    N.check_path(rows, nm, cs, net, where + " in a thread", max_tr=n)
                ctx.probe("threads")
        for where, df, rows in held:
            check(N.rows_of(df, nm, where) == rows, "earlier trajectory changed", where)
        check(freeze(fr) == before, "network changed by sampling", "%s -> %s", before, freeze(fr))
    ctx.seen(d, case["reqs"])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    q = case["reqs"]
    for i in range(len(q)):
        if len(q) > 1:
            yield dict(case, reqs=q[:i] + q[i + 1:])
    for i, x in enumerate(q):
        for key, val in (("fault", None), ("threads", False), ("end", None), ("rebuild", False)):
            if x.get(key):
                yield dict(case, reqs=q[:i] + [dict(x, **{key: val})] + q[i + 1:])
        for n in (0, 1, 2, 4, 8):
            if x["n"] > n:
                yield dict(case, reqs=q[:i] + [dict(x, n=n)] + q[i + 1:])
    for d in [] if case.get("other") else N.shrink(case["net"]):
        yield dict(case, net=d)

"""C11 export followed by import preserves the network and its trajectories."""
from sim import net as N
from sim import simfs
from sim.case import attempt, check, describe, must, seed_streams
from props.c10 import net_content, parse_net, same_import, same_net
import json

ID = "C11"
QUICK, THOROUGH = 520, 20000
RULE = ("Each case: a network (none to all edges, mixed cardinalities, also more than ten states) and 1-3 cycles of "
        "sampling (or adding trajectories with times of their own), saving (some attempts failing first) and importing, each cycle working on the generator built from the "
        "previous file. After each cycle the file, the imported variables, edges and trajectories, the matrices per "
        "configuration of the rebuilt generator, and the trajectories it draws on a given random stream are compared "
        "with the original network's. Non-trivial: the network has an edge; distinct by network and trajectories.")
REAL = ["JsonExporter", "JsonImporter", "TrajectoryGenerator", "NetworkGenerator", "SetOfCims"]
STUB = ["raw file layer", "entropy"]


def gen(r, idx, tier):
    big = r.random() < 0.15
    d = N.gen(r, 2 if big else 5, 12 if big else r.choice([2, 3, 4]), kind=r.choice(["direct", "direct", "generated"]), maxpar=3,
              zeros=r.choice([0.0, 0.0, 0.4]), scale=r.choice([1.0, 1.0, 0.003, 400.0]), digits=r.choice([4, None, None]))
    for _ in range(30):
        if not big or max(d["cards"]) > 10 and d.get("edges"):
            break
        d = N.gen(r, 2, 13, kind="direct")
    if idx % 12 == 9:
        d = N.gen(r, 11, 3, maxpar=r.choice([1, 2, 5]), kind="direct")
    cycles = []
    for _ in range(r.randint(1, 3)):
        own = []
        for _ in range(r.choice([0, 0, 1, 2])):     # trajectories from elsewhere, with their own clock
            t, q, own_t = 0.0, r.choice([0.01, 1.0, 500.0, 1e6]), []
            for _ in range(r.choice([2, 5, 9])):
                own_t.append([round(t, r.choice([0, 5, 9]))] +
                             [r.randrange(x) for x in d["cards"]])
                t = max(t, own_t[-1][0]) + q * r.random()
            own.append(own_t)
        if idx % 40 == 12:
            m = r.choice([2000, 6000])
            own.append([[i * 0.0625] + [(i >> j) % x for j, x in enumerate(d["cards"])] for i in range(m)])
        cycles.append({"own": own, "trs": [r.choice([0, 1, 2, 5, 15]) for _ in range(r.choice([1, 1, 2, 4, 7, 12]))],
                       "seed": r.randrange(2 ** 32), "fail": r.random() < 0.25, "at": r.randrange(400),
                       "again": r.random() < 0.3, "probe": [r.randrange(2 ** 32), r.choice([3, 8, 20])],
                       "both": r.choice([[0, 1], [1, 0], [0, 1, 0]])})
    return {"net": d, "cycles": cycles, "other": N.gen_other(r, d, 0.25)}


def run(case, ctx):
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    home = ctx.dir()
    path = home + "/net.json"
    with ctx.kernel("run") as k:
        import pandas as pd
        from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
        fr, net, make = N.build(d, home)
        ref_gen = must("building the generator", make)
        g = ref_gen
        exp = must("JsonExporter", JsonExporter, *fr)
        rows = []
        for ci, c in enumerate(case["cycles"]):
            where = "cycle %d" % ci
            seed_streams(c["seed"])
            for n in c["trs"]:
                t = must(where + ": sampling", g.CTBN_Sample, max_tr=n)
                rows.append(N.rows_of(t, nm, where))
                N.check_path(rows[-1], nm, cs, net, where, max_tr=n)
                must("add_trajectory", exp.add_trajectory, t)
            for t in c.get("own", []):
                rows.append([[float(x[0])] + x[1:] for x in t])
                must("add_trajectory", exp.add_trajectory, pd.DataFrame(t, columns=["Time"] + nm))
            if c["fail"]:
                simfs.attach(k, home, [{"n": 0, "kind": "enospc", "at": c["at"]}])
                st, v = attempt(exp.out_file, "net.json")
                k.fs = None
                if st == "exc":
                    check(isinstance(v, OSError), "unexpected exception", "%s: %s", where, describe(v))
                    ctx.probe("failed_saves")
            for _ in range(2 if c["again"] else 1):
                must(where + ": out_file", exp.out_file, "net.json")
            content = net_content(fr, net, nm, cs, rows)
            with open(path) as f:
                saved = json.load(f)
            dif = same_net(parse_net(saved, where), content)
            check(dif is None, "export changed the network", "%s: %s", where, dif)
            imp = must(where + ": JsonImporter", N.importer, path)
            if case.get("other"):       # another network saved and read in between
                ofr = must("building another network", N.frames, case["other"])
                must("exporting another network", N.export, ofr,
                     [must("sampling another network", N.generator(ofr).CTBN_Sample, max_tr=3)], "other.json")
                must("importing another network", N.importer(home + "/other.json").import_data, 0)
                with open(home + "/other.json") as f:
                    both = [saved[0], json.load(f)[0]]
                with open(home + "/both.json", "w") as f:
                    json.dump(both, f)
                imp2 = must("importing a file of two networks", N.importer, home + "/both.json")
                onet = must("building another network", N.rates, nm, cs, ofr[1], ofr[2])
                for i in c.get("both", [0, 1]):
                    must("importing network %d of two" % i, imp2.import_data, i)
                    want = [content, net_content(ofr, onet, nm, cs, [[list(x.values()) for x in t] for t in both[1]["samples"]])][i]
                    dif = same_import(imp2, want)
                    check(dif is None, "import changed the network", "%s: network %d of two: %s", where, i, dif)
                    draws = []
                    for h in (must("the generator of network %d" % i, N.imported, imp2), [ref_gen, N.generator(ofr)][i]):
                        seed_streams(c["probe"][0])
                        draws.append(N.rows_of(must("sampling network %d of two" % i, h.CTBN_Sample, max_tr=6), nm, where))
                    check(draws[0] == draws[1], "imported network samples differently", "%s: network %d of two: %s, not %s",
                          where, i, *draws)
                ctx.probe("files_of_two_networks")
                ctx.probe("other_networks")
            for _ in range(2 if c["again"] else 1):
                must(where + ": import_data", imp.import_data, 0)
            dif = same_import(imp, content)
            check(dif is None, "import changed the network", "%s: %s", where, dif)
            raw = must(where + ": read_json_file", imp.read_json_file)
            sampled = must(where + ": import_sampled_cims", imp.import_sampled_cims, raw, 0, "dyn.cims")
            got = {x: [m.tolist() for m in v] for x, v in sampled.items()}
            want = {x: [[[row[str(j)] for j in range(len(m))] for row in m] for m in v.values()]
                    for x, v in saved[0]["dyn.cims"].items()}
            check(got == want, "import_sampled_cims changed a matrix", "%s: %s, not %s", where, got, want)
            from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
            g = must(where + ": TrajectoryGenerator(importer)", TrajectoryGenerator, importer=imp)
            cims = getattr(g, "_cims", None)
            if isinstance(cims, dict) and set(cims) == set(nm):
                for x in nm:
                    got = {tuple(map(int, cfg)): [[float(y) for y in row] for row in m.cim]
                           for cfg, m in zip(cims[x].p_combs, cims[x].actual_cims)}
                    want = dict(net[x][1])
                    if not net[x][0]:
                        got, want = list(got.values()), list(want.values())
                    check(got == want, "import changed a matrix", "%s: %s: %s, not %s", where, x, got, want)
                ctx.probe("matrices_compared")
            seed, n = c["probe"]
            seed_streams(seed)
            a = N.rows_of(must(where + ": sampling the imported network", g.CTBN_Sample, max_tr=n), nm, where)
            seed_streams(seed)
            b = N.rows_of(must(where + ": sampling the original", ref_gen.CTBN_Sample, max_tr=n), nm, where)
            check(a == b, "imported network samples differently", "%s: %s, not %s", where, a, b)
            # the exporter of the next cycle works from what was imported only half of the time
            if c["again"] and ci + 1 < len(case["cycles"]):
                old = exp
                exp = must("JsonExporter", JsonExporter, fr[0], fr[1], fr[2])
                for t in rows:
                    must("add_trajectory", exp.add_trajectory, pd.DataFrame(t, columns=["Time"] + nm))
    ctx.nontrivial = any(net[x][0] for x in nm)
    ctx.probe("networks_without_edges", int(not ctx.nontrivial))
    ctx.probe("more_than_ten_states", int(max(cs) > 10))
    ctx.seen(d, rows)


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    c = case["cycles"]
    for i in range(len(c)):
        if len(c) > 1:
            yield dict(case, cycles=c[:i] + c[i + 1:])
        for key in ("fail", "again"):
            if c[i][key]:
                yield dict(case, cycles=c[:i] + [dict(c[i], **{key: False})] + c[i + 1:])
        if c[i].get("own"):
            yield dict(case, cycles=c[:i] + [dict(c[i], own=c[i]["own"][1:])] + c[i + 1:])
        if len(c[i]["trs"]) > 1:
            yield dict(case, cycles=c[:i] + [dict(c[i], trs=c[i]["trs"][:1])] + c[i + 1:])
    for d in [] if case.get("other") else N.shrink(case["net"]):
        yield dict(case, net=d)

"""C13 generated networks are always valid."""
import math

from sim import gen as G
from sim import ref
from sim.case import attempt, check, describe, must, seed_streams

ID = "C13"
QUICK, THOROUGH = 1000, 40000
RULE = ("Each case: a set of variables and a history of 3-14 generations on one generator (random or fixed density, valid "
        "or not, matrices in a range) on seeded streams, some interrupted at a seeded step and repeated; one case in four "
        "draws 60-150 graphs and tests the presence of every ordered pair, alone and given other pairs, with e-values, "
        "one in seven the same for fixed densities. "
        "Every graph and matrix is checked. Non-trivial: a graph with an edge whose matrices were checked, or an "
        "interruption; distinct by variables and history.")
REAL = ["NetworkGenerator", "Structure", "NetworkGraph", "SetOfCims"]
STUB = ["entropy"]
ASSUMPTIONS = ["numpy's generators produce the distributions they are asked for"]
LIMIT = 1e9
THETAS = [s * x for x in (0.2, 0.5, 1.0, 2.0) for s in (1, -1)]


def gen(r, idx, tier):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, r.randint(8, 13)])
    nm = G.names(r, n)
    c = {"names": nm, "cards": G.cards(r, n, r.choice([2, 3, 5, 6]) if n < 6 else 3 if n < 8 else 2), "ops": [], "stat": None,
         "seed0": r.randrange(2 ** 32)}
    if r.random() < 0.25 and n > 1:
        c["stat"] = [r.choice([0.1, 0.25, 0.5, 0.5, 0.8, 0.95]), r.choice([60, 100, 150])]
    elif r.random() < 0.2 and n > 1:
        c["even"] = [r.randint(1, max(1, n * (n - 1) - 1)), r.choice([80, 120])]
    top = r.choice([1.0, 0.2]) if n > 7 else 1.0      # few parents wherever matrices are drawn for many variables
    for _ in range(r.randint(3, 14) if n < 8 else 4):
        pairs = n * (n - 1)
        u = r.random()
        o = {"fault": [r.random() ** 2, r.choice(["interrupt", "memory"])] if r.random() < 0.25 else None}
        if u < 0.3:
            o.update(op="graph", density=top * r.choice([0.0, 1.0, r.random(), r.random()]))
        elif u < 0.55:
            k = r.randint(0, int(top * pairs)) if pairs else 0
            o.update(op="fixed", density=k / pairs if pairs else r.random(), edges=k)
            if r.random() < 0.3:
                o["density"] = round(o["density"], 15)
        elif u < 0.65 and pairs:
            k = r.randint(0, pairs - 1)
            o.update(op="bad", density=(k + r.choice([0.5, 0.01, 0.3, 0.999, 1e-4])) / pairs)
        elif n < 8 or top < 1:
            lo = r.choice([0.1, 0.5, 1, 2, 5, 100])
            o.update(op="cims", lo=lo, hi=r.choice([lo, lo + 0.5, lo * 3, lo * 20]))
        if "op" in o:
            c["ops"].append(o)
    if r.random() < 0.3:        # another generator over the same names at work in between
        c["other"] = [r.choice(["graph", "cims"]) for _ in c["ops"]]
        c["other_cards"] = r.sample(c["cards"], n)
        c["other_density"] = r.choice([0.0, 1.0, 0.4]) if n < 6 else 0.1
    return c


def check_graph(ng, nm, cs, where, edges=None):
    g = ng.graph
    check([str(x) for x in g.nodes] == nm, "wrong variables", "%s: %s", where, g.nodes)
    es = [(str(a), str(b)) for a, b in g.edges]
    check(all(a in nm and b in nm and a != b for a, b in es) and len(set(es)) == len(es), "invalid edges", "%s: %s", where, es)
    if edges is not None:
        check(len(es) == edges, "wrong number of edges", "%s: %d, not %d", where, len(es), edges)
    st = [(str(a), str(b)) for a, b in ng.dyn_str.itertuples(index=False)]
    check(sorted(st) == sorted(es), "structure disagrees with the graph", "%s: %s, %s", where, st, es)
    v = ng.variables
    check([str(x) for x in v.iloc[:, 0]] == nm and [int(x) for x in v.iloc[:, 1]] == cs, "wrong variables", "%s: %s", where,
          v.values.tolist())
    for x, c in zip(nm, cs):
        check(int(g.get_states_number(x)) == c, "wrong cardinality", "%s: %s", where, x)
        check(sorted(map(str, g.get_parents_by_id(x))) == sorted(a for a, b in es if b == x), "wrong parents", "%s: %s", where, x)
    return es


def check_cims(ng, nm, cs, es, lo, hi, where):
    check(set(ng.cims) == set(nm), "wrong variables", "%s: matrices of %s", where, sorted(ng.cims))
    for x, c in zip(nm, cs):
        ps = [p for p in nm if (p, x) in es]
        want = sorted(ref.combos([cs[nm.index(p)] for p in ps]))
        s = ng.cims[x]
        got = sorted(tuple(int(v) for v in cfg) for cfg in s.p_combs)
        check(got == want, "wrong configurations", "%s: %s given %s: %s", where, x, ps, got)
        check(len(s.actual_cims) == len(want), "wrong number of matrices", "%s: %s: %d, not %d", where, x, len(s.actual_cims),
              len(want))
        for m in s.actual_cims:
            q = m.cim
            check(getattr(q, "shape", None) == (c, c), "wrong matrix size", "%s: %s: %s", where, x, q)
            for i in range(c):
                row = [float(v) for v in q[i]]
                off = [v for j, v in enumerate(row) if j != i]
                check(all(math.isfinite(v) for v in row) and all(v >= 0 for v in off), "not an intensity matrix", "%s: %s: %s",
                      where, x, row)
                check(abs(sum(off) + row[i]) <= c * 5.001e-5 + 1e-9, "rows do not add up", "%s: %s: %s", where, x, row)
                check(lo - 5.001e-5 <= -row[i] <= hi + 5.001e-5, "rate out of range", "%s: %s: %s not in [%s, %s]", where, x,
                      -row[i], lo, hi)


def statistics(graphs, nm, p):
    """The worst mixture e-value of edge presence: per pair, and given the reverse or the previous pair."""
    pairs = [(a, b) for a in nm for b in nm if a != b]
    acc = {}
    for g in graphs:
        prev = None
        had = 0
        for at, pr in enumerate(pairs):
            hit = pr in g
            keys = [("pair", pr), ("total",)]
            if at:
                keys.append(("given more or fewer so far", 3 * at // len(pairs), had > p * at))
            had += hit
            if pairs.index((pr[1], pr[0])) < pairs.index(pr):
                keys.append(("given reverse", (pr[1], pr[0]) in g))
            if prev is not None:
                keys.append(("given previous", prev))
            for key in keys:
                a = acc.setdefault(key, [0, 0])
                a[0] += hit
                a[1] += 1
            prev = hit
    fam = {}
    for key, (h, n) in acc.items():
        logs = [th * h - n * math.log(1 - p + p * math.exp(th)) for th in THETAS]
        m = max(logs)
        fam.setdefault(key[0], []).append((m + math.log(sum(math.exp(x - m) for x in logs) / len(logs)), key, h, n))
    out = []
    for f, xs in fam.items():
        m = max(xs)
        out.append((m[0] + math.log(sum(math.exp(x[0] - m[0]) for x in xs) / len(xs)),) + m[1:])
    return max(out)


def evenness(graphs, nm, k):
    """The same for graphs of exactly k edges: each pair, and each pair together with the next, as often as any other."""
    pairs = [(a, b) for a in nm for b in nm if a != b]
    n = len(pairs)
    fam = {}
    for i, pr in enumerate(pairs):
        for f, want in (("pair", (pr,)), ("pair and next", (pr, pairs[(i + 1) % n])), ("pair and reverse", (pr, pr[::-1]))):
            p = k / n if len(want) == 1 else k * (k - 1) / (n * (n - 1))
            h = sum(all(x in g for x in want) for g in graphs)
            logs = [th * h - len(graphs) * math.log(1 - p + p * math.exp(th)) for th in THETAS]
            m = max(logs)
            fam.setdefault(f, []).append((m + math.log(sum(math.exp(x - m) for x in logs) / len(logs)), want, h, len(graphs)))
    out = []
    for f, xs in fam.items():
        m = max(xs)
        out.append((m[0] + math.log(sum(math.exp(x[0] - m[0]) for x in xs) / len(xs)),) + m[1:])
    return max(out)


def run(case, ctx):
    from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
    nm, cs = case["names"], case["cards"]
    with ctx.kernel("run") as k:
        seed_streams(case["seed0"])
        labels, vals = list(nm), list(cs)
        ng = must("NetworkGenerator", NetworkGenerator, labels, vals)
        es = oes = None
        ong = must("another NetworkGenerator", NetworkGenerator, list(nm), case["other_cards"]) if case.get("other") else None
        for n, o in enumerate(case["ops"]):
            where = "operation %d %s" % (n, o)
            if ong is not None and n < len(case["other"]):
                if case["other"][n] == "graph" or oes is None:
                    must("another generate_graph", ong.generate_graph, case["other_density"])
                    oes = check_graph(ong, nm, case["other_cards"], where + ", another generator")
                else:
                    must("another generate_cims", ong.generate_cims, 1, 2)
                    check_cims(ong, nm, case["other_cards"], oes, 1, 2, where + ", another generator")
                ctx.probe("other_generators")

            def go():
                if o["op"] == "cims":
                    return ng.generate_cims(o["lo"], o["hi"])
                if o["op"] == "graph":
                    return ng.generate_graph(o["density"])
                return ng.generate_graph(o["density"], True)
            if o["op"] == "cims" and es is None:
                continue
            if o["fault"] and o["op"] != "bad":
                span = 40 if o["op"] != "cims" else 30 + 40 * len(nm)
                k.root.plan = [(k.root.steps + 1 + int(o["fault"][0] * span), o["fault"][1])]
                st, v = attempt(go)
                k.root.plan = []
                if st == "exc":
                    check(isinstance(v, (KeyboardInterrupt, MemoryError)), "unexpected exception", "%s: %s", where,
                          describe(v) if st == "exc" else "")
                    ctx.probe("interrupted")
                    ctx.nontrivial = True
            if o["op"] == "bad":
                st, v = attempt(go)
                check(st == "exc", "invalid density accepted", where)
                ctx.probe("densities_rejected")
                if es is not None:
                    es = check_graph(ng, nm, cs, where)
                continue
            must(where, go)
            if o["op"] == "cims":
                check_cims(ng, nm, cs, es, o["lo"], o["hi"], where)
                ctx.nontrivial = ctx.nontrivial or bool(es)
                es = check_graph(ng, nm, cs, where)
            else:
                es = check_graph(ng, nm, cs, where, o.get("edges"))
                if o["op"] == "graph" and o["density"] in (0.0, 1.0):
                    check(len(es) == int(o["density"]) * len(nm) * (len(nm) - 1), "wrong number of edges", "%s: %s", where, es)
        check(labels == nm and vals == cs, "caller's lists modified", "%s %s", labels, vals)
        if case["stat"]:
            p, n = case["stat"]
            graphs = []
            for _ in range(n):
                must("generate_graph(%s)" % p, ng.generate_graph, p)
                graphs.append(set(check_graph(ng, nm, cs, "generate_graph(%s)" % p)))
            e, key, h, m = statistics(graphs, nm, p)
            check(e < math.log(LIMIT), "wrong edge probability", "density %s: %s: %d of %d (e-value 1e%.1f)", p, key, h, m,
                  e / math.log(10))
            ctx.probe("graphs_for_statistics", n)
        if case.get("even"):
            k, n = case["even"]
            p = k / (len(nm) * (len(nm) - 1))
            graphs = []
            for _ in range(n):
                must("generate_graph(%s, True)" % p, ng.generate_graph, p, True)
                graphs.append(set(check_graph(ng, nm, cs, "generate_graph(%s, True)" % p, k)))
            e, key, h, m = evenness(graphs, nm, k)
            check(e < math.log(LIMIT), "edges not chosen evenly", "%d edges: %s: %d of %d (e-value 1e%.1f)", k, key, h, m,
                  e / math.log(10))
            ctx.probe("graphs_for_statistics", n)
    ctx.seen(nm, cs, case["ops"], case["seed0"])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    o = case["ops"]
    for i in range(len(o)):
        yield dict(case, ops=o[:i] + o[i + 1:])
        if o[i]["fault"]:
            yield dict(case, ops=o[:i] + [dict(o[i], fault=None)] + o[i + 1:])
    if case["stat"]:
        yield dict(case, stat=None)
        yield dict(case, ops=[])
    if case.get("even"):
        yield dict(case, even=None)
        yield dict(case, ops=[])

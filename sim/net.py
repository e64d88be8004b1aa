"""Networks, sampled paths and files, shared by the generation properties."""
import json
import math

from . import gen as G
from . import ref
from .case import check, must


def gen(r, nmax=4, maxcard=4, kind=None, maxpar=3, slow=0.2, zeros=0.0, scale=1.0, digits=4):
    """A network description; matrices as {child: [parents, [[cfg, matrix], ...]]} by name (JSON-able).

    zeros: share of further entries set to 0; scale: factor on all rates; digits: decimals kept (None: all).
    """
    cut = (lambda x: x) if digits is None else (lambda x: round(x, digits))
    n = r.randint(1, nmax)
    cs = G.cards(r, n, maxcard)
    nm = G.names(r, n)
    kind = kind or r.choice(["direct", "direct", "imported", "generated"])
    d = {"kind": kind, "names": nm, "cards": cs}
    if kind == "generated" or kind == "imported" and r.random() < 0.4:
        d["density"] = r.choice([0.0, 0.3, 0.5, 1.0])
        d["range"] = r.choice([[1, 3], [0.5, 2.0], [5, 20], [2, 2]])
        d["gseed"] = r.randrange(2 ** 32)
        return d
    net = G.network(r, n, cs, maxpar=max(3, maxpar))
    cims = {}
    for c in range(n):
        ps, mats = net[c]
        ps = sorted(ps)[:maxpar]
        rows = []
        for cfg in ref.combos([cs[p] for p in ps]):
            m = mats.get(cfg)
            if m is None or len(ps) != len(net[c][0]):
                m = r.choice(list(mats.values()))
            m = [[0.0 if i == j or zeros and r.random() < zeros else cut(max(x * scale, 0.0)) for j, x in enumerate(row)]
                 for i, row in enumerate(m)]
            for i, row in enumerate(m):
                if sum(row) < slow * scale:
                    row[(i + 1) % len(row)] = slow * scale
                row[i] = -cut(sum(row))
            rows.append([list(cfg), m])
        cims[nm[c]] = [[nm[p] for p in ps], rows]
    d["cims"] = cims
    edges = [[p, c] for c in nm for p in cims[c][0]]
    # edges of different children may come in any order; those of one child in variable order
    keyed = [(r.random(), e) for e in edges]
    keyed.sort()
    slots = [e[1] for _, e in keyed]
    left = {c: list(cims[c][0]) for c in nm}
    d["edges"] = [[left[c].pop(0), c] for c in slots]
    return d


def gen_tall(r, **kw):
    """A network in which some variable has a parent with more than ten states, alone or with others."""
    kw.setdefault("kind", r.choice(["direct", "imported"]))
    while True:
        d = gen(r, 3, 13, **kw)
        if "cims" not in d:
            continue
        card = dict(zip(d["names"], d["cards"]))
        if any(card[p] > 10 for p, c in d["edges"]) and sum(len(x[1]) for x in d["cims"].values()) < 300:
            return d


def gen_rare(r):
    """A network whose variables have a main way through their states and other jumps that are rare."""
    d = gen(r, 2, 6, kind=r.choice(["direct", "imported"]), zeros=0)
    while "cims" not in d or max(d["cards"]) < 5:
        d = gen(r, 2, 6, kind=r.choice(["direct", "imported"]), zeros=0)
    scale = r.choice([0.5, 1.0, 4.0, 30.0])
    for c, (ps, rows) in d["cims"].items():
        for x in rows:
            n = len(x[1])
            step = r.choice([1, n - 1])
            m = []
            for i in range(n):
                row = [0.0 if i == j else round(scale * r.choice([0.004, 0.003]), 4) for j in range(n)]
                row[(i + step) % n] = round(scale * (0.7 + r.random() if n > 4 else 0.2 * r.random() + 0.05), 4)
                row[i] = -round(sum(row), 4)
                m.append(row)
            x[1] = m
    return d


def gen_other(r, d, p=0.3):
    """Another network over the same variables, to be used beside: mostly the same structure with other matrices."""
    if r.random() >= p:
        return None
    if "cims" not in d:
        o = dict(d, gseed=r.randrange(2 ** 32))
        if r.random() < 0.5:
            o["density"] = r.choice([0.0, 0.3, 0.5, 1.0])
        return dict(o, kind="generated")
    k = r.choice([0.5, 1.0, 3.0])
    cims = {}
    for c, (ps, rows) in d["cims"].items():
        ms = [[[x * k for x in row] for row in m] for _, m in rows]
        r.shuffle(ms)
        if len(ms) == 1 or k == 1.0 and r.random() < 0.5:      # states renamed: 0, n-1, n-2 ...
            n = len(ms[0])
            p = [-i % n for i in range(n)]
            ms = [[[m[a][b] for b in p] for a in p] for m in ms]
        cims[c] = [ps, [[cfg, m] for (cfg, _), m in zip(rows, ms)]]
    return dict(d, kind="direct", cims=cims)


def frames(d):
    """(variables, dyn_str, dyn_cims) as the package wants them, built directly or by NetworkGenerator."""
    import numpy as np
    import pandas as pd
    from .case import seed_streams
    if "cims" not in d:
        from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
        seed_streams(d["gseed"])
        ng = NetworkGenerator(list(d["names"]), list(d["cards"]))
        ng.generate_graph(d["density"])
        ng.generate_cims(*d["range"])
        return ng.variables, ng.dyn_str, ng.cims
    from PyCTBN.PyCTBN.structure_graph.set_of_cims import SetOfCims
    from PyCTBN.PyCTBN.structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
    card = dict(zip(d["names"], d["cards"]))
    cims = {}
    for c, (ps, rows) in d["cims"].items():
        combs = np.array([cfg for cfg, _ in rows], dtype=int).reshape(len(rows), len(ps))
        cims[c] = SetOfCims(node_id=c, parents_states_number=[card[p] for p in ps], node_states_number=card[c],
                            p_combs=combs, cims=np.array([ConditionalIntensityMatrix(cim=np.array(m, dtype=float))
                                                          for _, m in rows]))
    return (pd.DataFrame({"Name": d["names"], "Value": d["cards"]}),
            pd.DataFrame(d["edges"], columns=["From", "To"]), cims)


def rates(names, cards, dyn_str, cims):
    """{child: (parents, {config: matrix})} as plain lists, read off the package's objects."""
    out = {}
    rows = [(str(a), str(b)) for a, b in dyn_str.itertuples(index=False)] if len(dyn_str.columns) >= 2 else []
    for c in names:
        ps = [a for a, b in rows if b == c]
        s = cims[c]
        out[c] = (ps, {tuple(int(v) for v in cfg): [[float(x) for x in row] for row in m.cim]
                       for cfg, m in zip(s.p_combs, s.actual_cims)})
    return out


def generator(fr):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    v, s, c = fr
    return TrajectoryGenerator(variables=v, dyn_str=s, dyn_cims=c)


def export(fr, trajs, filename):
    from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
    v, s, c = fr
    e = JsonExporter(v, s, c)
    for t in trajs:
        e.add_trajectory(t)
    e.out_file(filename)
    return e


def importer(path, time_key="Time"):
    from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
    return JsonImporter(file_path=path, samples_label="samples", structure_label="dyn.str", variables_label="variables",
                        time_key=time_key, variables_key="Name", cims_label="dyn.cims")


def imported_generator(path):
    imp = importer(path)
    imp.import_data(0)
    return imported(imp)


def imported(imp):
    from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
    return TrajectoryGenerator(importer=imp)


def rows_of(df, names, where):
    """Plain rows [time, state...]; checks the shape."""
    check(list(map(str, df.columns)) == ["Time"] + list(names), "malformed trajectory", "%s: columns %s", where,
          list(df.columns))
    out = []
    for row in df.itertuples(index=False):
        t = row[0]
        ok = not isinstance(t, (str, bool)) and math.isfinite(float(t))
        check(ok, "malformed trajectory", "%s: time %r", where, t)
        for v in row[1:]:
            check(float(v) == int(v), "malformed trajectory", "%s: state %r", where, v)
        out.append([float(t)] + [int(v) for v in row[1:]])
    # (all zero: too fast for the four decimals kept)
    check(len(out) < 6 or out[-1][0] == 0 or any(x[0] != int(x[0]) for x in out), "malformed trajectory", "%s: only whole times: %s", where,
          [x[0] for x in out])
    return out


def check_path(rows, names, cards, net, where, max_tr=None, t_end=None):
    check(len(rows) >= 1, "malformed trajectory", "%s: no row", where)
    n = len(names)
    check(rows[-1][1:] == [-1] * n, "malformed trajectory", "%s: last row %s", where, rows[-1])
    check(rows[0][0] == 0.0, "malformed trajectory", "%s: starts at %s", where, rows[0][0])
    if len(rows) > 1:
        check(rows[0][1:] == [0] * n, "malformed trajectory", "%s: initial states %s", where, rows[0][1:])
    for i, (a, b) in enumerate(zip(rows, rows[1:])):
        check(b[0] >= a[0], "times go back", "%s: row %d: %s after %s", where, i + 1, b[0], a[0])
        if i + 2 == len(rows):
            break
        ch = [j for j in range(n) if a[1 + j] != b[1 + j]]
        check(len(ch) == 1, "not one change per row", "%s: rows %d and %d: %s -> %s", where, i, i + 1, a[1:], b[1:])
        j = ch[0]
        check(0 <= b[1 + j] < cards[j], "state out of range", "%s: row %d: %s=%s of %d", where, i + 1, names[j], b[1 + j],
              cards[j])
        ps, mats = net[names[j]]
        m = mats[tuple(a[1 + names.index(p)] for p in ps)]
        check(m[a[1 + j]][b[1 + j]] > 0, "impossible transition", "%s: row %d: %s from %d to %d at rate %s", where, i + 1,
              names[j], a[1 + j], b[1 + j], m[a[1 + j]][b[1 + j]])
    if max_tr is not None:
        check(len(rows) == max_tr + 1, "wrong number of transitions", "%s: %d rows for %d transitions", where, len(rows),
              max_tr)
    if t_end is not None:
        check(rows[-1][0] <= t_end + 5.1e-5, "transition after the end", "%s: %s, end %s", where, rows[-1][0], t_end)


def exit_rate_min(names, cards, net):
    """A lower bound on the total exit rate."""
    return sum(min(-m[s][s] for m in mats.values() for s in range(len(m))) for _, mats in net.values())


def exit_rate_max(names, cards, net):
    return sum(max(-m[s][s] for m in mats.values() for s in range(len(m))) for _, mats in net.values())


def build(d, ctx_dir, where="building the network", trajs=1):
    """(frames, net, make_generator) for a description; imported ones go through a file in ctx_dir."""
    fr = must(where, frames, d)
    net = must(where, rates, d["names"], d["cards"], fr[1], fr[2])
    if d["kind"] != "imported":
        return fr, net, lambda: generator(fr)
    g = must(where, generator, fr)
    ts = [must(where, g.CTBN_Sample, max_tr=2 + i) for i in range(trajs)]
    must("exporting", export, fr, ts, "net.json")
    return fr, net, lambda: imported_generator(ctx_dir + "/net.json")


def shrink(d):
    if d["kind"] == "imported":
        yield dict(d, kind="direct" if "cims" in d else "generated")
    if "cims" in d:
        for c in d["names"]:
            if d["cims"][c][0]:
                rows = [[[], d["cims"][c][1][0][1]]]
                yield dict(d, cims=dict(d["cims"], **{c: [[], rows]}), edges=[e for e in d["edges"] if e[1] != c])
        for c in list(d["names"]):
            if len(d["names"]) > 1 and not any(c in d["cims"][x][0] for x in d["names"]):
                i = d["names"].index(c)
                yield dict(d, names=[x for x in d["names"] if x != c], cards=d["cards"][:i] + d["cards"][i + 1:],
                           cims={x: v for x, v in d["cims"].items() if x != c},
                           edges=[e for e in d["edges"] if c not in e])
    elif d["density"]:
        yield dict(d, density=0.0)

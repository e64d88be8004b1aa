"""Datasets for the simulated runs: own sampler, plain lists, JSON-serialisable."""
import math

NAMES = ["X", "Y", "Z", "W", "V", "U"]


STYLES = [
    ["A", "B", "C", "D", "E", "F"],
    ["Pain", "Drowsy", "Hungry", "Eating", "Uptake", "Conc"],
    ["X", "XS", "XSS", "Time2", "S", "SS"],
    ["v10", "v2", "v1", "v20", "V1", "v_1"],
    NAMES, NAMES,
    ["1", "10", "2", "0", "01", "11", "20", "3", "-1", "1.0", "12", "9"],
    ["A", "AA", "AB", "a", "aa", "B A", "A ", "BA", "ab", "AAA", "b", "aA"],
    ["a=1", "b", "a=1,b", "c=0", "=2", "x=0,y=12"],
    ["joint pain (left)", "\u00e9tat", "\u03bb", "x,y", "a/b", "P's", "#", "x|y", "%s", "{0}", "None", "nan"],
]


def names(r, n):
    base = list(r.choice(STYLES))
    if n > len(base):
        base += [s + r.choice(["", "_", "0"]) + s for s in base]
        base = list(dict.fromkeys(base))
        while len(base) < n:
            base.append("N%d" % len(base))
    base = base[:max(n, 1)]
    if r.random() < 0.5:
        r.shuffle(base)
    return base[:n]


def cards(r, n, hi=4):
    style = r.randrange(4)
    if style == 0:
        return [2] * n
    if style == 1:
        return [r.choice([2, 3])] * n
    return [r.randint(2, hi) for _ in range(n)]


def network(r, n, cs, density=None, strong=True, maxpar=3):
    """Random CTBN: {child: (parents, {config: matrix})} by index."""
    density = r.choice([0.0, 0.3, 0.5, 0.8]) if density is None else density
    net = []
    for c in range(n):
        ps = [p for p in range(n) if p != c and r.random() < density][:maxpar]
        mats = {}
        combs = [()]
        for p in ps:
            combs = [x + (v,) for x in combs for v in range(cs[p])]
        for comb in combs:
            m = []
            for i in range(cs[c]):
                base = r.choice([0.2, 1.0, 5.0, 20.0]) if strong else 1.0
                row = [0.0 if i == j else base * (0.2 + r.random()) for j in range(cs[c])]
                if cs[c] > 2 and r.random() < 0.1:
                    row[(i + 1) % cs[c]] = 0.0
                row[i] = -sum(row)
                m.append(row)
            mats[comb] = m
        net.append((ps, mats))
    return net


def trajectory(r, n, cs, net, rows, quirk):
    st = [r.randrange(c) for c in cs] if r.random() < 0.7 else [0] * n
    t = 0.0 if r.random() < 0.8 else round(r.random() * 10, 3)
    out = [[t] + list(st)]
    while len(out) < rows:
        rates = []
        for c in range(n):
            ps, mats = net[c]
            row = mats[tuple(st[p] for p in ps)][st[c]]
            rates.append((c, row, -row[st[c]]))
        tot = sum(x[2] for x in rates)
        t += -math.log(1.0 - r.random()) / tot if tot > 0 else 1.0
        k = 2 if "simul" in quirk and r.random() < 0.15 else 1
        for _ in range(k):
            u = r.random() * tot
            for c, row, q in rates:
                u -= q
                if u <= 0:
                    break
            w = [max(0.0, x) if j != st[c] else 0.0 for j, x in enumerate(row)]
            z = sum(w)
            if z > 0 and not ("repeat" in quirk and r.random() < 0.1):
                u = r.random() * z
                j = 0
                for j, x in enumerate(w):
                    u -= x
                    if u <= 0 and x > 0:
                        break
                if w[j] > 0:
                    st[c] = j
        tt = t
        if "grid" in quirk:
            tt = round(t, 1)
        elif "int" in quirk:
            tt = int(t * 4)
        else:
            tt = round(t, r.choice([4, 6])) if "raw" not in quirk else t
        tt = max(tt, out[-1][0])
        out.append([tt] + list(st))
    if "sentinel" in quirk and len(out) > 1:
        out[-1] = [out[-1][0]] + [-1] * n
    return out


def jumps(r, rows=(300, 1500)):
    """A dataset whose parents decide where their child jumps but not when; some jumps never happen."""
    n = r.randint(2, 3)
    cs = [r.choice([2, 2, 3]) for _ in range(n)]
    x = r.randrange(n)
    cs[x] = r.choice([4, 4, 5])
    net = network(r, n, cs, 0.3, strong=False)
    ps = [p for p in range(n) if p != x and (r.random() < 0.8 or n == 2)]
    mats = {}
    combs = [()]
    for p in ps:
        combs = [a + (v,) for a in combs for v in range(cs[p])]
    speed = r.choice([0.5, 2.0, 5.0])
    never = [[j for j in range(cs[x]) if j == i or r.random() < 0.3] for i in range(cs[x])]
    for cfg in combs:
        m = []
        for i in range(cs[x]):
            w = [0.0 if j in never[i] else r.choice([0.05, 1.0, 1.0]) for j in range(cs[x])]
            if not any(w):
                w[(i + 1) % cs[x]] = 1.0
            z = speed / sum(w)
            m.append([-speed if j == i else w[j] * z for j in range(cs[x])])
        mats[cfg] = m
    net[x] = (ps, mats)
    total = int(math.exp(r.uniform(math.log(rows[0]), math.log(rows[1]))))
    k = r.randint(1, 3)
    nm = names(r, n)
    return {"names": nm, "cards": cs, "time": "Time", "trajs": [trajectory(r, n, cs, net, total // k, set()) for _ in range(k)],
            "prior": None, "form": "frame"}


def dataset(r, nmin=2, nmax=4, rows=(20, 200), maxcard=4, trajs=(1, 4), prior=None, strong=True, density=None):
    n = r.randint(nmin, nmax)
    cs = cards(r, n, maxcard)
    net = network(r, n, cs, density, strong=strong)
    quirk = {q for q, p in (("simul", 0.2), ("repeat", 0.2), ("grid", 0.2), ("int", 0.1), ("raw", 0.3),
                            ("sentinel", 0.5)) if r.random() < p}
    total = int(math.exp(r.uniform(math.log(rows[0]), math.log(rows[1]))))
    k = r.randint(*trajs)
    ts = []
    for i in range(k):
        m = max(2, total // k)
        if i and r.random() < 0.1:
            m = 1
        ts.append(trajectory(r, n, cs, net, m, quirk))
    if r.random() < 0.06:
        f = r.choice([1000, 1e6, 0.001, 1e-6])        # another unit of time
        ts = [[[row[0] * f] + row[1:] for row in t] for t in ts]
    nm = names(r, n)
    ds = {"names": nm, "cards": cs, "time": "Time", "trajs": ts, "prior": None}
    mode = r.randrange(4) if prior is None else prior
    edges = [[nm[p], nm[c]] for c in range(n) for p in net[c][0]]
    if mode == 1:
        ds["prior"] = edges
    elif mode == 2:
        ds["prior"] = [[a, b] for a in nm for b in nm if a != b and r.random() < 0.4]
    elif mode == 3 and r.random() < 0.3:
        ds["prior"] = []
    ds["form"] = r.choice(["frame", "frame", "frame", "list", "array"])
    return ds


def rich(r, nmin=4, nmax=5, rows=(200, 700), maxcard=2, prior=None):
    """Enough data, and parents enough, for several of a variable's parents to matter jointly."""
    return dataset(r, nmin, nmax, rows, maxcard, (1, 3), prior, density=r.choice([0.4, 0.6, 0.8]))


def wide(r, nmin=7, nmax=11, rows=(20, 120), maxcard=3, prior=None):
    """More variables than any other case, each with a handful of observed changes."""
    return dataset(r, nmin, nmax, rows, maxcard, (1, 3), prior, density=r.choice([0.1, 0.2, 0.3]))


def vee(r, rows=(800, 2500), maxcard=3, mids=None):
    """A hidden-cause shape: D drives A and B (and C), Z follows A and B (and C) jointly.  D is independent of Z given
    all of them but given no fewer, so learning must get to sets of two or three to tell."""
    m = mids or r.choice([2, 2, 2, 3])
    n = m + 2
    perm = list(range(n))
    r.shuffle(perm)
    d, z, mids = perm[0], perm[1], perm[2:]
    cs = [2] * n
    if maxcard > 2 and m == 2:
        cs = [r.choice([2, 2, maxcard]) for _ in range(n)]
        cs[z] = r.choice([2, maxcard, maxcard])
    net = [None] * n
    hub = r.uniform(0.2, 0.5)
    net[d] = ([], {(): [[-hub * (cs[d] - 1) if i == j else hub for j in range(cs[d])] for i in range(cs[d])]})
    for x in mids:
        mats = {}
        for v in range(cs[d]):
            to, back = r.uniform(2, 4), r.uniform(0.3, 0.8)
            g = v % cs[x]
            mats[(v,)] = [[0.0 if i == j else (to if j == g else back) for j in range(cs[x])] for i in range(cs[x])]
            for i in range(cs[x]):
                mats[(v,)][i][i] = -sum(mats[(v,)][i])
        net[x] = ([d], mats)
    ps = sorted(mids)
    mats = {}
    combs = [()]
    for x in ps:
        combs = [c + (v,) for c in combs for v in range(cs[x])]
    f = r.uniform(3, 6)
    for c in combs:
        base = 0.3 * f ** sum(min(v, 1) for v in c)
        mats[c] = [[-base * (cs[z] - 1) if i == j else base for j in range(cs[z])] for i in range(cs[z])]
    net[z] = (ps, mats)
    total = int(math.exp(r.uniform(math.log(rows[0]), math.log(rows[1]))))
    k = r.randint(1, 3)
    ts = [trajectory(r, n, cs, net, total // k, {"raw"}) for _ in range(k)]
    nm = names(r, n)
    return {"names": nm, "cards": cs, "time": "Time", "trajs": ts, "prior": None}


def known_edges(r, nm, p=None):
    p = r.choice([0.0, 0.0, 0.2, 0.5, 1.0]) if p is None else p
    return [[a, b] for a in nm for b in nm if a != b and r.random() < p]


def variation(ds, seed):
    """Another dataset of exactly the same dimensions: its rows in another order under the same times, without prior edges."""
    import random
    r = random.Random(seed)
    ts = []
    for t in ds["trajs"]:
        m = len(t) - 1 if t[-1][1] == -1 else len(t)
        rows = [x[1:] for x in t[:m]]
        r.shuffle(rows)
        ts.append([[x[0]] + y for x, y in zip(t, rows + [x[1:] for x in t[m:]])])
    r.shuffle(ts)
    return dict(ds, trajs=ts, prior=None)


def shrink_dataset(ds):
    """Simpler datasets, boldest first; some interval always stays."""
    for d in _shrink_dataset(ds):
        if any(len(t) > 1 for t in d["trajs"]):
            yield d


def _shrink_dataset(ds):
    ts = ds["trajs"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield dict(ds, trajs=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
        if len(t) > 4:
            for part in (t[:len(t) // 2], t[len(t) // 2:], t[:3 * len(t) // 4], t[:-1]):
                yield dict(ds, trajs=ts[:i] + [part] + ts[i + 1:])
    if ds.get("prior"):
        yield dict(ds, prior=None)


# ------------------------------------------------------------------------------ building the real objects
def frames(ds):
    import pandas as pd
    cols = [ds["time"]] + ds["names"]
    return [pd.DataFrame(t, columns=cols) for t in ds["trajs"]]


def variables(ds):
    import pandas as pd
    return pd.DataFrame({"Name": ds["names"], "Value": ds["cards"]})


def sample_path(ds):
    import pandas as pd
    from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
    prior = None
    if ds.get("prior") is not None:
        prior = pd.DataFrame(ds["prior"], columns=["From", "To"])
    vs, form = variables(ds), ds.get("form", "frame")
    if form == "list":
        vs = [[a, b] for a, b in zip(ds["names"], ds["cards"])]
        prior = prior if prior is None else [list(e) for e in ds["prior"]]
    elif form == "array":
        vs = vs.to_numpy(dtype=object)
        prior = prior if prior is None else prior.to_numpy(dtype=object)
    imp = SampleImporter(frames(ds), vs, prior)
    imp.import_data()
    sp = SamplePath(imp)
    sp.build_trajectories()
    sp.build_structure()
    return sp

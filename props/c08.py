"""C08 sampled trajectories follow the law of the network."""
import math

from sim import net as N
from sim import seams
from sim.case import attempt, check, must, seed_streams

ID = "C08"
QUICK, THOROUGH = 280, 6000
RULE = ("Each case: a network and a few long trajectories drawn from it on seeded streams (one by one, after interrupted "
        "attempts, from an imported file, or by simulated parallel workers). Every transition count is compared with its "
        "compensator under the network's matrices, overall and per variable, configuration, state, time since the last "
        "change, after a parent changed, and per state of unrelated variables; every jump target with its probability. "
        "The statistics are e-values (exact under the law at any stopping time): a case fails above 1e9 per family. "
        "Non-trivial: at least 100 transitions; distinct by network and trajectories.")
REAL = ["TrajectoryGenerator", "SetOfCims", "NetworkGenerator", "JsonExporter", "JsonImporter"]
STUB = ["entropy", "worker processes of multi_trajectory"]
ASSUMPTIONS = ["numpy's generators produce the distributions they are asked for",
               "statistical: departures too small for the number of transitions drawn are not seen"]

LIMIT = 1e9
THETAS = [s * x for x in (0.05, 0.1, 0.2, 0.4, 0.7, 1.1, 1.7, 2.5) for s in (1, -1)] + [-5.0]


def gen(r, idx, tier):
    d = N.gen(r, 4, r.choice([2, 3, 4]), slow=0.5)
    if idx % 5 == 3:
        d = N.gen(r, 6, r.choice([2, 3, 6]), slow=0.5, zeros=r.choice([0, 0.3]), scale=r.choice([1.0, 0.02, 0.3, 3.0]),
                  kind=r.choice(["direct", "imported"]))
    if idx % 10 == 8:
        while len(d["names"]) < 8 or "cims" not in d:      # many variables
            d = N.gen(r, 13, 3, maxpar=2, slow=0.5, kind=r.choice(["direct", "imported"]))
    if idx % 10 == 6:
        d = N.gen_tall(r, slow=0.5, zeros=r.choice([0, 0.3]))
    big = tier == "thorough"
    # one long trajectory costs quadratically (frames are copied per row): several of medium length
    runs = [{"n": r.choice([60, 120, 200, 300]), "seed": r.randrange(2 ** 32), "fault": r.random() < 0.2}
            for _ in range(r.randint(3, 5) * (2 if big else 1))]
    if idx % 20 == 11:      # the law stays the same far into a trajectory
        runs = runs[:1] + [{"n": r.randint(1050, 1500), "seed": r.randrange(2 ** 32), "fault": False} for _ in range(3)]
    if idx % 40 == 31:      # what is rare happens all the same
        d = N.gen_rare(r)
        runs = [{"n": r.randint(1000, 1300), "seed": r.randrange(2 ** 32), "fault": False} for _ in range(3)]
    return {"net": d, "runs": runs, "other": N.gen_other(r, d), "multi": [r.choice([50, 100, 150]) for _ in range(r.choice([0, 0, 0, 2, 3]))],
            "method": r.choice(["fork", "spawn"])}


class Evidence:
    """Mixture e-values for counts against compensators and for jumps against probabilities."""

    def __init__(self):
        self.counts = {}          # key -> [N, Lambda]
        self.jumps = {}           # key -> {theta: log e}

    def add(self, key, n, lam):
        c = self.counts.setdefault(key, [0, 0.0])
        c[0] += n
        c[1] += lam

    def jump(self, key, hit, p):
        j = self.jumps.setdefault(key, [[0.0] * len(THETAS), 0, 0.0])
        for i, th in enumerate(THETAS):
            j[0][i] += (th if hit else 0.0) - math.log(1 - p + p * math.exp(th))
        j[1] += hit
        j[2] += p

    @staticmethod
    def _mean(logs):
        m = max(logs)
        return m + math.log(sum(math.exp(x - m) for x in logs) / len(logs))

    def worst(self):
        """[(log e, key, observed, expected)] of each family; within a family the e-values are averaged."""
        fam = {}
        for key, (n, lam) in self.counts.items():
            e = self._mean([th * n - lam * (math.exp(th) - 1) for th in THETAS])
            fam.setdefault(key[0], []).append((e, key, n, lam))
        for key, (logs, n, lam) in self.jumps.items():
            fam.setdefault(key[0], []).append((self._mean(logs), key, n, lam))
        out = []
        for f, xs in fam.items():
            top = max(xs)
            out.append((self._mean([x[0] for x in xs]),) + top[1:])
        return sorted(out, reverse=True)


BINS = [0.0, 0.15, 0.4, 0.8, 1.5, 2.5, float("inf")]


def observe(ev, rows, nm, net):
    """Adds a path; the last row, whose transition is not recorded, is left out."""
    n = len(nm)
    used = [0.0] * n             # integrated hazard since the variable's own last change
    since = [None] * n           # the variable that changed last among its parents since then, or None
    pos = {x: i for i, x in enumerate(nm)}
    stay = [None] * n            # whether the variable's stay before this one was short for its rates
    target = {}                  # the state it went to when it left this state last
    for at, (a, b) in enumerate(zip(rows[:-2], rows[1:-1])):
        dt = b[0] - a[0]
        who = [j for j in range(n) if a[1 + j] != b[1 + j]][0]
        for j, c in enumerate(nm):
            ps, mats = net[c]
            cfg = tuple(a[1 + pos[p]] for p in ps)
            s = a[1 + j]
            m = mats[cfg]
            q = -m[s][s]
            lam, hit = q * dt, int(who == j)
            ev.add(("variable", c), hit, lam)
            ev.add(("stretch of the path", at.bit_length() // 2), hit, lam)
            ev.add(("time on the clock", math.frexp(a[0])[1]), hit, lam)
            ev.add(("configuration", c, cfg), hit, lam)
            if stay[j] is not None:
                ev.add(("after a short stay" if stay[j] else "after a long stay", c), hit, lam)
                ev.add(("after a short stay, any variable" if stay[j] else "after a long stay, any variable",), hit, lam)
            ev.add(("state", c, cfg, s), hit, lam)
            ev.add(("after a parent changed" if since[j] else "since own change", c), hit, lam)
            if since[j]:
                ev.add(("after a parent changed, by configuration", c, cfg, s), hit, lam)
            for o in range(n):
                if o != j and nm[o] not in ps:
                    ev.add(("by unrelated variable", c, nm[o], a[1 + o]), hit, lam)
            x = used[j]
            for i in range(len(BINS) - 1):
                lo, hi = max(x, BINS[i]), min(x + lam, BINS[i + 1])
                if hi > lo:
                    last = hi == x + lam
                    ev.add(("time since own change", c, i), hit if last else 0, hi - lo)
            used[j] += lam
            if hit:
                row = [max(0.0, y) if i != s else 0.0 for i, y in enumerate(m[s])]
                z = sum(row)
                for t, y in enumerate(row):
                    if t != s and len(row) > 2:
                        p = min(1 - 1e-9, max(1e-9, y / z))
                        ev.jump(("jump", c, cfg, s, t), int(b[1 + j] == t), p)
                        if p < 0.01:
                            ev.jump(("rare jump",), int(b[1 + j] == t), p)
                        ev.jump(("jump after a stay", c, t, used[j] < 0.69), int(b[1 + j] == t), p)
                        if target.get((j, s)) == t:
                            ev.jump(("to the same state as the last time",), int(b[1 + j] == t), p)
        c = nm[who]
        stay[who], target[who, a[1 + who]] = used[who] < 0.69, b[1 + who]
        used[who] = 0.0
        since[who] = None
        for j, x in enumerate(nm):
            if c in net[x][0]:
                since[j] = c


def run(case, ctx):
    d = case["net"]
    nm, cs = d["names"], d["cards"]
    home = ctx.dir()
    ev = Evidence()
    total = 0
    with ctx.kernel("run", start_method=case["method"], step_limit=20_000_000) as k:
        fr, net, make = N.build(d, home)
        g = must("building the generator", make)
        paths = []
        for i, q in enumerate(case["runs"]):
            where = "trajectory %d" % i
            if case.get("other") and i < 2:
                ofr = must("building another network", N.frames, case["other"])
                og = must("building another generator", N.generator, ofr)
                must("sampling another network", og.CTBN_Sample, max_tr=5)
                ctx.probe("other_networks")
            seed_streams(q["seed"])
            if q["fault"]:
                k.root.plan = [(k.root.steps + 200 + q["seed"] % 3000, "interrupt")]
                attempt(g.CTBN_Sample, max_tr=q["n"])
                k.root.plan = []
            rows = N.rows_of(must(where, g.CTBN_Sample, max_tr=q["n"]), nm, where)
            N.check_path(rows, nm, cs, net, where, max_tr=q["n"])
            paths.append(rows)
        if case["multi"]:
            got = must("multi_trajectory", lambda: list(g.multi_trajectory(max_trs=case["multi"])))
            for i, df in enumerate(got):
                rows = N.rows_of(df, nm, "parallel trajectory %d" % i)
                N.check_path(rows, nm, cs, net, "parallel trajectory %d" % i)
                paths.append(rows)
            ctx.probe("parallel_trajectories", len(got))
    for rows in paths:
        observe(ev, rows, nm, net)
        total += len(rows) - 1
    worst = ev.worst()
    if worst:
        e, key, n, lam = worst[0]
        check(e < math.log(LIMIT), "not the law of the network", "%s: %d observed, %.2f expected (e-value 1e%.1f)", key, n,
              lam, e / math.log(10))
        ctx.probe("families_tested", len(worst))
        ctx.probe("largest_log10_e_above_4", int(e / math.log(10) > 4))
    ctx.probe("transitions", total)
    ctx.nontrivial = total >= 100
    ctx.seen(d, [r[-1] for r in paths])


def shrink(case):
    if case.get("other"):
        yield dict(case, other=None)
    if case["multi"]:
        yield dict(case, multi=[])
    q = case["runs"]
    for i in range(len(q)):
        if len(q) > 1:
            yield dict(case, runs=q[:i] + q[i + 1:])
        if q[i]["fault"]:
            yield dict(case, runs=q[:i] + [dict(q[i], fault=False)] + q[i + 1:])
        if q[i]["n"] > 20:
            yield dict(case, runs=q[:i] + [dict(q[i], n=q[i]["n"] // 2)] + q[i + 1:])
    for d in [] if case.get("other") else N.shrink(case["net"]):
        yield dict(case, net=d)

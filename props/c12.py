"""C12 importing keeps every observed interval and never crosses trajectories."""
import json
import os

from sim import gen as G
from sim import simfs
from sim.case import attempt, check, describe, must

ID = "C12"
QUICK, THOROUGH = 1100, 50000
RULE = ("Each case: 1-4 datasets with their own variables, time-column names, row labels and trajectory lengths, handed "
        "over as frames or as a multi-dataset file, and a history of 2-8 imports through shared importers in any order - "
        "interrupted at seeded steps, failing on missing data or on the disk, repeated, after the file was replaced by "
        "another of the same size and time, with columns in another order, or made by two threads over the same frames. Each "
        "import is compared interval by interval with the trajectories; the caller's frames and all "
        "datasets built earlier are compared again at the end. Non-trivial: an importer was used more than once; distinct "
        "by data and history.")
REAL = ["SampleImporter", "JsonImporter", "AbstractImporter", "SamplePath", "Trajectory", "Structure"]
STUB = ["raw file layer", "threads"]
ASSUMPTIONS = ["the time column comes first, as the importers document"]

TIMES = ["Time", "t", "time", "Timestamp", "T S", "Index", "0"]


def gen(r, idx, tier):
    sets = []
    many = idx % 40 == 23                   # datasets in one file
    for _ in range(13 if many else r.randint(1, 4)):
        ds = G.dataset(r, 1, 5, (2, 20 if many else 90), r.choice([2, 3, 5]), trajs=(1, 7))
        if idx % 10 == 6:
            ds = G.dataset(r, 1, 12, (60, 150), 12, trajs=(9, 30))
        ds["time"] = r.choice(TIMES)
        if ds["time"] in ds["names"]:
            ds["time"] = "t"
        if r.random() < 0.15:
            ds["trajs"].insert(0, [ds["trajs"][0][0]])        # a trajectory of one row comes first
        for i, t in enumerate(ds["trajs"]):
            if r.random() < 0.25:
                ds["trajs"][i] = t[:r.choice([2, 2, 3, 5])]   # lengths differ
        if r.random() < 0.15:
            j, k = r.randrange(len(ds["names"])), r.choice([130, 260, 70000])
            f = (k - 1) // (ds["cards"][j] - 1)               # a variable with many states
            ds["cards"][j] = k
            ds["trajs"] = [[row[:j + 1] + [row[j + 1] * f if row[j + 1] > 0 else row[j + 1]] + row[j + 2:] for row in t]
                           for t in ds["trajs"]]
        if r.random() < 0.1:
            base = r.choice([1.6e9, 1e5, -50.0])              # times that do not start near zero
            ds["trajs"] = [[[row[0] + base] + row[1:] for row in t] for t in ds["trajs"]]
        elif r.random() < 0.1:                                # in whole milliseconds
            base = r.choice([0, 1_600_000_000_000])
            ds["trajs"] = [[[base + round(row[0] * 1000)] + row[1:] for row in t] for t in ds["trajs"]]
        if idx % 150 == 77 and not sets:      # more rows than 16 bits count
            m = r.choice([33000, 66000])
            ds["trajs"].insert(0, [[i * 0.125] + [(i >> j) % x for j, x in enumerate(ds["cards"])] for i in range(m)])
        ds["labels"] = r.choice(["range", "range", "repeated", "offset", "words", "shuffled", "times"])
        sets.append(ds)
    file = many or r.random() < 0.5
    ops = []
    for _ in range(r.randint(2, 8)):
        o = {"i": r.randrange(len(sets)), "build": r.random() < 0.7, "fault": None, "header": r.random() < 0.2,
             "new": r.random() < 0.25}
        u = r.random()
        if u < 0.3:
            o["fault"] = [r.choice(["interrupt", "memory"]), r.random() ** 2]
        elif u < 0.4:
            o["fault"] = ["missing", r.choice(["samples", "variables", "dyn.str", "index"])]
        elif u < 0.5:
            o["fault"] = ["read", r.random()]
        elif u < 0.58:
            o["fault"] = ["threads", 0]
        o["rewrite"] = file and r.random() < 0.15
        ops.append(o)
    return {"sets": sets, "file": file, "ops": ops, "swap": r.choice([None, r.randrange(11)]), "mean": r.choice([5, 20, 60])}


def frames(ds):
    fs = G.frames(ds)
    off = 0
    for f in fs:
        n = len(f)
        if ds["labels"] == "repeated":
            f.index = [i // 2 for i in range(n)]
        elif ds["labels"] == "offset":
            f.index = range(off, off + n)
            off += n
        elif ds["labels"] == "words":
            f.index = ["row%d" % (n - i) for i in range(n)]
        elif ds["labels"] == "shuffled":
            f.index = [(i * 7 + 3) % n if n % 7 else n - 1 - i for i in range(n)]
        elif ds["labels"] == "times":
            f.index = f.iloc[:, 0].to_list()
    return fs


def freeze(fs):
    return [(list(map(str, f.columns)), list(map(str, f.index)), [str(t) for t in f.dtypes], f.values.tolist()) for f in fs]


def expected(ds):
    """Interval rows; the last entry of each is the precision its duration can have."""
    return [[float(b[0]) - float(a[0])] + [int(x) for x in a[1:]] + [int(x) for x in b[1:]] +
            [1e-15 * max(abs(float(a[0])), abs(float(b[0])))] for t in ds["trajs"] for a, b in zip(t, t[1:])]


def compare(got, want, where):
    check(len(got) == len(want), "lost or invented intervals", "%s: %d intervals, not %d", where, len(got), len(want))
    for n, (a, b) in enumerate(zip(got, want)):
        b, eps = b[:-1], b[-1]
        check(len(a) == len(b), "wrong interval", "%s: interval %d: %s, not %s", where, n, a, b)
        check(abs(float(a[0]) - b[0]) <= 1e-12 * abs(b[0]) + eps, "wrong duration", "%s: interval %d lasts %r, not %r",
              where, n, a[0], b[0])
        check([int(x) for x in a[1:]] == b[1:], "wrong states", "%s: interval %d: %s, not %s", where, n, a[1:], b[1:])


def path_rows(sp):
    t = sp.trajectories
    n = len(sp.structure.nodes_labels)
    check(t.size() == len(t.times) == len(t.complete_trajectory), "wrong size", "%s rows, %s times, size() %s",
          len(t.complete_trajectory), len(t.times), t.size())
    a, b = t.trajectory, t.complete_trajectory
    check(a.shape == (len(b), n) and a.tolist() == b[:, :n].tolist(), "wrong states", "trajectory %s, complete %s", a.shape,
          b.shape)
    return [[float(x)] + [int(v) for v in row] for x, row in zip(t.times, t.complete_trajectory)]


def run(case, ctx):
    from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
    from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
    from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
    import pandas as pd
    sets = case["sets"]
    home = ctx.dir()
    mine = [frames(ds) for ds in sets]
    before = [freeze(f) for f in mine]
    held = []
    path = home + "/data.json"
    data = []
    for ds in sets:
        cols = [ds["time"]] + ds["names"]
        data.append({"samples": [[dict(zip(cols, row)) for row in t] for t in ds["trajs"]],
                     "dyn.str": [{"From": a, "To": b} for a, b in ds["prior"] or []],
                     "variables": [{"Name": a, "Value": b} for a, b in zip(ds["names"], ds["cards"])]})
    # one time key per importer: datasets of a file share it
    tk = sets[0]["time"]
    if case["file"]:
        for ds, d in zip(sets, data):
            if tk in ds["names"]:
                tk = "t"
        for ds, d in zip(sets, data):
            cols = [tk] + ds["names"]
            d["samples"] = [[dict(zip(cols, row)) for row in t] for t in ds["trajs"]]
    with open(path, "w") as f:
        json.dump(data if len(data) > 1 or len(sets[0]["names"]) % 2 else data[0], f)
    now = list(range(len(sets)))            # the order of the datasets in the file
    orders = {}

    def rewrite():
        # another file of the same name, size and (on a coarse clock) time
        st = os.stat(path)
        now.reverse()
        with open(path, "w") as f:
            json.dump([data[j] for j in now], f)
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))

    def new_importer(i):
        if case["file"]:
            imp = JsonImporter(path, "samples", "dyn.str", "variables", tk, "Name")
            orders[id(imp)] = (imp, list(now))
            return imp
        ds = sets[i]
        prior = None
        if ds["prior"] is not None:
            prior = pd.DataFrame(ds["prior"], columns=["From", "To"])
        var = G.variables(ds) if i % 2 == 0 else [[a, b] for a, b in zip(ds["names"], ds["cards"])]
        return SampleImporter(mine[i], var, prior)

    def build_from(fs, ds):
        imp = SampleImporter(fs, G.variables(ds))
        imp.import_data()
        return build(imp)
    imps = {}
    used = {}

    def do_import(imp, o):
        if case["file"]:
            imp.import_data(orders[id(imp)][1].index(o["i"]))
        elif o["header"]:
            imp.import_data(list(sets[o["i"]]["names"]))
        else:
            imp.import_data()

    def build(imp):
        sp = SamplePath(imp)
        sp.build_trajectories()
        sp.build_structure()
        return sp
    with ctx.kernel("run", preempt_mean=case["mean"]) as k:
        for n, o in enumerate(case["ops"]):
            i = o["i"]
            ds = sets[i]
            want = expected(ds)
            where = "import %d %s" % (n, o)
            key = "file" if case["file"] else i
            if key not in imps or o["new"]:
                imps[key] = must(where + ": importer", new_importer, i)
            if o.get("rewrite") and len(sets) > 1:
                rewrite()
                imps[key] = must(where + ": importer", new_importer, i)
                ctx.probe("file_replaced")
            imp = imps[key]
            f = o["fault"]
            if f and f[0] in ("interrupt", "memory"):
                k.root.plan = [(k.root.steps + 1 + int(f[1] * (20 + 14 * len(ds["trajs"]))), f[0])]
                st, v = attempt(lambda: (do_import(imp, o), build(imp)))
                k.root.plan = []
                if st == "exc":
                    check(isinstance(v, (KeyboardInterrupt, MemoryError)), "unexpected exception", "%s: %s", where,
                          describe(v) if st == "exc" else "")
                    ctx.probe("interrupted")
                else:
                    compare(path_rows(v[1]), want, where)
            elif f and f[0] == "missing" and case["file"]:
                if f[1] == "index":
                    st, v = attempt(imp.import_data, len(sets) + 3)
                else:
                    bad = [{a: b for a, b in data[j].items() if a != f[1]} for j in now]
                    with open(path + ".bad", "w") as fh:
                        json.dump(bad, fh)
                    st, v = attempt(lambda: JsonImporter(path + ".bad", "samples", "dyn.str", "variables", tk,
                                                         "Name").import_data(i))
                check(st == "exc", "missing data accepted", where)
                ctx.probe("failed_imports")
            elif f and f[0] == "read" and case["file"]:
                simfs.attach(k, home, [{"n": 0, "kind": "read_eio" if n % 2 else "read_trunc", "at": int(f[1] * 400)}])
                st, v = attempt(new_importer, i)
                struck = sum(k.counts.get(x, 0) for x in ("io_eio_read", "io_truncated_read"))
                k.fs = None
                if st == "exc":
                    check(struck > 0, "unexpected exception", "%s: %s", where, describe(v))
                    ctx.probe("read_faults")
                else:
                    imp = imps[key] = v
            elif f and f[0] == "threads":
                out = []

                def body(j):
                    im = new_importer(j)
                    do_import(im, dict(o, i=j))
                    out.append((j, build(im)))
                js = [i, (i + n) % len(sets)]
                ts = [k.spawn(lambda j=j: body(j), k.root, "importer%d" % j, preempt=True) for j in js]
                k.block(lambda: all(t.done for t in ts), "importers")
                for t in ts:
                    if t.exc is not None:
                        if isinstance(t.exc, Exception):
                            check(not want or not expected(sets[js[0]]) or not expected(sets[js[1]]), "unexpected exception",
                                  "%s: %s", where, describe(t.exc))
                        else:
                            raise t.exc
                for j, sp in out:
                    compare(path_rows(sp), expected(sets[j]), where + " in a thread")
                    held.append((where, sp, j))
                ctx.probe("threads")
            must(where, do_import, imp, o)
            used[key] = used.get(key, 0) + 1
            cs = imp.concatenated_samples
            check([str(x) for x in imp.sorter] == ds["names"], "wrong variables", "%s: %s", where, imp.sorter)
            compare(cs.values.tolist(), want, where)
            names = [str(x) for x in imp.variables.iloc[:, 0]]
            check(names == ds["names"] and [int(x) for x in imp.variables.iloc[:, 1]] == ds["cards"], "wrong variables",
                  "%s: %s", where, imp.variables.values.tolist())
            if o["build"] and want:
                sp = must(where + ": SamplePath", build, imp)
                compare(path_rows(sp), want, where)
                held.append((where, sp, i))
        if case.get("swap") is not None and len(sets[0]["names"]) > 1:
            # columns in another order than the variables: refused, or imported under the right names
            ds = sets[0]
            order = sorted(range(len(ds["names"])), key=lambda j: (j * 7 + case["swap"]) % 11)
            if order == sorted(order):
                order.reverse()
            other = [t.iloc[:, [0] + [1 + j for j in order]] for t in frames(ds)]
            st, v = attempt(lambda: build_from(other, ds))
            if st == "ok":
                lab = [str(x) for x in v.structure.nodes_labels]
                pick = [ds["names"].index(x) for x in lab]
                check(sorted(lab) == sorted(ds["names"]) and [int(x) for x in v.structure.nodes_values] ==
                      [ds["cards"][j] for j in pick], "columns under the wrong names", "%s", v.structure)
                m = len(pick)
                compare(path_rows(v), [[w[0]] + [w[1 + j] for j in pick] + [w[1 + m + j] for j in pick] + [w[-1]]
                                       for w in expected(ds)], "columns in another order")
            else:
                check(isinstance(v, Exception), "unexpected exception", "columns in another order: %s", describe(v))
                ctx.probe("refused_column_orders")
        for where, sp, i in held:
            compare(path_rows(sp), expected(sets[i]), where + ", looked at again at the end")
            s = sp.structure
            check([str(x) for x in s.nodes_labels] == sets[i]["names"] and [int(x) for x in s.nodes_values] == sets[i]["cards"],
                  "earlier dataset changed", "%s: %s", where, s)
            got = sorted((str(a), str(b)) for a, b in s.edges)
            check(got == sorted(map(tuple, sets[i]["prior"] or [])), "earlier dataset changed", "%s: edges %s", where, got)
        for i, f in enumerate(mine):
            check(freeze(f) == before[i], "caller's frames modified", "dataset %d: %s -> %s", i, before[i], freeze(f))
    ctx.nontrivial = any(v > 1 for v in used.values())
    ctx.seen([(ds["names"], ds["cards"], ds["time"], ds["labels"], [len(t) for t in ds["trajs"]]) for ds in sets],
             case["file"], case["ops"])


def shrink(case):
    o = case["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield dict(case, ops=o[:i] + o[i + 1:])
        if o[i]["fault"]:
            yield dict(case, ops=o[:i] + [dict(o[i], fault=None)] + o[i + 1:])
        if o[i].get("rewrite"):
            yield dict(case, ops=o[:i] + [dict(o[i], rewrite=False)] + o[i + 1:])
    s = case["sets"]
    for i in range(len(s)):
        if len(s) > 1 and all(x["i"] != i for x in o):
            yield dict(case, sets=s[:i] + s[i + 1:], ops=[dict(x, i=x["i"] - (x["i"] > i)) for x in o])
        if s[i]["labels"] != "range":
            yield dict(case, sets=s[:i] + [dict(s[i], labels="range")] + s[i + 1:])
        for ds in G.shrink_dataset(s[i]):
            yield dict(case, sets=s[:i] + [ds] + s[i + 1:])

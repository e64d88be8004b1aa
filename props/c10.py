"""C10 saved files are complete or reported, and torn files are never accepted."""
import json
import os
import re

from sim import est as E
from sim import gen as G
from sim import net as N
from sim import seams, simfs
from sim.case import Skip, attempt, check, describe, must, seed_streams

ID = "C10"
QUICK, THOROUGH = 900, 40000
RULE = ("Each case: a network with trajectories (or an estimated structure) saved 2-5 times to one file - contents growing "
        "between saves - with faults at seeded byte positions (disk full, I/O error, short write, failing open or close, "
        "kill of the saving process) or seeded steps, small or default buffers, some saves by another object with as many "
        "bytes or in two threads at once; after every attempt the file is judged "
        "and imported, also under read faults (I/O error, short reads, truncation). Non-trivial: a fault struck a save "
        "or a read; distinct by contents and faults.")
REAL = ["JsonExporter.out_file", "StructureEstimator.save_results", "JsonImporter", "Python's json and file buffering"]
STUB = ["raw file layer (faults)", "process of the killed saver"]
ASSUMPTIONS = ["data handed to the kernel by write() survives a kill of the process; data in Python's buffers does not"]


def gen(r, idx, tier):
    kind = r.choice(["net", "net", "net", "structure"])
    c = {"kind": kind, "buf": r.choice([None, 1, 16, 64, 257, 4096])}
    if kind == "net":
        c["net"] = N.gen(r, 3, 3, kind=r.choice(["direct", "generated"]))
        c["trs"] = [r.choice([0, 1, 3, 8, 40]) for _ in range(r.randint(1, 5))]
        if idx % 40 == 12:
            c["bulk"] = r.choice([1500, 5000])      # far more than a buffer
    else:
        c["ds"] = G.dataset(r, 2, 5, (12, 40), 2)
        c["est"] = E.gen_cb(r, c["ds"]["names"])
    c["saves"] = []
    for _ in range(r.randint(2, 5)):
        s = {"fault": None, "add": r.randint(0, 2)}
        u = r.random()
        if u < 0.75:
            s["fault"] = r.choice(["enospc", "enospc", "eio", "short", "open", "close", "crash", "crash", "crash_step",
                                   "interrupt_step", "memory_step"])
            s["at"] = r.choice([0, r.random(), r.random(), r.random(), 0.999])
            s["errno"] = r.choice([24, 13, 28, 5])
        elif u < 0.87:
            s["fault"] = "threads"          # a second save at the same time, to another file
            s["mean"] = r.choice([3, 10, 40])
        s["other"] = r.random() < 0.3       # another object saves here, as many bytes where possible
        s["read"] = r.choice([None, "read_eio", "read_short", "read_trunc"])
        s["rat"] = r.choice([0, r.random(), r.random(), 0.9999])
        c["saves"].append(s)
    return c


class Store:
    """What the file may hold, by content key."""

    def __init__(self):
        self.versions = []


def net_content(fr, net, names, cards, trajs):
    return {"names": list(names), "cards": list(cards),
            "edges": sorted((p, c) for c in names for p in net[c][0]),
            "net": {c: (list(net[c][0]), dict(net[c][1])) for c in names},
            "trajs": trajs}


def parse_net(data, where):
    """The content of an exported file, by its documented layout."""
    check(isinstance(data, list) and len(data) == 1 and isinstance(data[0], dict), "malformed file", where)
    d = data[0]
    for key in ("dyn.str", "variables", "dyn.cims", "samples"):
        check(key in d, "incomplete file", "%s: no %s", where, key)
    edges = sorted((e["From"], e["To"]) for e in d["dyn.str"])
    nm = [v["Name"] for v in d["variables"]]
    cs = [v["Value"] for v in d["variables"]]
    net = {}
    for c in nm:
        check(c in d["dyn.cims"], "incomplete file", "%s: no matrices of %s", where, c)
        ps, mats = [e["From"] for e in d["dyn.str"] if e["To"] == c], {}
        for key, rows in d["dyn.cims"][c].items():
            # a configuration is written "parent=state,..." in the order of the edges, or as the variable's own
            # label when it has no parents; labels may contain "=" and "," themselves
            m = re.fullmatch(",".join(re.escape(p) + r"=(\d+)" for p in ps) or re.escape(c), key)
            check(m, "malformed file", "%s: %s of %s", where, key, c)
            mats[tuple(map(int, m.groups()))] = [[row[str(j)] for j in range(len(row))] for row in rows]
        net[c] = (ps, mats)
    trajs = [[[row["Time"]] + [row[x] for x in nm] for row in t] for t in d["samples"]]
    return {"names": nm, "cards": cs, "edges": edges, "net": net, "trajs": trajs}


def same_net(a, b):
    """None, or what differs."""
    for key in ("names", "cards", "edges"):
        if a[key] != b[key]:
            return "%s: %s, not %s" % (key, str(a[key])[:300], str(b[key])[:300])
    if len(a["trajs"]) != len(b["trajs"]):
        return "%d trajectories, not %d" % (len(a["trajs"]), len(b["trajs"]))
    for x, y in zip(a["trajs"], b["trajs"]):
        if len(x) != len(y) or any(u[1:] != v[1:] or abs(u[0] - v[0]) > 1e-9 * max(1.0, abs(v[0])) for u, v in zip(x, y)):
            return "trajectory %s, not %s" % (str(x)[:300], str(y)[:300])
    for c in b["net"]:
        if list(a["net"][c][0]) != list(b["net"][c][0]):
            return "parents of %s: %s, not %s" % (c, a["net"][c][0], b["net"][c][0])
        if set(a["net"][c][1]) != set(b["net"][c][1]):
            return "configurations of %s: %s, not %s" % (c, sorted(a["net"][c][1]), sorted(b["net"][c][1]))
        for cfg, m in b["net"][c][1].items():
            if a["net"][c][1][cfg] != m:
                return "matrix of %s given %s: %s, not %s" % (c, cfg, a["net"][c][1][cfg], m)
    return None


def deltas(trajs):
    out = []
    for t in trajs:
        for a, b in zip(t, t[1:]):
            out.append([b[0] - a[0]] + list(a[1:]) + list(b[1:]))
    return out


def imported(path):
    imp = N.importer(path)
    imp.import_data(0)
    return imp


def same_import(imp, want):
    """None, or how what was imported differs from the content."""
    nm = [str(x) for x in imp.variables.iloc[:, 0]]
    cs = [int(x) for x in imp.variables.iloc[:, 1]]
    if nm != want["names"] or cs != want["cards"]:
        return "variables %s %s" % (nm, cs)
    st = imp.structure
    edges = sorted((str(a), str(b)) for a, b in st.to_records(index=False)) if st is not None and not st.empty else []
    if edges != want["edges"]:
        return "edges %s" % (edges,)
    got = imp.concatenated_samples.to_numpy().tolist()
    exp = deltas(want["trajs"])
    if len(got) != len(exp):
        return "%d intervals, not %d" % (len(got), len(exp))
    for a, b in zip(got, exp):
        if abs(a[0] - b[0]) > 1e-8 or list(map(int, a[1:])) != list(map(int, b[1:])):
            return "interval %s, not %s" % (a, b)
    return None


def run(case, ctx):
    home = ctx.dir()
    path = home + "/out.json"
    is_net = case["kind"] == "net"
    versions = []               # contents of all saves so far, attempted or not
    with ctx.kernel("build") as k:
        if is_net:
            import pandas as pd
            d = case["net"]
            nm, cs = d["names"], d["cards"]
            fr, net, make = N.build(d, home)
            g = must("building the generator", make)
            seed_streams(7)
            pool = [must("sampling", g.CTBN_Sample, max_tr=n) for n in case["trs"]]
            rows = [N.rows_of(t, nm, "trajectory") for t in pool]
            if case.get("bulk"):
                rows.insert(0, [[i * 0.0625] + [(i >> j) % cs[j] for j in range(len(nm))] for i in range(case["bulk"])])
                pool.insert(0, pd.DataFrame(rows[0], columns=["Time"] + nm))
            from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
            obj = must("JsonExporter", JsonExporter, *fr)
            used = 0

            def twin():
                # the same trajectories the other way round
                o = must("JsonExporter", JsonExporter, *fr)
                for t in pool[:used][::-1]:
                    must("add_trajectory", o.add_trajectory, t)
                return o
        else:
            ds = case["ds"]
            nm = ds["names"]
            sp = must("building the dataset", G.sample_path, ds)
            obj = must("building the estimator", E.make, sp, case["est"])
            edges = E.edges_of(must("estimate_structure", E.estimate, obj, case["est"]))
            # the same data with the names exchanged
            to = dict(zip(nm, nm[1:] + nm[:1]))
            ds2 = dict(ds, names=[to[x] for x in nm], prior=None)
            est2 = dict(case["est"], known=[[to[a], to[b]] for a, b in case["est"]["known"]])
            obj2 = must("building the estimator", E.make, must("building the dataset", G.sample_path, ds2), est2)
            edges2 = E.edges_of(must("estimate_structure", E.estimate, obj2, est2))

            def twin():
                return obj2

    def save(o, name="out.json"):
        if is_net:
            o.out_file(name)
        else:
            o.save_results(home + "/" + name)

    def parse(where, name="out.json"):
        with open(home + "/" + name) as f:
            data = json.load(f)
        if is_net:
            return parse_net(data, where)
        return (sorted(str(n["id"]) for n in data["nodes"]), sorted((str(e["source"]), str(e["target"])) for e in data["links"]))

    def judge(where, saved):
        """The file after an attempt: complete if the save returned; else complete or refused."""
        st, got = attempt(parse, where)
        if saved:
            check(st == "ok", "saved file unreadable", "%s: %s", where, describe(got) if st != "ok" else "")
            dif = same_net(got, versions[-1]) if is_net else (None if got == versions[-1] else "%s, not %s" %
                                                              (got, versions[-1]))
            check(dif is None, "saved file incomplete", "%s: %s", where, dif)
            return "complete"
        return "complete" if st == "ok" else "refused"
    for i, s in enumerate(case["saves"] + [dict(fault=None, add=0, read=None)]):
        where = "save %d %s" % (i, s)
        f = s["fault"]
        threads = f == "threads"
        with ctx.kernel("save%d" % i, **({"preempt_mean": s["mean"]} if threads else {})) as k:
            if is_net:
                for _ in range(s["add"] if i else max(1, s["add"])):
                    if used < len(pool):
                        must("add_trajectory", obj.add_trajectory, pool[used])
                        used += 1
                content = net_content(fr, net, nm, cs, rows[:used])
                content2 = net_content(fr, net, nm, cs, rows[:used][::-1])
                size = 200 + 60 * sum(map(len, rows[:used])) + 40 * sum(len(m) * len(m[0]) ** 2 for _, m in
                                                                        ((0, list(x[1].values())) for x in net.values()))
            else:
                content, content2 = (sorted(nm), sorted(edges)), (sorted(nm), sorted(edges2))
                size = 80 + 14 * len(nm) + 36 * len(edges)
            who = obj
            if s.get("other"):
                who = twin()
                content, content2 = content2, content
                ctx.probe("saves_by_another_object")
            versions.append(content)
            plan = []
            if f in ("enospc", "eio", "short", "crash"):
                plan = [{"n": 0, "kind": f, "at": int(s["at"] * size)}]
            elif f in ("open", "close"):
                plan = [{"n": 0, "kind": f, "errno": s["errno"]}]
            simfs.attach(k, home, plan, case["buf"])
            if threads:
                second = obj if who is not obj else twin()
                ts = [k.spawn(lambda o=o, n=n: save(o, n), k.root, n, preempt=True)
                      for o, n in ((who, "out.json"), (second, "second.json"))]
                k.block(lambda: all(t.done for t in ts), "savers")
                for t in ts:
                    if t.exc is not None:
                        check(not isinstance(t.exc, Exception), "unexpected exception", "%s: %s", where, describe(t.exc))
                        raise t.exc
                st, v, n_faults = "ok", None, 0
                got = must(where + ": second file", parse, where, "second.json")
                dif = same_net(got, content2) if is_net else (None if got == content2 else "%s, not %s" % (got, content2))
                check(dif is None, "saved file incomplete", "%s: second file: %s", where, dif)
                ctx.probe("saves_at_the_same_time")
                ctx.nontrivial = True
            elif f in ("crash", "crash_step"):
                # in a process of its own, which dies
                p = seams.SimProcess(target=save, args=(who,), method="fork")
                if f == "crash_step":
                    k.worker_plan = {0: [(1 + int(s["at"] * (30 + 15 * len(nm))), "crash")]}
                p.start()
                p.join()
                saved = p.exitcode == 0
                st = "ok" if saved else "exc"
                v = None
                n_faults = k.counts.get("io_kill_during_write", 0) + k.counts.get("fault_crash", 0)
            else:
                if f in ("interrupt_step", "memory_step"):
                    k.root.plan = [(k.root.steps + 1 + int(s["at"] * (30 + 15 * len(nm))), f.split("_")[0])]
                st, v = attempt(save, who)
                k.root.plan = []
                n_faults = sum(n for a, n in k.counts.items() if a.startswith(("io_", "fault_")))
            if st == "exc":
                check(n_faults > 0, "unexpected exception", "%s: %s", where, describe(v) if v is not None else "exit code")
                ctx.probe("save_refused_" + str(f))
                ctx.nontrivial = True
            elif n_faults:
                ctx.probe("save_survived_" + str(f))
                ctx.nontrivial = True
            k.fs["plan"] = []
            judge(where, st == "ok")
            # what the package's own importer makes of the file
            if is_net:
                plan = []
                n = os.path.getsize(path) if os.path.exists(path) else 0
                if s["read"]:
                    plan = [{"n": 0, "kind": s["read"], "at": int(s["rat"] * n)}]
                simfs.attach(k, home, plan, case["buf"])
                rst, imp = attempt(imported, path)
                struck = sum(x for a, x in k.counts.items() if a in ("io_eio_read", "io_truncated_read"))
                if rst == "ok":
                    ok = [same_import(imp, w) for w in versions]
                    check(any(x is None for x in ok), "torn file accepted", "%s: read as %s", where, ok[-1])
                    if st == "ok":
                        check(ok[-1] is None, "stale or partial import", "%s: %s", where, ok[-1])
                    ctx.probe("imports_accepted")
                else:
                    check(st != "ok" or struck > 0, "complete file refused", "%s: %s", where, describe(imp))
                    ctx.probe("imports_refused")
                if struck:
                    ctx.nontrivial = True
    ctx.seen(case["saves"], case["buf"], str(versions[-1])[:2000])


def shrink(case):
    s = case["saves"]
    for i in range(len(s)):
        yield dict(case, saves=s[:i] + s[i + 1:])
        if s[i].get("other"):
            yield dict(case, saves=s[:i] + [dict(s[i], other=False)] + s[i + 1:])
        if s[i]["fault"]:
            yield dict(case, saves=s[:i] + [dict(s[i], fault=None)] + s[i + 1:])
        if s[i]["read"]:
            yield dict(case, saves=s[:i] + [dict(s[i], read=None)] + s[i + 1:])
    if case["kind"] == "net":
        for i in range(len(case["trs"])):
            if len(case["trs"]) > 1:
                yield dict(case, trs=case["trs"][:i] + case["trs"][i + 1:])
        for d in N.shrink(case["net"]):
            yield dict(case, net=d)
    else:
        for ds in G.shrink_dataset(case["ds"]):
            yield dict(case, ds=ds)

#!/opt/venv/bin/python
"""Run the simulation check of one property.

  check.py C01 [--tier quick|thorough] [--seed N] [--cases N] [--time S]
  check.py C01 --replay FILE            run one recorded case again (exit 1 if it still fails)
  check.py C01 --selftest N             run N cases in several interpreters and compare the event logs
"""
import argparse
import importlib
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
LANES = int(os.environ.get("CTBN_LANES", "8"))
CASE_LIMIT = 150.0        # real seconds for one case before it counts as hung
sys.path.insert(0, HERE)


def env(hashseed):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLCONFIGDIR=TMP, PYTHONWARNINGS="ignore", TMPDIR=TMP,
             MALLOC_ARENA_MAX="4")
    return e


def hashseed(seed, lane):
    return 0 if lane == 0 else (seed * 7919 + lane * 104729) % 4294967291 + 1


TMP = None


class Lane:
    def __init__(self, prop, args, hs):
        self.hs = hs
        self.err = tempfile.TemporaryFile(dir=TMP)
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "sim", "worker.py"), prop] + args,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env(hs), cwd=TMP)
        self.buf = b""
        self.last = time.time()
        self.begun = None
        self.finished = False
        self.closed = False

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-1500:].decode("utf8", "replace")
        except Exception:
            return ""


class Server:
    """A worker answering one case at a time."""

    def __init__(self, prop, hs):
        self.prop, self.hs, self.l = prop, hs, None

    def run(self, case, limit=CASE_LIMIT):
        if self.l is None:
            self.l = Lane(self.prop, ["serve"], self.hs)
            r = self._read(120)
            if r is None or "ready" not in r:
                self.close()
                return {"error": "worker did not start: %r" % (r,)}
        try:
            self.l.p.stdin.write((json.dumps(case) + "\n").encode())
            self.l.p.stdin.flush()
        except OSError:
            self.close()
            return {"error": "worker died"}
        r = self._read(limit)
        if r is None:
            dead = self.l.p.poll() is not None
            t = self.l.tail()
            self.close()
            if dead:
                return {"error": "worker died: " + t}
            return {"ok": False, "kind": "hang", "msg": "did not finish within %d s of real time" % limit}
        return r

    def _read(self, limit):
        end = time.time() + limit
        while b"\n" not in self.l.buf:
            left = end - time.time()
            if left <= 0:
                return None
            s = selectors.DefaultSelector()
            s.register(self.l.p.stdout, selectors.EVENT_READ)
            if not s.select(left):
                return None
            d = os.read(self.l.p.stdout.fileno(), 1 << 16)
            if not d:
                self.l.p.wait()
                return None
            self.l.buf += d
        line, self.l.buf = self.l.buf.split(b"\n", 1)
        return json.loads(line)

    def close(self):
        if self.l is not None:
            self.l.kill()
            self.l = None


class HarnessFailure(Exception):
    pass


def batch(prop, seed, tier, n, deadline, stop_on_violation=True, lanes=LANES, hs=None):
    """Run cases 0..n-1 over the lanes; returns (results, first violation or None)."""
    sel = selectors.DefaultSelector()
    ls = []
    for i in range(lanes):
        l = Lane(prop, ["batch", str(seed), tier, str(i), str(lanes), str(n), repr(deadline)],
                 hashseed(seed, i) if hs is None else hs(i))
        l.lane = i
        ls.append(l)
        os.set_blocking(l.p.stdout.fileno(), False)
        sel.register(l.p.stdout, selectors.EVENT_READ, l)
    results, bad, troubles = [], [], []
    try:
        while any(not l.closed for l in ls):
            for key, _ in sel.select(1.0):
                l = key.data
                d = os.read(l.p.stdout.fileno(), 1 << 20)
                l.last = time.time()
                if not d:
                    sel.unregister(l.p.stdout)
                    l.closed = True
                    l.p.wait()
                    if not l.finished:
                        troubles.append((l, "died"))
                    continue
                l.buf += d
                *lines, l.buf = l.buf.split(b"\n")
                for line in lines:
                    o = json.loads(line)
                    if "begin" in o:
                        l.begun = o["begin"]
                    elif "fatal" in o:
                        raise HarnessFailure(o["fatal"])
                    elif "finished" in o:
                        l.finished = True
                    elif "idx" in o:
                        o["hashseed"] = l.hs
                        if o.get("error"):
                            raise HarnessFailure("case %s: %s" % (o["idx"], o["error"]))
                        results.append(o)
                        if not o["ok"]:
                            bad.append(o)
            now = time.time()
            for l in ls:
                if not l.closed and now - l.last > CASE_LIMIT:
                    l.kill()
                    sel.unregister(l.p.stdout)
                    l.closed = True
                    troubles.append((l, "hung"))
            if (bad or troubles) and stop_on_violation:
                break
    finally:
        for l in ls:
            l.kill()
    if not bad and troubles:
        l, what = troubles[0]
        if l.begun is None:
            raise HarnessFailure("worker %s before its first case: %s" % (what, l.tail()))
        mod = importlib.import_module("props." + prop.lower())
        sys.path.insert(0, os.path.join(HERE, "sim"))
        from sim.worker import case_for
        c = case_for(mod, seed, tier, l.begun)
        s = Server(prop, l.hs)
        r = s.run(c, CASE_LIMIT)
        s.close()
        if r.get("error"):
            raise HarnessFailure("case %s: %s" % (l.begun, r["error"]))
        if r["ok"]:
            raise HarnessFailure("worker %s at case %s, which passes alone: %s" % (what, l.begun, l.tail()))
        r.update(idx=l.begun, case=c, hashseed=l.hs)
        results.append(r)
        bad.append(r)
    bad.sort(key=lambda o: o["idx"])
    return results, (bad[0] if bad else None)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f).get("known", [])
    except FileNotFoundError:
        return []


def known(prop, r):
    for k in known_findings():
        if k["property"] == prop and re.search(k["match"], "%s: %s" % (r["kind"], r["msg"])):
            return k
    return None


# ------------------------------------------------------------------------------ minimisation
def trace_cuts(case):
    tr = case.get("traces") or {}
    for key in sorted(tr):
        t = tr[key]
        if any(t):
            yield dict(case, traces=dict(tr, **{key: []}))
    for key in sorted(tr):
        t = tr[key]
        n = len(t)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if any(t[i:i + size]):
                    yield dict(case, traces=dict(tr, **{key: t[:i] + [0] * len(t[i:i + size]) + t[i + size:]}))
            if size == 1 or n // size > 32:
                break
            size //= 2


def minimise(prop, mod, first, budget):
    hs = first["hashseed"]
    s = Server(prop, hs)
    end = time.time() + budget
    best, case, tried = first, first["case"], 0

    def same(r):
        return not r.get("error") and not r.get("ok", True) and r["kind"] == first["kind"]
    try:
        if first.get("traces"):
            c = dict(case, traces=first["traces"])
            r = s.run(c)
            if same(r):
                case, best = c, r
        progress = True
        while progress and time.time() < end:
            progress = False
            for gen in (mod.shrink(case), trace_cuts(case)):
                for c in gen:
                    if time.time() > end:
                        break
                    c = json.loads(json.dumps(c))
                    if c == case:
                        continue
                    tried += 1
                    r = s.run(c, 30)
                    if same(r):
                        case, best, progress = c, r, True
                        break
                if progress:
                    break
        for key, t in list((case.get("traces") or {}).items()):
            while t and t[-1] == 0:
                t.pop()
    finally:
        s.close()
    return case, best, tried


def replay_once(prop, case, hs, limit=CASE_LIMIT):
    s = Server(prop, hs)
    r = s.run(case, limit)
    s.close()
    return r


def report(prop, mod, bad, tier, seed, quiet_s=60):
    case, best, tried = minimise(prop, mod, bad, quiet_s)
    hs = bad["hashseed"]
    r = replay_once(prop, case, hs)
    how = "minimised"
    if r.get("error") or r.get("ok", True) or r["kind"] != bad["kind"]:
        case, how = bad["case"], "as found"
        for _ in range(3):
            r = replay_once(prop, case, hs)
            if not r.get("error") and not r.get("ok", True):
                break
    ok = not r.get("error") and not r.get("ok", True)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-case%s.json" % (prop, seed, bad["idx"]))
    rec = {"property": prop, "seed": seed, "case_index": bad["idx"], "tier": tier, "hashseed": hs,
           "violation": {"kind": (r if ok else bad)["kind"], "message": (r if ok else bad)["msg"]},
           "first_seen": {"kind": bad["kind"], "message": bad["msg"]},
           "form": how, "shrink_attempts": tried, "reproduced_in_fresh_process": ok,
           "digest": r.get("digest"), "event_log_tail": r.get("log"), "case": case,
           "replay": "check.py %s --replay %s" % (prop, path)}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, rec


# ------------------------------------------------------------------------------ evidence
def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def evidence(prop, mod, tier, seed, results, wall, violations, note=None):
    counts, probes, steps, switches, simt, kernels = {}, {}, 0, 0, 0.0, 0
    fps, scheds, skipped = set(), set(), 0
    for r in results:
        add(counts, r.get("counts", {}))
        add(probes, r.get("probes", {}))
        steps += r.get("steps", 0)
        switches += r.get("switches", 0)
        simt += r.get("sim_time", 0)
        kernels += r.get("kernels", 0)
        scheds.update(s for s in r.get("scheds", []))
        if r.get("skip"):
            skipped += 1
        elif r.get("nontrivial"):
            fps.add(r["fp"])
    samples = []
    for r in results:
        if r.get("case") is not None and len(samples) < 2:
            s = json.dumps(r["case"])
            samples.append({"case_index": r["idx"], "hashseed": r["hashseed"], "case": s if len(s) < 6000 else s[:6000] + "...",
                            "event_log_digest": r["digest"]})
    faults = {k: v for k, v in sorted(counts.items()) if k.startswith(("fault_", "io_", "process_death", "start_failure",
                                                                       "broken_pool", "preemption", "deadlock"))}
    hours = max(wall, 1e-6) / 3600.0
    cov = {
        "evaluations": len(results), "distinct_nontrivial": len(fps), "rule": mod.RULE, "samples": samples or [
            "no case completed"],
        "skipped_undecidable": skipped, "simulated_runs": kernels, "runs_per_hour": int(kernels / hours),
        "seeds_per_hour": int(len(results) / hours),
        "simulated_steps": steps, "simulated_time": {"package_lines_executed": steps, "clock_seconds": round(simt, 3)},
        "task_switches": switches, "faults_injected": faults,
        "events": {k: v for k, v in sorted(counts.items()) if k not in faults},
        "distinct_interleavings": len(scheds), "interleaving_measure":
            "distinct hashes of the sequence of task switches of a simulated run",
        "probes": dict(sorted(probes.items())),
        "real_components": mod.REAL, "stubbed_components": mod.STUB,
    }
    if note:
        cov["note"] = note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def selftest(prop, n, seed, tier):
    """Same cases, same and other hash seeds, other lane counts: the event logs must agree."""
    dl = time.time() + 3000
    a, _ = batch(prop, seed, tier, n, dl, False)
    b, _ = batch(prop, seed, tier, n, dl, False, lanes=3, hs=lambda i: 0)
    c, _ = batch(prop, seed, tier, n, dl, False, lanes=5, hs=lambda i: 4242 + i)
    d, _ = batch(prop, seed, tier, n, dl, False)
    m = [{r["idx"]: r["digest"] for r in x} for x in (a, b, c, d)]
    same = sum(m[0][i] == m[3].get(i) for i in m[0])
    other = sum(m[0][i] == m[1].get(i) == m[2].get(i) for i in m[0])
    print("%s: %d cases; identical logs on rerun: %d; under other hash seeds and lane counts: %d" %
          (prop, len(m[0]), same, other))
    return 0 if same == len(m[0]) else 2


def main():
    global TMP
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.prop.upper()
    TMP = tempfile.mkdtemp(prefix="ctbn-check-")
    t0 = time.time()
    try:
        mod = importlib.import_module("props." + prop.lower())
        if a.replay:
            with open(a.replay) as f:
                rec = json.load(f)
            r = replay_once(prop, rec["case"], rec["hashseed"])
            if r.get("error"):
                print("ERROR", r["error"])
                return 2
            if r["ok"]:
                print("the case no longer fails")
                return 0
            print("%s: %s" % (r["kind"], r["msg"]))
            print("event log %s (recorded %s)" % (r["digest"], rec.get("digest")))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        if a.selftest:
            return selftest(prop, a.selftest, a.seed, a.tier)
        n = a.cases or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
        cap = a.time or (240 if a.tier == "quick" else 2400)
        results, bad = batch(prop, a.seed, a.tier, n, t0 + cap, not a.keep_going and not known_findings())
        seen_known = set()
        for r in sorted((r for r in results if not r["ok"]), key=lambda r: r["idx"]):
            k = known(prop, r)
            if k:
                seen_known.add(k["what"])
        for w in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
        fresh = [r for r in results if not r["ok"] and not known(prop, r)]
        fresh.sort(key=lambda r: r["idx"])
        evidence(prop, mod, a.tier, a.seed, results, time.time() - t0, len(fresh))
        if a.keep_going:
            for r in fresh:
                print(r["idx"], r["kind"], r["msg"][:300])
        if fresh:
            path, rec = report(prop, mod, fresh[0], a.tier, a.seed)
            print("%s: %s" % (rec["violation"]["kind"], rec["violation"]["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: held on %d simulated cases (%.0f s)" % (prop, len(results), time.time() - t0))
        if not results:
            print("ERROR no case completed")
            return 2
        return 0
    except HarnessFailure as e:
        print("ERROR %s" % e)
        return 2
    finally:
        shutil.rmtree(TMP, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

"""What a property needs to run one case."""
import contextlib
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import traceback

from . import kernel as K
from . import seams
from .kernel import HarnessError, SimDeadlock, SimKill, SimStuck


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """The case cannot be judged (e.g. a statistic on its threshold); counted, never a pass by itself."""


class Ctx:
    def __init__(self, case, scratch):
        self.case = case
        self.scratch = scratch
        self.traces = {}
        self.steps = 0
        self.switches = 0
        self.counts = {}
        self.probes = {}
        self.digest = hashlib.sha256()
        self.scheds = []
        self.sim_time = 0.0
        self.nontrivial = False
        self.fp = hashlib.sha256()
        self.kernels = 0
        self.log_tail = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    @contextlib.contextmanager
    def kernel(self, key, fresh=False, **kw):
        """A simulation whose decisions come from the case's recorded trace for key, else from its seed.

        The simulations of a case go on in one interpreter, so what the package keeps in its globals stays from one to
        the next; a fresh one is in an interpreter of its own, and the case's is as before afterwards.
        """
        tr = (self.case.get("traces") or {}).get(key)
        sub = "%s/%s" % (self.case.get("seed", 0), key)
        ch = K.Chooser(sub, tr)
        kw.setdefault("entropy", sub)
        before = seams.reset_state() if fresh or not self.kernels or K.STATE.simulated() else None
        k = K.Kernel(sub, chooser=ch, **kw)
        if before is not None:
            ids, K.IDS = K.IDS, K.Ids(order=k.addresses.random())
            k.root.ids = K.IDS
        self.kernels += 1
        try:
            with k:
                yield k
        finally:
            if fresh and self.kernels > 1:
                K.STATE.restore(before)
                K.IDS = ids
            self.traces[key] = ch.trace
            self.steps += k.steps
            self.switches += k.switches
            self.sim_time += max(0.0, k.clock - kw.get("clock", 1.6e9))
            for a, b in k.counts.items():
                self.counts[a] = self.counts.get(a, 0) + b
            self.digest.update(k.digest.digest())
            self.scheds.append(k.sched_digest.hexdigest()[:16])
            self.log_tail = k.log_tail[-25:]

    def seen(self, *what):
        self.fp.update(repr(what).encode())
        self.digest.update(repr(what).encode())

    def dir(self):
        d = os.path.join(self.scratch, "case")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        return os.path.realpath(d)


def attempt(fn, *a, **k):
    """('ok', value) or ('exc', exception); hangs of the code under test are violations."""
    try:
        return "ok", fn(*a, **k)
    except (HarnessError, SimKill, Violation, Skip):
        raise
    except SimDeadlock as e:
        raise Violation("hang", "waits for ever: %s" % e)
    except SimStuck as e:
        raise Violation("hang", "does not finish: %s" % e)
    except (Exception, KeyboardInterrupt) as e:
        return "exc", e


def must(what, fn, *a, **k):
    """The value; an exception is a violation."""
    st, v = attempt(fn, *a, **k)
    if st == "exc":
        raise Violation("unexpected exception", "%s raised %s" % (what, describe(v)))
    return v


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if "/PyCTBN/" in f.filename]
    at = ""
    if where:
        f = where[-1]
        at = " in %s (%s)" % (f.name, os.path.basename(f.filename))
    return "%s: %s%s" % (type(e).__name__, str(e)[:300], at)


def seed_streams(n):
    import numpy as np
    random.seed(n)
    np.random.seed(n % (2 ** 32))


def check(cond, kind, msg, *a):
    if not cond:
        raise Violation(kind, msg % a if a else msg)


def run_case(prop, case, scratch):
    """Execute one case; a JSON-able result."""
    ctx = Ctx(case, scratch)
    out = {"ok": True}
    threads = threading.active_count()
    seed_streams(12345)
    try:
        prop.run(case, ctx)
    except Violation as v:
        out = {"ok": False, "kind": v.kind, "msg": v.msg}
    except Skip as s:
        out = {"ok": True, "skip": str(s)}
    except (HarnessError, SimKill) as e:
        out = {"ok": True, "error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
    except (SimDeadlock, SimStuck) as e:
        out = {"ok": False, "kind": "hang", "msg": str(e)}
    except BaseException as e:      # interpreting the results failed: judge it as wrong results
        harness = all("/PyCTBN/" not in f.filename for f in traceback.extract_tb(e.__traceback__))
        out = {"ok": False, "kind": "unexpected exception",
               "msg": describe(e) + ("" if not harness else " while checking the result: " +
                                     traceback.format_exc()[-600:])}
    if threading.active_count() > threads + 2:
        out["error"] = "threads left behind"
    out.update(steps=ctx.steps, switches=ctx.switches, counts=ctx.counts, probes=ctx.probes,
               digest=ctx.digest.hexdigest()[:24], fp=ctx.fp.hexdigest()[:16], scheds=ctx.scheds,
               nontrivial=ctx.nontrivial, kernels=ctx.kernels, sim_time=ctx.sim_time)
    if not out["ok"]:
        out["traces"] = ctx.traces
        out["log"] = ctx.log_tail
    return out

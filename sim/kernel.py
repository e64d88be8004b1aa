"""The simulator: virtual tasks and processes, one seeded scheduler, faults at counted steps.

Exactly one virtual task runs at any time.  A task is a real thread parked on its own semaphore; who is
released next is decided by the Chooser only.  A virtual process owns its random streams and its own copy
of PyCTBN's mutable module state; the kernel swaps these when it switches between processes.
"""
import copy
import dis
import hashlib
import pickle
import random
import sys
import threading
import types
import zlib

PKG = "PyCTBN"


class HarnessError(BaseException):
    """The harness cannot judge this (exit 2); never a verdict on the code."""


class SimKill(BaseException):
    """Unwinds the thread of a dead or abandoned task."""


class SimDeadlock(BaseException):
    """Every task waits for something that can never happen."""


class SimStuck(BaseException):
    """More steps than any terminating run of this size needs."""


class Chooser:
    """Every scheduling decision, recorded; 0 is always the plain choice (keep running, no fault)."""

    def __init__(self, seed=None, trace=None):
        self.rng = random.Random()
        random.Random.seed  # (seams may wrap seed(None); an explicit seed is always ours)
        self.rng.seed(repr(("chooser", seed)))
        self.replay = list(trace) if trace is not None else None
        self.pos = 0
        self.trace = []
        self.sticky = self.rng.choice([0.0, 0.3, 0.7, 0.9]) if trace is None else 0.0

    def _next(self, fresh):
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
        else:
            v = fresh()
        return v

    def pick(self, n, sticky=False):
        if n <= 1:
            return 0
        if sticky:
            v = self._next(lambda: 0 if self.rng.random() < self.sticky else self.rng.randrange(n))
        else:
            v = self._next(lambda: self.rng.randrange(n))
        v = min(int(v), n - 1)
        self.trace.append(v)
        return v

    def gap(self, mean):
        """Steps until the next preemption: 0 = never."""
        v = self._next(lambda: 1 + int(self.rng.expovariate(1.0 / mean)))
        self.trace.append(v)
        return v


_PLAIN = (list, dict, set, bytearray, int, float, complex, str, bytes, tuple, frozenset, type(None))


_CODE = (types.ModuleType, types.FunctionType, type, types.BuiltinFunctionType, property, staticmethod, classmethod)


def _stateful(v):
    """Whether a global, attribute or closed-over value belongs to the state of a process."""
    if isinstance(v, _PLAIN):
        return True
    m = type(v).__module__ or ""
    if m == "random":
        return v is not random._inst
    return m.startswith(PKG) or m in ("collections", "itertools", "weakref", "numpy.random.mtrand", "numpy.random._generator",
                                      "numpy.random.bit_generator", "numpy.random._mt19937", "numpy.random._pcg64",
                                      "pandas.core.frame", "pandas.core.series", "networkx.classes.digraph",
                                      "networkx.classes.graph", "queue") or type(v).__name__ == "ndarray"


def _ours(f):
    return isinstance(f, types.FunctionType) and ((f.__module__ or "").startswith(PKG)
                                                  or f.__globals__.get("__name__", "").startswith(PKG))


_GONE = object()


class StateMap:
    """PyCTBN's process-global state: module globals, class attributes, function attributes, argument defaults and
    variables closed over (caches of functools included, see seams)."""

    def __init__(self):
        self.boxes = []         # modules and classes
        self.funcs = []
        self.cells = []
        self.names = {}         # box index -> names looked at while nothing is added to it

    def scan(self):
        self.boxes, self.funcs, self.cells, self.names = [], [], [], {}
        seen = set()

        def do_func(f, depth=0):
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                for x in (f.fget, f.fset, f.fdel):
                    do_func(x, depth)
                return
            if not _ours(f) or id(f) in seen or depth > 6:
                return
            seen.add(id(f))
            self.funcs.append(f)
            do_func(getattr(f, "__wrapped__", None), depth + 1)
            for c in f.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if id(c) not in seen and _stateful(v):
                    seen.add(id(c))
                    self.cells.append(c)
                do_func(v, depth + 1)

        for name, mod in sorted(sys.modules.items()):
            if mod is None or not (name == PKG or name.startswith(PKG + ".")):
                continue
            self.boxes.append(mod)
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, type) and (v.__module__ or "").startswith(PKG):
                    if id(v) not in seen:
                        seen.add(id(v))
                        self.boxes.append(v)
                        for _, cv in sorted(vars(v).items()):
                            do_func(cv)
                else:
                    do_func(v)
        for i, b in enumerate(self.boxes):
            self.names[i] = (len(vars(b)), self._names(b), frozenset(vars(b)))

    @staticmethod
    def _names(box):
        out = []
        for k, v in list(vars(box).items()):
            if k.startswith("__") or k.startswith("_abc") or isinstance(v, _CODE):
                continue
            if not (isinstance(box, type) and hasattr(v, "__get__")):
                out.append(k)
        return out

    def _new(self, i, box):
        """Names that were added to a module or class since the scan."""
        n, _, known = self.names[i]
        d = vars(box)
        if len(d) == n:
            return []
        return [k for k in list(d) if k not in known and not k.startswith("__") and not k.startswith("_abc")]

    def capture(self):
        """[{name: value} per box], [(defaults, keyword defaults, attributes) per function], [closed-over values]"""
        boxes = []
        for i, b in enumerate(self.boxes):
            d = vars(b)
            boxes.append({k: d[k] for k in self.names[i][1] + self._new(i, b) if k in d})
        funcs = [(f.__defaults__, f.__kwdefaults__, {k: v for k, v in f.__dict__.items() if k != "__wrapped__"})
                 for f in self.funcs]
        cells = []
        for c in self.cells:
            try:
                cells.append(c.cell_contents)
            except ValueError:
                cells.append(_GONE)
        return boxes, funcs, cells

    def restore(self, state):
        boxes, funcs, cells = state
        for i, (b, want) in enumerate(zip(self.boxes, boxes)):
            d = vars(b)
            for k, v in want.items():
                if d.get(k, _GONE) is not v:
                    setattr(b, k, v)
            for k in self._new(i, b):
                if k not in want:
                    delattr(b, k)
        for f, (pos, kw, at) in zip(self.funcs, funcs):
            if f.__defaults__ is not pos:
                f.__defaults__ = pos
            if f.__kwdefaults__ is not kw:
                f.__kwdefaults__ = kw
            for k in [k for k in f.__dict__ if k != "__wrapped__" and k not in at]:
                del f.__dict__[k]
            for k, v in at.items():
                f.__dict__[k] = v
        for c, v in zip(self.cells, cells):
            if v is not _GONE:
                c.cell_contents = v


    def simulated(self):
        """Whether a global holds an object that ends with its simulation (an executor, a process, a thread)."""
        def sim(v):
            return getattr(type(v), "_ends_with_kernel", False)
        boxes, funcs, cells = self.capture()
        for d in boxes + [f[2] for f in funcs] + [dict(enumerate(cells))]:
            for v in d.values():
                if sim(v):
                    return True
                if type(v) in (list, tuple, set) and len(v) < 1000 and any(sim(x) for x in v):
                    return True
                if isinstance(v, dict) and len(v) < 1000 and any(sim(x) for x in v.values()):
                    return True
        return False


class Ids:
    """What id() answers in a process: a number that another object of the type gets as soon as the first is gone."""

    def __init__(self, slots=(), order=None):
        self.slots = list(slots)        # objects; the number follows from the position
        # in which order memory is given out
        r = random.Random(repr(("addresses", order)))
        self.order = (2 * r.randrange(2 ** 19) + 1, r.randrange(2 ** 20)) if not isinstance(order, tuple) else order

    def of(self, obj):
        slots = self.slots
        free = None
        for i in range(len(slots) - 1, -1, -1):
            o = slots[i]
            if o is obj:
                return self._at(i)
            # gone when nothing but the slot, o and the argument refers to it
            if free is None and type(o) is type(obj) and sys.getrefcount(o) <= 3:
                free = i
        o = None
        if free is None:
            free = len(slots)
            slots.append(obj)
        else:
            slots[free] = obj
        return self._at(free)

    def _at(self, i):
        a, b = self.order
        return _ID0 + 16 * ((a * i + b) % 2 ** 20)

    def forked(self, memo):
        return Ids((memo.get(id(o), o) for o in self.slots), self.order)


CHILD = None        # the process whose image is being made
FORKING = 0         # whether copies are being made of a process's memory
_ID0 = 0x7F0000000000
IDS = Ids()


def copied(state, payload=None, memo=None):
    """A deep copy of a captured state (and what refers into it); what cannot be copied is shared."""
    global FORKING
    memo = {} if memo is None else memo

    def one(v):
        if not _stateful(v) and not getattr(type(v), "_copied_by_fork", False):
            return v
        try:
            return copy.deepcopy(v, memo)
        except TypeError:
            return v
    boxes, funcs, cells = state
    FORKING += 1
    try:
        return (([{k: one(v) for k, v in d.items()} for d in boxes],
                 [(one(a), one(b), {k: one(v) for k, v in c.items()}) for a, b, c in funcs],
                 [one(c) for c in cells]), copy.deepcopy(payload, memo))
    finally:
        FORKING -= 1


STATE = StateMap()


class VProc:
    def __init__(self, kernel, name, parent=None):
        kernel.next_pid += 1
        self.pid = kernel.next_pid
        self.name = name
        self.parent = parent
        self.alive = True
        self.exitcode = None
        self.steps = 0
        self.saved = None
        self.ids = Ids(order=kernel.addresses.random())
        self.late = False         # killed when its work is done, before it can say so
        self.plan = []            # [(step, kind)] faults of this process, by its own step counter
        self.tasks = []


class Task:
    def __init__(self, kernel, proc, name):
        self.kernel = kernel
        self.proc = proc
        self.name = name
        self.sem = threading.Semaphore(0)
        self.cond = None           # blocked until cond() is true
        self.deadline = None
        self.done = False
        self.killed = False
        self.exc = None
        self.wake_exc = None
        self.preempt = False
        self.thread = None
        self.tid = len(kernel.tasks)


CURRENT = None        # the running Kernel, or None


class Kernel:
    def __init__(self, case_seed=0, chooser=None, cpus=4, entropy=1, clock=1.6e9, start_method="fork",
                 step_limit=10_000_000, preempt_mean=0, tick=None):
        self.ch = chooser or Chooser(case_seed)
        self.cpus = cpus
        self.entropy_rng = random.Random()
        self.entropy_rng.seed(repr(("entropy", entropy)))
        self.addresses = random.Random(repr(("addresses", entropy)))
        self.clock = float(clock)
        # how far the clock moves between two readings: a fast machine, a slow one, one that was suspended
        self.clock_rng = random.Random()
        self.clock_rng.seed(repr(("clock", case_seed)))
        self.tick = self.clock_rng.choice([1e-6] * 5 + [1e-3, 1.0, 60.0]) if tick is None else tick
        self.skew = 0.0             # of the wall clock, which may be set back and forth
        self.start_method = start_method
        self.next_pid = 1000 + random.Random(repr(("pid", entropy))).randrange(30000)
        self.tasks = []
        self.procs = []
        self.steps = 0
        self.step_limit = step_limit
        self.limit_at = step_limit
        self.switches = 0
        self.digest = hashlib.sha256()
        self.sched_digest = hashlib.sha256()
        self.log_tail = []
        self.counts = {}
        self.preempt_mean = preempt_mean
        self.preempt_at = None
        # in half of the runs threads also give way wherever they reach one of a few lines
        h = random.Random(repr(("hot lines", case_seed)))
        self.hot = (h.randrange(2 ** 32), h.choice([6, 20, 60])) if h.random() < 0.5 else None
        self.hot_lines = {}
        self.hot_left = 500
        self.submit_fail = {}       # nth submission to a pool -> exception kind
        self.submits = 0
        self.start_fail = []        # indexes of process starts that fail
        self.worker_plan = {}       # nth started process -> [(step, kind)]
        self.starts = 0
        self.max_alive = 0
        self.task_log = []          # (pool id, what) executed
        self.executors = []
        self.children = []
        self.mpqueues, self.channels, self.handles, self.sent = [], [], 0, []
        # what the system buffers in a pipe: a page when the user has many
        self.pipe_size = random.Random(repr(("pipes", case_seed))).choice([65536, 4096])
        self.dead = False
        self.stuck = False
        self.root = VProc(self, "main")
        self.root.ids = IDS
        self.procs.append(self.root)
        self.main = Task(self, self.root, "main")
        self.main.thread = threading.current_thread()
        self.tasks.append(self.main)
        self.cur = self.main

    # ---------------------------------------------------------------- bookkeeping
    def log(self, *what):
        s = repr(what)
        self.digest.update(s.encode())
        self.log_tail.append(s)
        if len(self.log_tail) > 60:
            del self.log_tail[:20]

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def __enter__(self):
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested kernel")
        CURRENT = self
        return self

    def __exit__(self, *exc):
        global CURRENT
        self.dead = True
        # unwind every thread still parked
        for t in self.tasks[1:]:
            if not t.done:
                t.killed = True
                self._leave()
                t.sem.release()
                t.thread.join(20)
                if t.thread.is_alive():
                    CURRENT = None
                    raise HarnessError("cannot unwind task " + t.name)
        CURRENT = None
        return False

    def _leave(self):
        pass

    # ---------------------------------------------------------------- tasks
    def spawn(self, fn, proc, name, preempt=False):
        t = Task(self, proc, name)
        t.preempt = preempt
        self.tasks.append(t)
        proc.tasks.append(t)

        def body():
            t.sem.acquire()
            try:
                if not t.killed:
                    fn()
            except SimKill:
                pass
            except BaseException as e:      # noqa
                t.exc = e
            finally:
                t.done = True
                if not self.dead:
                    self._finish(t)
        t.thread = threading.Thread(target=body, daemon=True, name="sim-" + name)
        try:
            t.thread.start()
        except RuntimeError as e:
            t.done = True
            raise HarnessError("no thread for a task: %s" % e)
        self.log("spawn", name, proc.pid)
        return t

    def _finish(self, t):
        """The current task ended: hand the baton on (its thread then exits)."""
        self.log("end", t.name)
        nxt = self._choose(exclude=t)
        self._transfer(nxt)

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done or not t.proc.alive:
                continue
            if t.cond is not None and not t.cond():
                continue
            out.append(t)
        return out

    def _choose(self, exclude=None, sticky=True):
        while True:
            r = [t for t in self._runnable() if t is not exclude]
            if r:
                break
            waiting = [t for t in self.tasks if not t.done and t.proc.alive and t.deadline is not None
                       and t is not exclude]
            if waiting:
                t = min(waiting, key=lambda x: (x.deadline, x.tid))
                self.clock = max(self.clock, t.deadline)
                t.cond = None
                r = [t]
                break
            # nothing can ever run again
            self.count("deadlock")
            self.stuck = True
            self.main.wake_exc = SimDeadlock("no task can run: " + "; ".join(
                "%s waits" % t.name for t in self.tasks if not t.done and t.proc.alive))
            self.main.cond = None
            r = [self.main]
            break
        if self.cur in r:
            r.remove(self.cur)
            r.insert(0, self.cur)
        i = self.ch.pick(len(r), sticky=sticky and r[0] is self.cur)
        return r[i]

    def _transfer(self, nxt):
        me = self.cur
        if nxt is me:
            return
        self.switches += 1
        if nxt.proc is not me.proc:
            self._save_state(me.proc)
            self._load_state(nxt.proc)
        self.cur = nxt
        self.sched_digest.update(b"%d," % nxt.tid)
        nxt.sem.release()

    def _pause(self, me):
        me.sem.acquire()
        self._woken(me)

    def _woken(self, me):
        if me.killed or self.dead and me is not self.main:
            raise SimKill()
        if me.wake_exc is not None:
            e, me.wake_exc = me.wake_exc, None
            raise e

    def yield_(self, label="", sticky=True):
        """A scheduling point: another task may run now."""
        if self.dead:
            raise SimKill()
        me = self.cur
        self.log("y", me.name, label)
        nxt = self._choose(sticky=sticky)
        if nxt is not me:
            self._transfer(nxt)
            self._pause(me)

    def block(self, cond, label="", timeout=None):
        """Wait until cond(); returns False on (simulated) timeout."""
        if self.dead:
            raise SimKill()
        me = self.cur
        self.log("b", me.name, label)
        if timeout is not None:
            deadline = self.clock + max(0.0, timeout)
            if not cond() and self.ch.pick(5) == 4:
                # everybody else is stalled for as long as the caller is willing to wait
                self.count("stall")
                self.clock = deadline
                self.log("stalled", me.name)
                return bool(cond())
        while not cond():
            me.cond = cond
            me.deadline = deadline if timeout is not None else None
            try:
                nxt = self._choose(sticky=False)
                if nxt is not me:
                    self._transfer(nxt)
                    self._pause(me)
                elif me.wake_exc is not None:
                    self._woken(me)
            finally:
                me.cond = None
                me.deadline = None
            if timeout is not None and self.clock >= deadline and not cond():
                return False
        return True

    def sleep(self, seconds):
        self.count("sleep")
        end = self.clock + max(0.0, float(seconds))
        self.block(lambda: self.clock >= end, "sleep", timeout=seconds)
        self.clock = max(self.clock, end)

    # ---------------------------------------------------------------- processes
    def _save_state(self, p):
        import numpy as np
        p.saved = (random.getstate(), np.random.get_state(), STATE.capture())

    def _load_state(self, p):
        import numpy as np
        if p.saved is not None:
            random.setstate(p.saved[0])
            np.random.set_state(p.saved[1])
            STATE.restore(p.saved[2])

    def entropy_bytes(self, n):
        self.count("entropy_reads")
        return bytes(self.entropy_rng.getrandbits(8) for _ in range(n))

    def new_process(self, name, method=None, payload=None):
        """A child process image: its own random streams and PyCTBN globals; payload is copied with them."""
        import numpy as np
        i = self.starts
        self.starts += 1
        if i in self.start_fail:
            self.count("start_failure")
            self.log("startfail", i)
            raise OSError(11, "Resource temporarily unavailable (simulated)")
        global CHILD
        method = method or self.start_method
        p = CHILD = VProc(self, "%s-%d" % (name, i), self.cur.proc)
        try:
            if method == "fork":
                # a copy of the parent's state; shared references must stay shared only inside the child
                for ch in self.channels:
                    ch.forked(self.cur.proc, p)
                memo = {}
                state, payload = copied(STATE.capture(), payload, memo)
                p.ids = self.cur.proc.ids.forked(memo)
                p.saved = (random.getstate(), np.random.get_state(), state)
            else:
                r = random.Random()
                r.seed(self.entropy_bytes(32))
                p.saved = (r.getstate(),
                           np.random.RandomState(list(self.entropy_bytes(32))).get_state(),
                           copied(PRISTINE or STATE.capture())[0])
                payload = pickle.loads(pickle.dumps(payload))
        finally:
            CHILD = None
        p.plan = sorted(self.worker_plan.get(i, self.worker_plan.get(str(i), [])))
        self.procs.append(p)
        self.count("process_starts")
        self.log("start", p.name, method)
        alive = sum(1 for q in self.procs if q.alive and q is not self.root)
        self.max_alive = max(self.max_alive, alive)
        p.payload = payload
        return p

    def exit_process(self, p, code):
        p.alive = False
        p.exitcode = code
        self.log("exit", p.name, code)

    def kill_process(self, p, code=-9):
        """SIGKILL: no cleanup code of the process ever runs."""
        if not p.alive:
            return
        self.count("process_death")
        self.exit_process(p, code)
        for t in p.tasks:
            if t is not self.cur:
                t.cond = lambda: False
        if self.cur.proc is p:
            me = self.cur
            nxt = self._choose(exclude=me)
            self._transfer(nxt)
            me.sem.acquire()          # parked for good; unwound when the kernel ends
            raise SimKill()

    # ---------------------------------------------------------------- steps (LINE events of PyCTBN code)
    def on_line(self, code, line):
        self.steps += 1
        p = self.cur.proc
        p.steps += 1
        if self.steps > self.limit_at:
            self.limit_at = self.steps + 200000
            self.stuck = True
            raise SimStuck("more than %d steps" % self.step_limit)
        if p.plan and p.steps >= p.plan[0][0]:
            kind = p.plan[0][1]
            if kind == "crash" or not _between(sys._getframe(2)):
                del p.plan[0]
                self.fault(p, kind)
        if self.preempt_mean and self.cur.preempt:
            if self.hot and self.hot_left:
                at = (code, line)
                if at not in self.hot_lines:
                    what = "%s %d %d" % (code.co_qualname, line - code.co_firstlineno, self.hot[0])
                    self.hot_lines[at] = zlib.crc32(what.encode()) % self.hot[1] == 0
                if self.hot_lines[at]:
                    self.hot_left -= 1
                    self.count("preemption")
                    self.yield_("hot line", sticky=False)
            if self.preempt_at is None:
                g = self.ch.gap(self.preempt_mean)
                self.preempt_at = self.steps + g if g else -1
            if self.preempt_at >= 0 and self.steps >= self.preempt_at:
                self.preempt_at = None
                self.count("preemption")
                self.yield_("line")

    def fault(self, p, kind):
        self.count("fault_" + kind)
        self.log("fault", p.name, kind)
        if kind == "crash":
            self.kill_process(p)
        elif kind == "interrupt":
            raise KeyboardInterrupt("simulated")
        elif kind == "memory":
            raise MemoryError("simulated")
        elif kind == "late":        # falls due when the process has nothing left to do but to exit
            p.late = True
        else:
            raise HarnessError("unknown fault " + kind)


PRISTINE = None


# ------------------------------------------------------------------------------ step events
TOOL = 4
_known = set()


def _watch(code, seen):
    if code in seen:
        return
    seen.add(code)
    sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _watch(c, seen)


_edges = {}


def _between(frame):
    """Whether a frame is where CPython never notices a signal: between the end of a with or try block and its cleanup."""
    code = frame.f_code
    if code not in _edges:
        at = set()
        for e in dis._parse_exception_table(code):
            at.add(e.end)
            at.add(e.target)
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            # the first instruction of a line from which only unnoticeable ones lead to the edge, or follow it
            if x.offset in at and not (x.starts_line or x.offset in code_lines(code)):
                j = i
                while j + 1 < len(ins) and j < i + 3 and ins[j].offset not in code_lines(code):
                    j += 1
                at.add(ins[j].offset)
            none = [y for y in ins[i:i + 6] if y.opname == "LOAD_CONST" and y.argval is None]
            if len(none) >= 3 and x.offset in code_lines(code) and any(y.opname == "CALL" and y.arg == 2 for y in ins[i:i + 7]):
                at.add(x.offset)
        _edges[code] = at
    return frame.f_lasti in _edges[code]


def code_lines(code):
    if code not in _starts:
        _starts[code] = {a for a, _, _ in code.co_lines()}
    return _starts[code]


_starts = {}


def _line(code, line):
    k = CURRENT
    if k is not None and not k.dead:
        k.on_line(code, line)


def install_monitor():
    """LINE events for every code object of the package (found through its modules)."""
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "ctbn-sim")
        m.register_callback(TOOL, m.events.LINE, _line)
    files = set()
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == PKG or name.startswith(PKG + ".")):
            continue
        for v in list(vars(mod).values()):
            _visit(v)
    return len(_known)


def _visit(v, depth=0):
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                _visit(f, depth)
        return
    w = getattr(v, "__wrapped__", None)
    if w is not None and depth < 6:
        _visit(w, depth + 1)
    if isinstance(v, types.FunctionType):
        if v.__globals__.get("__name__", "").startswith(PKG):
            _watch(v.__code__, _known)
            for c in v.__closure__ or ():
                try:
                    if depth < 6:
                        _visit(c.cell_contents, depth + 1)
                except ValueError:
                    pass
    elif isinstance(v, type) and (v.__module__ or "").startswith(PKG) and v not in _known:
        _known.add(v)
        for x in list(vars(v).values()):
            _visit(x, depth + 1)

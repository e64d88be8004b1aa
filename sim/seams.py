"""Simulated stand-ins for what PyCTBN reaches the outside world through.

A hook on __import__ hands them to modules of the package only (numpy, pandas, ... keep the real ones);
entropy is patched for everybody, because random and numpy.random draw it on the package's behalf.
"""
import builtins
import collections
import concurrent.futures as _cf
import concurrent.futures.process as _cfp
import copy
import functools
import itertools
import multiprocessing as _mp
import os as _os
import pickle
import queue as _queue
import random as _random
import secrets as _secrets
import sys
import threading as _threading
import time as _time
import types

from . import kernel as K
from .kernel import HarnessError, SimKill


def cur():
    k = K.CURRENT
    if k is None:
        raise HarnessError("simulated primitive used outside a simulation")
    return k


# ------------------------------------------------------------------------------ futures and executors
class SimFuture(_cf.Future):
    _ends_with_kernel = True

    def _finished(self):
        return self._state in (_cf._base.CANCELLED, _cf._base.CANCELLED_AND_NOTIFIED, _cf._base.FINISHED)

    def _wait_sim(self, timeout):
        k = cur()
        if not k.block(self._finished, "future", timeout):
            raise _cf.TimeoutError()

    def result(self, timeout=None):
        self._wait_sim(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._wait_sim(timeout)
        return super().exception(0)


def _trip(obj):
    return pickle.loads(pickle.dumps(obj))


class _SimExecutor(_cf.Executor):
    _ends_with_kernel = True
    kind = "process"

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        k = cur()
        self.k = k
        if max_workers is None:
            max_workers = k.cpus if self.kind == "process" else min(32, k.cpus + 4)
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.max_workers = max_workers
        self.method = getattr(mp_context, "_name", None) or k.start_method
        self.init = (initializer, initargs)
        self.owner = k.cur.proc
        self.queue = collections.deque()    # [future, blob or None, call]
        self.results = collections.deque()
        self.pending = {}
        self.workers = []
        self.idle = 0
        self.broken = None
        self.closed = False
        self.manager = None
        self.nr = len(k.executors)
        k.executors.append(self)

    # -- submission
    def submit(self, fn, /, *args, **kwargs):
        k = cur()
        k.yield_("submit")
        k.submits += 1
        kind = k.submit_fail.pop(k.submits - 1, None)
        if kind is not None:
            k.count("fault_submit_" + kind)
            k.log("submit fails", kind)
            raise {"interrupt": KeyboardInterrupt, "memory": MemoryError}[kind]("injected")
        if self.broken:
            raise _cfp.BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        call = (fn, args, kwargs)
        item = [f, None, call]
        if self.kind == "process" and k.ch.pick(2):
            item[1] = self._pickle(item)      # the feeder got to it at once; else when a worker takes it
        self.pending[id(f)] = f
        self.queue.append(item)
        k.count("pool_tasks")
        if self.kind == "thread":
            if len(self.workers) < self.max_workers and self.idle == 0:
                self._launch()
        elif self.method == "fork":
            if self.manager is None:
                while len(self.workers) < self.max_workers:
                    self._launch()
        elif self.idle == 0 and len(self.workers) < self.max_workers:
            self._launch()
        if self.manager is None:
            self.manager = k.spawn(self._manage, self.owner, "pool%d-manager" % self.nr)
        return f

    def _pickle(self, item):
        try:
            return pickle.dumps(item[2])
        except Exception as e:
            item[0].set_exception(e)
            self.pending.pop(id(item[0]), None)
            return False

    def _launch(self):
        k = self.k
        if self.kind == "thread":
            t = k.spawn(lambda: self._work(None), self.owner, "pool%d-thread%d" % (self.nr, len(self.workers)),
                        preempt=True)
            self.workers.append(t)
            return
        p = k.new_process("pool%d-worker" % self.nr, self.method, self.init)
        p.pool = self
        self.workers.append(p)
        k.spawn(lambda: self._work(p), p, p.name)

    # -- a worker
    def _work(self, p):
        k = self.k
        init, initargs = p.payload if p is not None else self.init
        if init is not None:
            init(*initargs)
        while True:
            self.idle += 1
            k.block(lambda: self.queue or self.closed and not self.queue or self.broken, "take")
            self.idle -= 1
            if self.broken:
                break
            if not self.queue:
                break
            item = self.queue.popleft()
            f = item[0]
            if item[1] is False:
                continue
            if not f.set_running_or_notify_cancel():
                self.pending.pop(id(f), None)
                continue
            if p is not None:
                blob = item[1] or self._pickle(item)
                if blob is False:
                    continue
                fn, args, kwargs = pickle.loads(blob)
            else:
                fn, args, kwargs = item[2]
            k.task_log.append((self.nr, p.name if p else "thread"))
            k.yield_("run")
            try:
                r = (True, fn(*args, **kwargs))
                if p is not None:
                    r = (True, _trip(r[1]))
            except SimKill:
                raise
            except K.SimStuck:
                raise
            except BaseException as e:
                r = (False, _trip(e) if p is not None else e)
            k.log("done", self.nr, r[0])
            k.yield_("done")
            self.results.append((f, r))
            k.yield_("sent")
        if p is not None:
            k.exit_process(p, 0)

    # -- the executor's management thread
    def _manage(self):
        k = self.k

        def dead():
            return self.kind == "process" and any(not p.alive and p.exitcode != 0 for p in self.workers)
        while True:
            k.block(lambda: self.results or dead() or self.closed and not self.pending, "manage")
            if self.results and not (dead() and k.ch.pick(2)):
                f, (ok, val) = self.results.popleft()
                self.pending.pop(id(f), None)
                if ok:
                    f.set_result(val)
                else:
                    f.set_exception(val)
                k.yield_("delivered")
                continue
            if dead():
                self.broken = "A process in the process pool was terminated abruptly"
                k.count("broken_pool")
                for f in list(self.pending.values()):
                    try:
                        f.set_exception(_cfp.BrokenProcessPool(self.broken))
                    except _cf.InvalidStateError:
                        pass
                self.pending.clear()
                self.queue.clear()
                for p in self.workers:
                    k.kill_process(p, -15)
                return
            if self.closed and not self.pending:
                k.block(lambda: all(not p.alive for p in self.workers) if self.kind == "process" else
                        all(t.done for t in self.workers), "workers exit")
                return

    def shutdown(self, wait=True, *, cancel_futures=False):
        k = self.k
        if k.dead:
            raise SimKill()
        if cancel_futures:
            for item in list(self.queue):
                if item[0].cancel():
                    self.queue.remove(item)
                    self.pending.pop(id(item[0]), None)
        self.closed = True
        if self.manager is None:
            # nothing was submitted, or the workers could not be started: those that run are idle
            for p in self.workers:
                if self.kind == "process":
                    k.kill_process(p, 0)
            return
        if wait:
            k.block(lambda: self.manager.done, "shutdown")
        else:
            k.yield_("shutdown")

    def live_workers(self):
        if self.kind == "thread":
            return [t.name for t in self.workers if not t.done]
        return [p.name for p in self.workers if p.alive]


class SimProcessPoolExecutor(_SimExecutor):
    kind = "process"

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        results = super().map(functools.partial(_cfp._process_chunk, fn),
                              _get_chunks(*iterables, chunksize=chunksize), timeout=timeout)
        return _cfp._chain_from_iterable_of_lists(results)


def _get_chunks(*iterables, chunksize):
    it = zip(*iterables)
    while True:
        chunk = tuple(itertools.islice(it, chunksize))
        if not chunk:
            return
        yield chunk


class SimThreadPoolExecutor(_SimExecutor):
    kind = "thread"


def sim_as_completed(fs, timeout=None):
    k = cur()
    todo = list(dict.fromkeys(fs))
    end = None if timeout is None else k.clock + timeout
    while todo:
        left = None if end is None else max(0.0, end - k.clock)
        if not k.block(lambda: any(f._finished() for f in todo), "as_completed", left):
            raise _cf.TimeoutError()
        done = [f for f in todo if f._finished()]
        f = done[k.ch.pick(len(done))]
        todo.remove(f)
        yield f


def sim_wait(fs, timeout=None, return_when=_cf.ALL_COMPLETED):
    k = cur()
    fs = set(fs)

    def ok():
        done = [f for f in fs if f._finished()]
        if return_when == _cf.FIRST_COMPLETED:
            return bool(done)
        if return_when == _cf.FIRST_EXCEPTION and any(not f.cancelled() and f._exception for f in done):
            return True
        return len(done) == len(fs)
    k.block(ok, "wait", timeout)
    done = {f for f in fs if f._finished()}
    return _cf._base.DoneAndNotDoneFutures(done, fs - done)


# ------------------------------------------------------------------------------ multiprocessing
class SimProcess:
    _ends_with_kernel = True

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None, method=None):
        self._k = cur()
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._p = None
        self._method = method
        self.name = name or "Process"
        self.daemon = bool(daemon)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = self._k
        if self._p is not None:
            raise AssertionError("cannot start a process twice")
        k.yield_("start")
        payload = (self._target, self._args, self._kwargs)
        if type(self) is not SimProcess and type(self).run is not SimProcess.run:
            payload = self          # a subclass with its own run()
        p = k.new_process("proc", self._method, payload)
        self._p = p
        k.children.append(p)
        del self._target, self._args, self._kwargs      # as CPython does

        def body():
            code = 0
            try:
                if isinstance(p.payload, SimProcess):
                    p.payload.run()
                else:
                    target, args, kwargs = p.payload
                    if target:
                        target(*args, **kwargs)
            except SimKill:
                raise
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                code = 1
            for q in k.mpqueues:
                if not q._drained(p):
                    k.count("queue_full_at_exit")
                    k.block(lambda: q._drained(p), "queue feeder")
                q._at_exit(p)
            if p.late and code == 0:
                k.count("process_death")
                code = -9
            k.exit_process(p, code)
        k.spawn(body, p, p.name)
        k.yield_("started")

    def __deepcopy__(self, memo):
        new = object.__new__(type(self))
        memo[id(self)] = new
        for a, b in self.__dict__.items():
            new.__dict__[a] = b if a in ("_k", "_p") else copy.deepcopy(b, memo)
        return new

    def join(self, timeout=None):
        if self._p is None:
            raise AssertionError("can only join a started process")
        self._k.block(lambda: not self._p.alive, "join", timeout)

    def is_alive(self):
        self._k.yield_("is_alive")
        return self._p is not None and self._p.alive

    @property
    def exitcode(self):
        return None if self._p is None else self._p.exitcode

    @property
    def pid(self):
        return None if self._p is None else self._p.pid

    ident = pid

    @property
    def sentinel(self):
        return self._p

    def terminate(self):
        if self._p is not None:
            self._k.kill_process(self._p, -15)

    def kill(self):
        if self._p is not None:
            self._k.kill_process(self._p, -9)

    def close(self):
        pass


class _Proxy:
    """A manager proxy: one shared object; what passes through is a copy; each call is a scheduling point."""
    _exposed = ()

    def __init__(self, value, lock=None):
        self._value = value

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        k = cur()
        if not hasattr(k, "proxies"):
            k.proxies = {}
        k.proxies[id(self)] = self
        return (_get_proxy, (id(self),))

    def _call(self, name, *args, **kw):
        k = cur()
        k.yield_("proxy " + name)
        args, kw = _trip((args, kw))
        r = getattr(self._value, name)(*args, **kw)
        k.log("proxy", name)
        k.yield_("proxy done")
        return _trip(r) if r is not None else None

    def __repr__(self):
        return "<sim proxy %r>" % (self._value,)


def _get_proxy(i):
    return cur().proxies[i]


def _proxy_class(name, methods):
    def mk(m):
        def f(self, *a, **k):
            return self._call(m, *a, **k)
        f.__name__ = m
        return f
    return type(name, (_Proxy,), {m: mk(m) for m in methods})


ListProxy = _proxy_class("ListProxy", "append extend insert pop remove reverse sort count index __contains__ __getitem__ "
                         "__setitem__ __delitem__ __len__ __add__ __mul__ __imul__ copy clear".split())
_dictp = _proxy_class("DictProxy", "clear copy get has_key items keys pop popitem setdefault update values __contains__ "
                      "__getitem__ __setitem__ __delitem__ __len__".split())


class DictProxy(_dictp):
    def items(self):
        return list(cur() and _Proxy._call(self, "copy").items())

    def keys(self):
        return list(_Proxy._call(self, "copy").keys())

    def values(self):
        return list(_Proxy._call(self, "copy").values())

    def __iter__(self):
        return iter(self.keys())


def _list_iter(self):
    i = 0
    while True:
        try:
            yield self[i]
        except IndexError:
            return
        i += 1


ListProxy.__iter__ = _list_iter
ListProxy.__iadd__ = lambda self, v: (self.extend(v), self)[1]
_nsp = _proxy_class("NamespaceProxy", [])


class ValueProxy(_Proxy):
    def get(self):
        cur().yield_("value get")
        return _trip(self._value)

    def set(self, v):
        cur().yield_("value set")
        self._value = _trip(v)
    value = property(get, set)


class SimLock:
    def __init__(self, k=None, reentrant=False):
        self._owner = None
        self._n = 0
        self._re = reentrant

    def __deepcopy__(self, memo):
        return self

    __reduce__ = _Proxy.__reduce__

    def acquire(self, blocking=True, timeout=None, block=None):
        if block is not None:
            blocking = block
        if timeout is not None and timeout < 0:
            timeout = None
        k = cur()
        k.yield_("lock")
        if self._re and self._owner is k.cur:
            self._n += 1
            return True
        if not blocking and self._owner is not None:
            return False
        if not k.block(lambda: self._owner is None or not self._owner.proc.alive and False, "lock", timeout):
            return False
        self._owner = k.cur
        self._n = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n <= 0:
            self._owner = None
        if K.CURRENT is not None and not K.CURRENT.dead:
            K.CURRENT.yield_("unlock")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self):
        self._f = False

    def __deepcopy__(self, memo):
        return self

    __reduce__ = _Proxy.__reduce__

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        cur().yield_("event")

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        return cur().block(lambda: self._f, "event", timeout)


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def __deepcopy__(self, memo):
        return self

    __reduce__ = _Proxy.__reduce__

    def acquire(self, blocking=True, timeout=None):
        if not blocking and self._v == 0:
            return False
        if not cur().block(lambda: self._v > 0, "semaphore", timeout):
            return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class SimCondition:
    def __init__(self, lock=None):
        self._lock = SimLock(reentrant=True) if lock is None else lock
        self._woken = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self._lock.locked():
            raise RuntimeError("cannot wait on un-acquired lock")
        n, self._lock._n, self._lock._owner = self._lock._n, 0, None
        me = [False]
        self._woken.append(me)
        ok = cur().block(lambda: me[0], "condition", timeout)
        if not ok and me in self._woken:
            self._woken.remove(me)
        self._lock.acquire()
        self._lock._n = n
        return ok

    def wait_for(self, predicate, timeout=None):
        v = predicate()
        while not v:
            if not self.wait(timeout):
                return predicate()
            v = predicate()
        return v

    def notify(self, n=1):
        if not self._lock.locked():
            raise RuntimeError("cannot notify on un-acquired lock")
        for me in self._woken[:n]:
            me[0] = True
        del self._woken[:n]

    def notify_all(self):
        self.notify(len(self._woken))


def _local(base):
    """The same as an object of threading: a process started by fork has a copy of it, and it cannot be pickled."""
    class Local(base):
        _copied_by_fork = True

        def __deepcopy__(self, memo):
            if not K.FORKING:
                raise TypeError("cannot pickle '_thread.lock' object")
            new = object.__new__(type(self))
            new.__dict__.update(self.__dict__)
            memo[id(self)] = new
            return new

        def __reduce__(self):
            raise TypeError("cannot pickle '_thread.lock' object")
    Local.__name__ = Local.__qualname__ = base.__name__
    return Local


SimThreadLock, SimThreadEvent, SimThreadSemaphore = _local(SimLock), _local(SimEvent), _local(SimSemaphore)


class SimQueue:
    """queue.Queue and multiprocessing.Queue."""
    _copy = False
    _lifo = False
    _copied_by_fork = True

    def __init__(self, maxsize=0, **kw):
        self.maxsize = maxsize
        self._d = collections.deque()
        self._unfinished = 0

    def __deepcopy__(self, memo):
        if self._copy:
            return self
        new = type(self)(self.maxsize)
        new._d = copy.deepcopy(self._d, memo)
        new._unfinished = self._unfinished
        return new

    def __reduce__(self):
        if self._copy:
            return _Proxy.__reduce__(self)
        raise TypeError("cannot pickle '_thread.lock' object")

    def put(self, item, block=True, timeout=None):
        k = cur()
        if self._copy:
            k.yield_("put")
            item = _trip(item)
        if self.maxsize > 0:
            if not block and len(self._d) >= self.maxsize:
                raise _queue.Full
            if not k.block(lambda: len(self._d) < self.maxsize, "queue put", timeout):
                raise _queue.Full
        self._d.append(item)
        self._unfinished += 1

    def get(self, block=True, timeout=None):
        k = cur()
        if self._copy:
            k.yield_("get")
        if not block:
            if not self._d:
                raise _queue.Empty
        elif not k.block(lambda: bool(self._d), "queue get", timeout):
            raise _queue.Empty
        return self._take()

    def _take(self):
        return self._d.pop() if self._lifo else self._d.popleft()

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, item):
        return self.put(item, False)

    def qsize(self):
        return len(self._d)

    def empty(self):
        return not self._d

    def full(self):
        return 0 < self.maxsize <= len(self._d)

    def task_done(self):
        if self._unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self._unfinished -= 1

    def join(self):
        cur().block(lambda: self._unfinished <= 0, "queue join")

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class SimLifoQueue(SimQueue):
    _lifo = True


class SimPriorityQueue(SimQueue):
    def _take(self):
        m = min(self._d)
        self._d.remove(m)
        return m


class SimManagerQueue(SimQueue):
    _copy = True





class SimMPQueue(SimManagerQueue):
    """multiprocessing.Queue: a thread of the process that puts feeds a pipe of limited size, in its own time; a process
    ends when all of it went through, and takes with it what did not when it is killed."""

    _synchronous = False

    def __init__(self, maxsize=0, **kw):
        super().__init__(maxsize, **kw)
        k = cur()
        self._leaves = set()        # processes that do not wait for their feeder
        k.mpqueues.append(self)

    def put(self, item, block=True, timeout=None):
        k = cur()
        k.yield_("put")
        try:
            blob = pickle.dumps(item)
        except Exception:
            if self._synchronous:
                raise
            k.count("feeder_error")      # told on stderr only
            return
        if self.maxsize > 0:
            if not block and len(self._d) >= self.maxsize:
                raise _queue.Full
            if not k.block(lambda: len(self._d) < self.maxsize, "queue put", timeout):
                raise _queue.Full
        self._d.append([blob, k.cur.proc, False])
        self._unfinished += 1
        k.log("put", len(blob))
        if self._synchronous or k.ch.pick(2) == 0:
            self._feed(all_of=k.cur.proc)
        if self._synchronous:
            me = self._d[-1]
            k.block(lambda: me[2], "pipe full")

    def _feed(self, all_of=None, first=False):
        """What the feeders did up to now: some of it, all that one process put, at least the first."""
        k = cur()
        for x in [x for x in self._d if not x[2] and not x[1].alive]:
            self._d.remove(x)
            k.count("queue_item_lost")
        full = 0
        for i, x in enumerate(self._d):
            full += len(x[0])
            if x[2]:
                continue
            if full > cur().pipe_size and i > 0:
                break
            if not (x[1] is all_of or first and i == 0 or all_of is None and k.ch.pick(2) == 0):
                break
            # what is larger than the pipe is through only when it is read
            x[2] = full <= cur().pipe_size

    def _drained(self, p):
        """Whether all that p put is in the pipe."""
        if p in self._leaves:
            return True
        full = 0
        need = 0
        for x in self._d:
            full += len(x[0])
            if x[1] is p:
                need = full
        return need <= cur().pipe_size

    def _at_exit(self, p):
        for x in self._d:
            if x[1] is p and p not in self._leaves:
                x[2] = True

    def get(self, block=True, timeout=None):
        k = cur()
        k.yield_("get")
        self._feed()

        def ready():
            return any(x[2] or x[1].alive for x in self._d)
        if not block:
            if not self._d or not self._d[0][2] and len(self._d[0][0]) <= cur().pipe_size:
                raise _queue.Empty
        elif not k.block(ready, "queue get", timeout):
            raise _queue.Empty
        self._feed(first=True)
        r = pickle.loads(self._d.popleft()[0])
        self._feed()
        k.yield_("got")
        return r

    def empty(self):
        k = cur()
        k.yield_("empty")
        self._feed()
        return not self._d or not self._d[0][2]

    def close(self):
        pass

    def join_thread(self):
        p = cur().cur.proc
        cur().block(lambda: self._drained(p), "queue feeder")

    def cancel_join_thread(self):
        self._leaves.add(cur().cur.proc)


class SimSimpleQueue(SimMPQueue):
    _synchronous = True

    def __init__(self, **kw):
        super().__init__(0)

    def put(self, item):
        super().put(item)

    def get(self):
        return super().get()


class _Channel:
    """One direction of a pipe: messages, and the handles on either end, as (pid, number)."""

    def __init__(self):
        self.k = cur()
        self.buf = collections.deque()      # [blob, process]
        self.readers, self.writers = set(), set()
        self.k.channels.append(self)

    def _open(self, ends):
        return any(p.alive and (p.pid, n) in ends for p in self.k.procs for q, n in ends if q == p.pid)

    def readable(self):
        return bool(self.buf) or not self._open(self.writers)

    def size(self):
        return sum(len(b) for b, _ in self.buf)

    def forked(self, parent, child):
        for ends in (self.readers, self.writers):
            for pid, n in list(ends):
                if pid == parent.pid:
                    ends.add((child.pid, n))


class SimConnection:
    """multiprocessing.connection.Connection, as Pipe() makes them."""

    def __init__(self, into, out, proc=None):
        k = cur()
        k.handles += 1
        self._k, self._in, self._out, self._n = k, into, out, k.handles
        self._proc = proc or k.cur.proc
        self._closed = False
        self._copy = False          # memory of a forked process: never collected
        self._register()

    def _register(self):
        me = (self._proc.pid, self._n)
        if self._in is not None:
            self._in.readers.add(me)
        if self._out is not None:
            self._out.writers.add(me)

    def __deepcopy__(self, memo):
        if not K.FORKING:
            raise TypeError("cannot pickle 'Connection' object")
        new = object.__new__(type(self))
        new.__dict__.update(self.__dict__)
        new._copy = True
        new._proc = K.CHILD or self._proc
        memo[id(self)] = new
        return new

    def __reduce__(self):
        self._check()
        k = cur()
        k.sent.append((self._in, self._out))
        return _get_connection, (len(k.sent) - 1,)

    def _drop(self):
        me = (self._proc.pid, self._n)
        if self._in is not None:
            self._in.readers.discard(me)
        if self._out is not None:
            self._out.writers.discard(me)

    def __del__(self):
        if not self._copy and not self._closed:
            self._drop()

    def close(self):
        if not self._closed:
            self._closed = True
            self._drop()
            if not self._k.dead:
                self._k.yield_("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    closed = property(lambda self: self._closed)
    readable = property(lambda self: self._in is not None)
    writable = property(lambda self: self._out is not None)

    def _check(self, ch=True):
        if self._closed:
            raise OSError("handle is closed")
        if ch is None:
            raise OSError("connection is read-only or write-only")

    def send(self, obj):
        self.send_bytes(pickle.dumps(obj))

    def send_bytes(self, buf, offset=0, size=None):
        self._check(self._out)
        k, ch = self._k, self._out
        buf = bytes(buf)[offset:None if size is None else offset + size]
        k.yield_("send")
        if not ch._open(ch.readers):
            raise BrokenPipeError(32, "Broken pipe")
        item = [buf, k.cur.proc]
        ch.buf.append(item)
        k.log("send", len(buf))

        def through():
            n = 0
            for x in ch.buf:
                n += len(x[0])
                if x is item:
                    return n <= cur().pipe_size
            return True
        k.block(lambda: through() or not ch._open(ch.readers), "pipe full")
        if not through():
            raise BrokenPipeError(32, "Broken pipe")
        item[1] = None          # written
        k.yield_("sent")

    def recv_bytes(self, maxlength=None):
        self._check(self._in)
        k, ch = self._k, self._in
        k.yield_("recv")
        k.block(ch.readable, "recv")
        if not ch.buf:
            raise EOFError
        buf, by = ch.buf[0]
        if by is not None and not by.alive and len(buf) > cur().pipe_size:
            ch.buf.clear()      # killed in the middle of it
            raise EOFError
        ch.buf.popleft()
        k.yield_("received")
        return buf

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        self._check(self._in)
        k, ch = self._k, self._in
        k.yield_("poll")
        if timeout is not None and timeout <= 0:
            return ch.readable()
        return bool(k.block(ch.readable, "poll", timeout))

    def fileno(self):
        raise HarnessError("Connection.fileno is not simulated")


def _get_connection(i):
    into, out = cur().sent[i]
    return SimConnection(into, out, K.CHILD)


def sim_pipe(duplex=True):
    cur().yield_("pipe")
    a = _Channel()
    if not duplex:
        return SimConnection(a, None), SimConnection(None, a)
    b = _Channel()
    return SimConnection(a, b), SimConnection(b, a)


def sim_connection_wait(object_list, timeout=None):
    k = cur()
    todo = list(object_list)

    def ready():
        out = []
        for o in todo:
            if isinstance(o, SimConnection):
                o._check(o._in)
                ok = o._in.readable()
            elif isinstance(o, K.VProc):
                ok = not o.alive
            else:
                raise HarnessError("connection.wait for %r is not simulated" % type(o))
            if ok:
                out.append(o)
        return out
    k.yield_("wait")
    if timeout is None or timeout > 0:
        k.block(lambda: bool(ready()), "connection wait", timeout)
    return ready()


class SimManager:
    def list(self, *a):
        return ListProxy(list(*a))

    def dict(self, *a, **k):
        return DictProxy(dict(*a, **k))

    def Value(self, typecode, value, lock=True):
        return ValueProxy(value)

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimLock(reentrant=True)

    def Event(self):
        return SimEvent()

    def Semaphore(self, v=1):
        return SimSemaphore(v)

    def Queue(self, maxsize=0):
        return SimManagerQueue(maxsize)

    JoinableQueue = Queue

    def start(self, *a):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise HarnessError("Manager.%s is not simulated" % n)


def _manager():
    cur().yield_("manager")
    return SimManager()


class SimAsyncResult:
    _ends_with_kernel = True

    def __init__(self, futs, single=False):
        self._f, self._single = futs, single

    def get(self, timeout=None):
        r = [f.result(timeout) for f in self._f]
        return r[0] if self._single else r

    def wait(self, timeout=None):
        sim_wait(self._f, timeout)

    def ready(self):
        return all(f._finished() for f in self._f)

    def successful(self):
        return all(f.exception() is None for f in self._f)


def _star(fn, a):
    return fn(*a)


class SimPool:
    """multiprocessing.Pool.  A real Pool hangs when a worker is killed; here the deadlock detector says so."""

    _ends_with_kernel = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 method=None):
        k = cur()
        if processes is None:
            processes = k.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        ctx = types.SimpleNamespace(_name=method)
        self._ex = SimProcessPoolExecutor(processes, ctx, initializer, initargs)

    def _sub(self, fn, items):
        return [self._ex.submit(fn, i) for i in items]

    def map(self, fn, it, chunksize=None):
        return SimAsyncResult(self._sub(fn, list(it))).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult(self._sub(fn, list(it)))

    def starmap(self, fn, it, chunksize=None):
        return SimAsyncResult([self._ex.submit(_star, fn, a) for a in list(it)]).get()

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return SimAsyncResult([self._ex.submit(_star, fn, a) for a in list(it)])

    def apply(self, fn, args=(), kwds={}):
        return self._ex.submit(fn, *args, **kwds).result()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        f = self._ex.submit(fn, *args, **kwds)
        if callback is not None or error_callback is not None:
            def done(x):
                e = x.exception()
                if e is None and callback:
                    callback(x.result())
                elif e is not None and error_callback:
                    error_callback(e)
            f.add_done_callback(done)
        return SimAsyncResult([f], True)

    def imap(self, fn, it, chunksize=1):
        fs = self._sub(fn, list(it))
        return (f.result() for f in fs)

    def imap_unordered(self, fn, it, chunksize=1):
        fs = self._sub(fn, list(it))
        return (f.result() for f in sim_as_completed(fs))

    def close(self):
        self._ex.closed = True

    def terminate(self):
        self._ex.shutdown(wait=True, cancel_futures=True)

    def join(self):
        self._ex.shutdown(wait=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThread:
    """threading.Thread for code of the package and for callers (preemptible at every line)."""

    _ends_with_kernel = True

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = daemon
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = cur()
        self._t = k.spawn(self._body, k.cur.proc, self.name, preempt=True)
        k.yield_("thread started")

    def _body(self):
        try:
            self.run()
        except SimKill:
            raise
        except BaseException as e:      # a thread's exception does not reach its starter
            self._exc = e

    def join(self, timeout=None):
        cur().block(lambda: self._t.done, "thread join", timeout)

    def is_alive(self):
        return self._t is not None and not self._t.done


# ------------------------------------------------------------------------------ modules handed to the package
class Shim(types.ModuleType):
    def __init__(self, real, over, strict=()):
        super().__init__(real.__name__)
        self.__dict__.update(over)
        self.__dict__["_real"] = real
        self.__dict__["_strict"] = strict
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n in ("__wrapped__", "__all__") or n.startswith("__"):
            return getattr(self.__dict__["_real"], n)
        if n in self.__dict__["_strict"] or "*" in self.__dict__["_strict"]:
            real = getattr(self.__dict__["_real"], n)      # AttributeError stays one
            if isinstance(real, type) and issubclass(real, BaseException):
                return real
            if not callable(real):
                return real
            raise HarnessError("%s.%s is not simulated" % (self.__name__, n))
        return getattr(self.__dict__["_real"], n)


def _cpu():
    return cur().cpus


class _Context:
    def __init__(self, name):
        self._name = name

    def Process(self, *a, **kw):
        return SimProcess(*a, method=self._name, **kw)

    def Pool(self, *a, **kw):
        return SimPool(*a, method=self._name, **kw)

    def Manager(self):
        return _manager()

    def get_start_method(self):
        return self._name

    def cpu_count(self):
        return _cpu()

    Queue = SimMPQueue
    SimpleQueue = SimSimpleQueue
    JoinableQueue = SimMPQueue
    Pipe = staticmethod(sim_pipe)
    Lock = SimLock
    Event = SimEvent
    Semaphore = SimSemaphore


def _get_context(method=None):
    if method not in (None, "fork", "spawn", "forkserver"):
        raise ValueError("cannot find context for %r" % method)
    return _Context(method or cur().start_method)


def _current_process():
    p = cur().cur.proc
    return types.SimpleNamespace(name="MainProcess" if p.parent is None else p.name, pid=p.pid, ident=p.pid,
                                 daemon=p.parent is not None, _identity=() if p.parent is None else (p.pid,))


MP = dict(Process=SimProcess, Pool=SimPool, Manager=_manager, Queue=SimMPQueue,
          SimpleQueue=SimSimpleQueue, JoinableQueue=SimMPQueue, Pipe=sim_pipe, Lock=SimLock, RLock=lambda: SimLock(reentrant=True), Event=SimEvent,
          Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore, Value=lambda t, v=0, lock=True: ValueProxy(v),
          cpu_count=_cpu, get_context=_get_context, current_process=_current_process,
          active_children=lambda: [], get_start_method=lambda allow_none=False: cur().start_method,
          set_start_method=lambda m, force=False: setattr(cur(), "start_method", m) if m else None,
          freeze_support=lambda: None, parent_process=lambda: None)


def _t():
    k = cur()
    k.clock += k.tick
    if k.tick > 0.1:
        k.count("slow clock")
    return k.clock


def _wall():
    t = _t()
    k = cur()
    if k.clock_rng.random() < 0.1:
        k.skew = k.clock_rng.choice([0.0, 3600.0, -3600.0, 1e6, -0.5])
        k.count("clock jump")
    return t + k.skew


TIME = dict(time=_wall, monotonic=_t, perf_counter=_t, process_time=_t,
            time_ns=lambda: int(_wall() * 1e9), monotonic_ns=lambda: int(_t() * 1e9),
            perf_counter_ns=lambda: int(_t() * 1e9), sleep=lambda s: cur().sleep(s))

OS = dict(cpu_count=_cpu, process_cpu_count=_cpu, getpid=lambda: cur().cur.proc.pid,
          sched_getaffinity=lambda p: set(range(_cpu())), urandom=lambda n: cur().entropy_bytes(n))

SHIMS = {}


def _datetime():
    import datetime as real

    class datetime(real.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(_wall())

        @classmethod
        def today(cls):
            return cls.fromtimestamp(_wall())
    return Shim(real, dict(datetime=datetime))


_installed = False
_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and globals is not None and (globals.get("__name__") or "").startswith(K.PKG) and \
            name.split(".")[0] in TOPS:
        _real_import(name, globals, locals, fromlist, level)
        if fromlist:
            if name in SHIMS:
                return SHIMS[name]
            if name in DEEP:
                return SHIMS[DEEP[name]]
            raise HarnessError("import %s is not simulated" % name)
        return SHIMS[name.split(".")[0]]
    return _real_import(name, globals, locals, fromlist, level)


TOPS = {"functools", "multiprocessing", "concurrent", "os", "time", "queue", "threading", "datetime"}
DEEP = {"multiprocessing.pool": "multiprocessing", "multiprocessing.context": "multiprocessing",
        "multiprocessing.queues": "multiprocessing", "multiprocessing.process": "multiprocessing",
        "concurrent.futures.process": "concurrent.futures", "concurrent.futures.thread": "concurrent.futures"}


def sim_lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with its entries where the kernel finds them, for each simulated process has its own."""
    def deco(f, size=maxsize):
        def wrapper(*a, **kw):
            at = wrapper.__dict__
            store = at.get("cache_store")
            if store is None:
                store = at["cache_store"] = collections.OrderedDict()
                at["cache_hits"] = at["cache_misses"] = 0
            key = functools._make_key(a, kw, typed)
            if key in store:
                store.move_to_end(key)
                at["cache_hits"] += 1
                return store[key]
            at["cache_misses"] += 1
            v = f(*a, **kw)
            if size != 0:
                store = at.setdefault("cache_store", collections.OrderedDict())
                store[key] = v
                if size is not None and len(store) > size:
                    store.popitem(last=False)
            return v
        functools.update_wrapper(wrapper, f)
        wrapper.__dict__["cache_store"] = None

        def clear():
            wrapper.__dict__["cache_store"] = None

        def info():
            at = wrapper.__dict__
            return functools._CacheInfo(at.get("cache_hits", 0), at.get("cache_misses", 0), size, len(at["cache_store"] or ()))
        wrapper.cache_clear, wrapper.cache_info = clear, info
        wrapper.cache_parameters = lambda: {"maxsize": size, "typed": typed}
        return wrapper
    if callable(maxsize):
        return deco(maxsize, 128)
    return deco


def _entropy(n):
    k = K.CURRENT
    return k.entropy_bytes(n) if k is not None and not k.dead else _real_urandom(n)


_real_id = id
_real_urandom = _os.urandom


def install():
    """Before PyCTBN is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    if any(m == K.PKG or m.startswith(K.PKG + ".") for m in sys.modules):
        raise HarnessError("package imported before the seams")
    cfut = Shim(_cf, dict(ProcessPoolExecutor=SimProcessPoolExecutor, ThreadPoolExecutor=SimThreadPoolExecutor,
                          as_completed=sim_as_completed, wait=sim_wait, Future=SimFuture, TimeoutError=_cf.TimeoutError,
                          CancelledError=_cf.CancelledError, FIRST_COMPLETED=_cf.FIRST_COMPLETED,
                          ALL_COMPLETED=_cf.ALL_COMPLETED, FIRST_EXCEPTION=_cf.FIRST_EXCEPTION, Executor=_cf.Executor,
                          BrokenExecutor=_cf.BrokenExecutor, process=types.SimpleNamespace(
                              BrokenProcessPool=_cfp.BrokenProcessPool, ProcessPoolExecutor=SimProcessPoolExecutor),
                          thread=types.SimpleNamespace(ThreadPoolExecutor=SimThreadPoolExecutor),
                          BrokenProcessPool=_cfp.BrokenProcessPool), strict=("*",))
    import concurrent as _conc
    SHIMS["concurrent.futures"] = cfut
    SHIMS["concurrent"] = Shim(_conc, dict(futures=cfut))
    SHIMS["multiprocessing"] = Shim(_mp, dict(MP), strict=("*",))
    ns = SHIMS["multiprocessing"]
    from multiprocessing import connection as _conn
    SHIMS["multiprocessing.connection"] = Shim(_conn, dict(Pipe=sim_pipe, wait=sim_connection_wait, Connection=SimConnection),
                                               strict=("*",))
    ns.__dict__["connection"] = SHIMS["multiprocessing.connection"]
    ns.__dict__["pool"] = types.SimpleNamespace(Pool=SimPool, ThreadPool=None)
    SHIMS["os"] = Shim(_os, dict(OS), strict=("fork", "forkpty", "_exit", "kill", "abort"))
    SHIMS["time"] = Shim(_time, dict(TIME))
    SHIMS["queue"] = Shim(_queue, dict(Queue=SimQueue, SimpleQueue=SimQueue, LifoQueue=SimLifoQueue,
                                       PriorityQueue=SimPriorityQueue, Empty=_queue.Empty, Full=_queue.Full),
                          strict=("*",))
    SHIMS["threading"] = Shim(_threading, dict(Thread=SimThread, Lock=SimThreadLock, RLock=lambda: SimThreadLock(reentrant=True),
                                               Event=SimThreadEvent, Semaphore=SimThreadSemaphore,
                                               BoundedSemaphore=SimThreadSemaphore, Condition=SimCondition,
                                               local=_threading.local, current_thread=_threading.current_thread,
                                               get_ident=lambda: cur().cur.tid,
                                               main_thread=_threading.main_thread), strict=("*",))
    SHIMS["datetime"] = _datetime()
    SHIMS["functools"] = Shim(functools, dict(lru_cache=sim_lru_cache, cache=lambda f: sim_lru_cache(None)(f)))
    builtins.__import__ = _import
    # entropy, for everybody
    _os.urandom = _entropy
    _random._urandom = _entropy
    real_seed = _random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and K.CURRENT is not None and not K.CURRENT.dead and not isinstance(self, _random.SystemRandom):
            a = int.from_bytes(_entropy(32), "big")
        return real_seed(self, a, version)
    _random.Random.seed = seed
    _random.seed = _random._inst.seed
    _secrets.randbits.__self__  # SystemRandom instance: draws through random._urandom


def sim_id(obj):
    """id() for the package: addresses are used again as soon as an object is gone."""
    k = K.CURRENT
    if k is None or k.dead or sys._getframe(1).f_code.co_name in ("__deepcopy__", "__copy__"):
        return _real_id(obj)
    return k.cur.proc.ids.of(obj)


_loaded = None


def load_package(repo):
    """Import PyCTBN from repo under the seams; step events on all of its code."""
    global _loaded
    if _loaded:
        return _loaded
    install()
    import importlib
    import pkgutil
    import warnings
    warnings.simplefilter("ignore")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import numpy
    import pandas
    import networkx
    import scipy.stats
    import matplotlib
    matplotlib.use("Agg")
    # no stale bytecode of the package: an empty cache directory that is never written
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/ctbn-sim"
    # the package may ask the seams for something while it is imported: give it a kernel
    with K.Kernel(("import",)):
        pk = importlib.import_module("PyCTBN")
        core = sys.modules["PyCTBN.PyCTBN"]
        for m in pkgutil.walk_packages(core.__path__, "PyCTBN.PyCTBN."):
            importlib.import_module(m.name)
    if not pk.__file__.startswith(repo.rstrip("/") + "/"):
        raise HarnessError("imported %s" % pk.__file__)
    K.install_monitor()
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == K.PKG or name.startswith(K.PKG + ".")):
            vars(mod).setdefault("id", sim_id)
    K.STATE.scan()
    K.PRISTINE = K.copied(K.STATE.capture())[0]
    warnings.simplefilter("ignore")
    _loaded = pk
    return pk


def reset_state():
    """PyCTBN's globals as after import (another interpreter); returns what they were."""
    old = K.STATE.capture()
    K.STATE.restore(K.copied(K.PRISTINE)[0])
    return old

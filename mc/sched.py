"""
Controlled scheduler for the real threads of the code under test (CPython 3.12).

Exactly one controlled thread runs at a time.  A thread can be switched out at the places where
CPython itself can switch (function entry, after a call, backward jump) inside traced source files, at
lock operations, and at sleeps.  Every decision is a `ctx.choose`; leaving a runnable thread costs 1
(a preemption), so the exploration is exhaustive up to the preemption bound of the configuration.
"""
import _thread
import dis
import gc
import multiprocessing
import multiprocessing.pool
import os
import pickle
import sys
import threading
import time
import types

from mc.engine import Violation, Hang

REAL_POOL = multiprocessing.pool.Pool
REAL_THREADPOOL = multiprocessing.pool.ThreadPool
REAL_SLEEP = time.sleep
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
REAL_ALLOC = _thread.allocate_lock

CURRENT = None      # active Sched


class Kill(BaseException):
    pass


class T:
    def __init__(self, name):
        self.name = name
        self.sem = REAL_ALLOC()
        self.sem.acquire()
        self.state = "ready"
        self.cond = None        # callable: enabled when true (while blocked)
        self.error = None


class Sched:
    MAX_IDLE = 60
    MAX_POINTS = 200000

    def __init__(self, ctx):
        self.ctx = ctx
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.idle = 0
        self.points = 0
        self.dead = False
        self.mute = False
        self.failure = None
        self.pools = []

    def wait_pools(self):
        """Block the caller until every task of every stub pool has been delivered."""
        self.block(lambda: all(p.delivered == p.submitted for p in self.pools))

    # -- life cycle -------------------------------------------------------------------------
    def __enter__(self):
        global CURRENT
        me = T("master")
        self.threads.append(me)
        self.by_ident[_thread.get_ident()] = me
        self.cur = me
        CURRENT = self
        threading.Lock = SchedLock
        threading.RLock = SchedRLock
        threading._allocate_lock = SchedLock
        time.sleep = _sleep
        return self

    def __exit__(self, *exc):
        global CURRENT
        self.dead = True
        threading.Lock = REAL_LOCK
        threading.RLock = REAL_RLOCK
        threading._allocate_lock = REAL_ALLOC
        time.sleep = REAL_SLEEP
        for t in self.threads:
            if t.state != "done":
                try:
                    t.sem.release()
                except RuntimeError:
                    pass
        t0 = time.time()
        while any(t.state != "done" for t in self.threads[1:]) and time.time() - t0 < 5:
            REAL_SLEEP(0.0002)
        CURRENT = None
        return False

    def spawn(self, name, fn):
        t = T(name)
        self.threads.append(t)

        def body():
            self.by_ident[_thread.get_ident()] = t
            t.sem.acquire()
            try:
                if not self.dead:
                    fn()
            except Kill:
                pass
            except BaseException as e:      # thread dies, as a real thread would
                t.error = e
            finally:
                t.state = "done"
                if not self.dead:
                    try:
                        self._switch_away(t)
                    except BaseException:
                        pass
        _thread.start_new_thread(body, ())
        return t

    # -- scheduling -------------------------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _enabled(self, t):
        if t.state == "ready":
            return True
        if t.state == "blocked":
            return t.cond()
        return False

    def _go(self, me, nxt):
        """Hand control to nxt and wait for my turn (unless I am done)."""
        if nxt is me:
            return
        self.cur = nxt
        nxt.sem.release()
        if me.state == "done":
            return
        me.sem.acquire()
        if self.dead:
            raise Kill()
        if self.failure is not None and me is self.threads[0]:
            f, self.failure = self.failure, None
            raise f

    def _fail(self, exc):
        """Deliver a violation to the master thread."""
        me = self.me()
        if me is self.threads[0]:
            raise exc
        self.failure = exc
        m = self.threads[0]
        m.state = "ready"
        self.cur = m
        m.sem.release()
        if me.state != "done":
            me.sem.acquire()
            raise Kill()

    def point(self, label="p"):
        me = self.me()
        if me is None or self.dead:
            if self.dead and me is not None and me is not self.threads[0]:
                raise Kill()
            return
        if me is not self.cur:
            return
        self.points += 1
        self.ctx.transitions += 1
        if self.points > self.MAX_POINTS:
            self._fail(Violation("execution does not terminate (scheduling points exhausted)", "no termination"))
        others = [t for t in self.threads if t is not me and self._enabled(t)]
        if not others:
            return
        opts = [me] + others
        c = self.ctx.choose(len(opts), "", costs=[0] + [1] * len(others))
        if c:
            nxt = opts[c]
            nxt.state = "ready"
            self._go(me, nxt)

    def _switch_away(self, me):
        """me is blocked, yielding or done: someone else must run."""
        others = [t for t in self.threads if t is not me and self._enabled(t)]
        if not others:
            return None
        c = self.ctx.choose(len(others), "") if len(others) > 1 else 0
        nxt = others[c]
        nxt.state = "ready"
        self._go(me, nxt)
        return nxt

    def block(self, cond):
        me = self.me()
        while not cond():
            me.state = "blocked"
            me.cond = cond
            if self._switch_away(me) is None:
                me.state = "ready"
                self._fail(Violation("deadlock: no runnable thread", "deadlock"))
        me.state = "ready"

    def yield_(self):
        me = self.me()
        if me is None or self.dead:
            return
        self.ctx.transitions += 1
        if self._switch_away(me) is None:
            self.idle += 1
            if self.idle > self.MAX_IDLE:
                self._fail(Violation("the caller waits forever: nothing is running and no result is pending",
                                     "waits forever"))
        else:
            self.idle = 0


# -- switch points: instruction events of sys.monitoring on the code objects under test ---------------
TOOL = 3
_mon = sys.monitoring
_POINTS = {}        # code -> offsets where CPython may switch threads


def _codes(code, out):
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, out)


def instrument(files, names=None):
    """Instrument every function (or those with the given names) defined in the source files of imported modules."""
    if _mon.get_tool(TOOL) is None:
        _mon.use_tool_id(TOOL, "mc")
        _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instruction)
    codes = []
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(tuple(files)) and (
                names is None or obj.__name__ in names):
            _codes(obj.__code__, codes)
    for code in codes:
        if code in _POINTS:
            continue
        offs = set()
        prev = None
        for ins in dis.get_instructions(code):
            if prev is not None and (prev.opname in ("RESUME", "CALL", "CALL_FUNCTION_EX", "CALL_KW")
                                     or prev.opname == "BEFORE_WITH"):
                offs.add(ins.offset)
            if ins.opname == "JUMP_BACKWARD":
                offs.add(ins.offset)
            prev = ins
        _POINTS[code] = offs
        _mon.set_local_events(TOOL, code, _mon.events.INSTRUCTION)


def _on_instruction(code, offset):
    pts = _POINTS.get(code)
    if pts is None or offset not in pts:
        return _mon.DISABLE
    s = CURRENT
    if s is not None and not s.mute:
        s.point()


def _sleep(t=0):
    if CURRENT is not None and CURRENT.me() is not None:
        CURRENT.yield_()
    else:
        REAL_SLEEP(t)


class SchedLock:
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or s.dead or s.me() is None:
            self._owner = True
            return True
        s.point("acq")
        if self._owner is not None:
            if not blocking:
                return False
            s.block(lambda: self._owner is None)
        self._owner = s.me()
        return True

    def release(self):
        self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SchedRLock(SchedLock):
    def __init__(self):
        super().__init__()
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = s.me() if s is not None else True
        if self._owner is not None and self._owner is me:
            self._count += 1
            return True
        if not SchedLock.acquire(self, blocking, timeout):
            return False
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._owner = None

    def _is_owned(self):
        s = CURRENT
        return self._owner is (s.me() if s is not None else True)

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class StubAsync:
    def __init__(self):
        self._done = False
        self._ok = None
        self._val = None

    def ready(self):
        return self._done

    def successful(self):
        return self._ok

    def wait(self, timeout=None):
        if CURRENT is not None and timeout is None:
            CURRENT.block(lambda: self._done)
        elif CURRENT is not None and not self._done:
            CURRENT.yield_()

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._val
        raise self._val


class StubPool:
    """
    Stand-in for multiprocessing.Pool / ThreadPool under the controlled scheduler.  Results are
    computed by isolated workers (process pool: arguments and results are pickled) or by controlled
    worker threads (thread pool), and callbacks run in ONE result-handler thread which dies when a
    callback raises -- the semantics of multiprocessing.pool.Pool._handle_results.
    """
    def __init__(self, processes=None, threaded=False):
        self.n = processes or 2
        self.threaded = threaded
        self.pending = []       # waiting for a worker
        self.done = []          # computed, waiting for the handler
        self.handler = None
        self.workers = []
        self.closed = False
        self._state = "RUN"
        self.submitted = self.delivered = 0
        CURRENT.pools.append(self)

    def _start(self):
        if self.handler is None:
            self.handler = CURRENT.spawn("handler", self._handle)
            if self.threaded:
                for i in range(self.n):
                    self.workers.append(CURRENT.spawn("worker%d" % i, self._work))

    def _work(self):
        s = CURRENT
        while True:
            s.block(lambda: bool(self.pending))
            task = self.pending.pop(0)
            self.done.append((task, self._compute(task)))

    def _compute(self, task):
        func, args, kwds = task[:3]
        try:
            if self.threaded:
                return True, func(*args, **kwds)
            s = CURRENT
            s.mute = True
            try:
                args = pickle.loads(pickle.dumps(args))
                r = func(*args, **kwds)
            finally:
                s.mute = False
            try:
                return True, pickle.loads(pickle.dumps(r))
            except Exception as e:
                return False, multiprocessing.pool.MaybeEncodingError(e, r)
        except Kill:
            raise
        except Exception as e:
            return False, e

    def _handle(self):
        s = CURRENT
        while True:
            if self.threaded:
                s.block(lambda: bool(self.done))
                i = s.ctx.choose(len(self.done), "deliver") if len(self.done) > 1 else 0
                task, (ok, val) = self.done.pop(i)
            else:
                s.block(lambda: bool(self.pending))
                k = min(self.n, len(self.pending))
                i = s.ctx.choose(k, "complete") if k > 1 else 0
                task = self.pending.pop(i)
                ok, val = self._compute(task)
            cb, ecb, res = task[3:]
            res._done, res._ok, res._val = True, ok, val
            if ok and cb:
                cb(val)
            elif not ok and ecb:
                ecb(val)
            self.delivered += 1

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._start()
        r = StubAsync()
        self.submitted += 1
        self.pending.append((func, tuple(args), dict(kwds), callback, error_callback, r))
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        raise NotImplementedError("map_async is not modelled")

    starmap_async = map_async

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.pending = []

    def join(self):
        if CURRENT is not None and self.handler is not None:
            CURRENT.block(lambda: (not self.pending and not self.done) or self.handler.state == "done")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _pool(processes=None, *a, **k):
    if CURRENT is not None:
        return StubPool(processes)
    k.setdefault("context", multiprocessing.get_context())
    return REAL_POOL(processes, *a, **k)


def _tpool(processes=None, *a, **k):
    if CURRENT is not None:
        return StubPool(processes, threaded=True)
    return REAL_THREADPOOL(processes, *a, **k)


class _Proxy:
    def __init__(self, mod, **over):
        self.__dict__["_mod"] = mod
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self._mod, name)


def install(module):
    """Rebind the multiprocessing pools a module uses to the dispatching constructors above."""
    pool_proxy = _Proxy(multiprocessing.pool, Pool=_pool, ThreadPool=_tpool)
    for name, val in list(vars(module).items()):
        if val is multiprocessing.pool:
            setattr(module, name, pool_proxy)
        elif val is multiprocessing:
            setattr(module, name, _Proxy(multiprocessing, Pool=_pool, pool=pool_proxy))
        elif val is REAL_POOL or (getattr(val, "__func__", None) is getattr(multiprocessing.Pool, "__func__", 0)):
            setattr(module, name, _pool)
        elif val is REAL_THREADPOOL:
            setattr(module, name, _tpool)

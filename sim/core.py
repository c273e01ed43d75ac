"""Foundations of the simulator.

* loads pandas/numpy and then ``ta`` from the repository's working tree, keeping every code object that
  is compiled from a file under <repo>/ta (the *system under simulation*);
* instruments exactly those code objects with ``sys.monitoring`` LINE/CALL (optionally INSTRUCTION)
  events: these are the scheduler's yield points and the fault injector's crash points;
* replaces ``threading.Lock``/``RLock`` as seen by ``ta`` by cooperative locks owned by the scheduler;
* provides the deterministic scheduler (real threads, parked and released one at a time);
* provides fork-based isolation: the process that loads this module never calls into ``ta``, every
  simulated run and every reference computation happens in a fork of it, i.e. in a fresh process life.
"""
import ast
import hashlib
import importlib.machinery
import os
import pickle
import random
import select
import signal
import sys
import threading
import time
import _thread

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
ENV0 = dict(os.environ)  # as it was before the library was imported
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import warnings

warnings.simplefilter("ignore")

import numpy as np
import pandas as pd

REAL_LOCK = _thread.allocate_lock

# --------------------------------------------------------------------------- clock/entropy seam (LD_PRELOAD shim)
import ctypes

try:
    _SHIM = ctypes.CDLL(None)
    _SHIM.simshim_set.argtypes = [ctypes.c_int64, ctypes.c_int64]
    _SHIM.simshim_seed.argtypes = [ctypes.c_uint64]
    _SHIM.simshim_reads.restype = _SHIM.simshim_entropy.restype = ctypes.c_int64
    _SHIM.simshim_on(0)
except (AttributeError, OSError):
    _SHIM = None
CLOCK = [0, 0]  # simulated wall and monotonic clocks, ns


def sim_clock(wall, mono, seed):
    """from now on this process reads simulated clocks and simulated kernel entropy"""
    CLOCK[:] = [int(wall), int(mono)]
    if _SHIM is not None:
        _SHIM.simshim_set(*CLOCK)
        _SHIM.simshim_seed(seed & ((1 << 63) - 1))
        _SHIM.simshim_on(1)


def advance(secs, wall_extra=0.0):
    CLOCK[0] += int((secs + wall_extra) * 1e9)
    CLOCK[1] += int(secs * 1e9)
    if _SHIM is not None:
        _SHIM.simshim_set(*CLOCK)


def set_wall(ns):
    """the wall clock of this process is stepped to a given time"""
    CLOCK[0] = int(ns)
    if _SHIM is not None:
        _SHIM.simshim_set(*CLOCK)


def clock_reads():
    return (int(_SHIM.simshim_reads()), int(_SHIM.simshim_entropy())) if _SHIM is not None else (-1, -1)


# --------------------------------------------------------------------------- lock seam
class SimDeadlock(BaseException):
    """raised inside a simulated thread when no thread can make progress"""


class SimLock:
    """cooperative replacement for threading.Lock / RLock used by code under simulation"""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s = SCHED[0]
            if s is None or not s.is_sim(me):
                if SCHED[0] is None:
                    raise SimDeadlock("lock held by a dead caller")
                return False
            if timeout is not None and timeout >= 0:
                s.force_switch()
                if self.owner is not None:
                    return False
            else:
                s.block_on(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = SCHED[0]
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


SCHED = [None]

# --------------------------------------------------------------------------- load the code under test
TA_DIR = os.path.join(REPO, "ta") + os.sep
CODES = []  # every code object compiled from <repo>/ta
CLEANUP = {}  # filename -> set of line numbers in finally/except bodies and with headers
_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _collect(code):
    CODES.append(code)
    for k in code.co_consts:
        if hasattr(k, "co_code"):
            _collect(k)


def _cleanup_lines(src):
    out = set()
    tree = ast.parse(src)
    for node in ast.walk(tree):
        for fld in ("body", "orelse", "finalbody"):  # the statement right before try/finally, and the try line
            sib = getattr(node, fld, None)
            if isinstance(sib, list):
                for i, st in enumerate(sib):
                    if isinstance(st, ast.Try) and st.finalbody:
                        out.add(st.lineno)
                        if i:
                            out.update(range(sib[i - 1].lineno, (sib[i - 1].end_lineno or sib[i - 1].lineno) + 1))
    for node in ast.walk(tree):
        bodies = []
        if isinstance(node, ast.Try):
            bodies = list(node.finalbody) + list(node.handlers)
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
            out.add(node.lineno)
        for b in bodies:
            out.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
    return out


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if os.path.realpath(path).startswith(TA_DIR):
        data = self.get_data(path)
        code = self.source_to_code(data, path)
        n0 = len(CODES)
        _collect(code)
        CLEANUP[path] = _cleanup_lines(data)
        if _ENABLED[0]:
            for c in CODES[n0:]:
                _MON.set_local_events(_TOOL, c, _ENABLED[0])
        return code
    return _orig_get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = _get_code
_MON = sys.monitoring
_TOOL = 4
_ENABLED = [0]
_MON.use_tool_id(_TOOL, "verif-dst")

HOOK = [None]  # callable(ev, code, pos) or None


def _on_line(code, line):
    h = HOOK[0]
    if h is not None:
        h("L", code, line)


def _on_call(code, off, fn, a0):
    h = HOOK[0]
    if h is not None:
        h("C", code, off)


def _on_ins(code, off):
    h = HOOK[0]
    if h is not None:
        h("I", code, off)


def instrument(opcodes=False):
    ev = _MON.events
    _MON.register_callback(_TOOL, ev.LINE, _on_line)
    _MON.register_callback(_TOOL, ev.CALL, _on_call)
    _MON.register_callback(_TOOL, ev.INSTRUCTION, _on_ins)
    mask = ev.LINE | ev.CALL | (ev.INSTRUCTION if opcodes else 0)
    _ENABLED[0] = mask
    for c in CODES:
        _MON.set_local_events(_TOOL, c, mask)


def _warm():
    """touch pandas' lazy imports before forking (never calls ta)"""
    s = pd.Series([1.0, 2.0, 4.0, 3.0, 5.0])
    s.rolling(2, min_periods=1).mean(); s.rolling(2).std(ddof=0); s.rolling(2).apply(lambda x: 1.0, raw=True)
    s.ewm(span=2, adjust=False).mean(); s.pct_change(); s.diff(); s.cumsum(); s.where(s > 1, 0)
    s.shift(1, fill_value=0.0); s.ffill().bfill().fillna(0); s.replace([np.inf], np.nan)
    s.rolling(2).min(); s.rolling(2).max(); s.rolling(2).sum()
    d = pd.DataFrame({"a": s, "b": s * 2}); d.max(axis=1); d.min(axis=1, skipna=False); d["c"] = s
    d.dropna(); d.select_dtypes(include=np.number); d[d < 3]; d.copy(deep=False)
    pd.date_range("2020-01-01", periods=3, tz="UTC"); s.astype("float32").rolling(2).mean()


_real_Lock, _real_RLock, _real_sleep = threading.Lock, threading.RLock, time.sleep


def _asked_by_ta():
    """is the code under simulation (possibly through a threading primitive) asking?"""
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(TA_DIR):
            return True
        if f.f_globals.get("__name__") not in ("threading", "queue"):
            return False
        f = f.f_back
    return False


def _Lock():
    return SimLock(False) if _asked_by_ta() else _real_Lock()


def _RLock(*a, **k):
    return SimLock(True) if _asked_by_ta() else _real_RLock(*a, **k)


def _sleep(secs):
    """simulated time passes, the other threads get to run"""
    s = SCHED[0]
    if s is None or not _asked_by_ta():
        return _real_sleep(secs)
    advance(secs)
    if s.is_sim(_thread.get_ident()):
        s.force_switch()


_real_getpid, _real_at_fork = os.getpid, os.register_at_fork
PID = [None]  # the simulated process's own number: the one the library was imported under
AT_FORK = []


def _getpid():
    return PID[0] or _real_getpid()


def _at_fork(**hooks):
    """forks of the harness are not forks of the simulated process"""
    if not _asked_by_ta():
        return _real_at_fork(**hooks)
    AT_FORK.append(hooks)


def at_fork(when):
    for h in (reversed(AT_FORK) if when == "before" else AT_FORK):
        if h.get(when):
            h[when]()


def load_ta():
    _warm()
    sys.path.insert(0, REPO)
    threading.Lock, threading.RLock, time.sleep = _Lock, _RLock, _sleep
    os.getpid, os.register_at_fork = _getpid, _at_fork
    PID[0] = _real_getpid()
    import ta  # noqa
    import ta.momentum, ta.others, ta.trend, ta.utils, ta.volatility, ta.volume, ta.wrapper  # noqa
    got = os.path.realpath(ta.__file__)
    if not got.startswith(TA_DIR):
        raise RuntimeError(f"ta imported from {got}, not from {TA_DIR}")
    import gc
    gc.collect()
    gc.freeze()
    return ta


# --------------------------------------------------------------------------- fork isolation
class Hung(Exception):
    pass


def in_fork(fn, timeout=60.0):
    """run fn() in a fork of this process; returns its (picklable) value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                data = pickle.dumps(("ok", fn()), protocol=4)
            except BaseException as e:  # harness failure, never a verdict
                import traceback
                data = pickle.dumps(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"), protocol=4)
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv):]
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    chunks, deadline = [], time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise Hung(f"no answer within {timeout}s")
            rd, _, _ = select.select([r], [], [], min(left, 5))
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks:
        raise RuntimeError("simulated process died without an answer")
    st, val = pickle.loads(b"".join(chunks))
    if st == "err":
        raise RuntimeError(val)
    return val


# --------------------------------------------------------------------------- faults
class SimKill(BaseException):
    """the calling thread is torn down at this instant"""


FAULTS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError,
          "OSError": OSError, "SimKill": SimKill}


def eligible(ev, code, pos):
    """may a fault strike here?  not inside cleanup code (finally/except bodies, with headers)"""
    if ev == "I":
        return False
    bad = CLEANUP.get(code.co_filename)
    if not bad:
        return True
    if ev == "L":
        return pos not in bad
    for a, b, ln in code.co_lines():
        if a <= pos < b:
            return ln not in bad
    return True


class Injector:
    """counts the fault points of one operation and acts at the armed ones

    points: [{"at": n, "do": "raise", "kind": ...} | {"at": n, "do": <callback name>, ...}]"""

    __slots__ = ("n", "pts", "fired", "where", "act", "busy")

    def __init__(self, pts=(), act=None):
        self.n = 0
        self.pts = {p["at"]: p for p in pts}
        self.fired = []
        self.where = None
        self.act = act
        self.busy = False

    def hit(self, ev, code, pos):
        if self.busy or not eligible(ev, code, pos):
            return
        self.n += 1
        p = self.pts.get(self.n)
        if p is None:
            return
        self.where = (code.co_qualname, ev, pos)
        self.fired.append(p)
        if p["do"] == "raise":
            raise FAULTS[p["kind"]](f"injected at {code.co_qualname}:{pos}")
        self.busy = True
        try:
            self.act(p)
        finally:
            self.busy = False

    @property
    def raised(self):
        return any(p["do"] == "raise" for p in self.fired)


# --------------------------------------------------------------------------- scheduler
class RandomChooser:
    """swarm scheduler: the per-run style decides how long a thread keeps running before it is preempted"""

    def __init__(self, seed, style):
        self.r = random.Random(seed)
        self.style = style
        self.hi = {"fine": 3, "mid": 30, "coarse": 400, "mixed": 200, "pct": 600}[style]

    away = None

    def next(self, alive):
        r = self.r
        if self.away is not None:
            (me, long), self.away = self.away, None
            others = [t for t in alive if t != me]
            if others:
                return r.choice(others), (10 ** 9 if long else r.randint(1, 40))
        if self.style == "fine":
            ln = r.randint(1, 4)
        elif self.style == "pct":
            ln = r.randint(1, self.hi) if r.random() < 0.5 else 10 ** 9
        else:
            ln = int(self.hi ** r.random()) + (1 if r.random() < 0.5 else 0)
        return r.choice(alive), max(1, ln)


class TraceChooser:
    """replays a recorded list of [thread, events] segments"""

    def __init__(self, trace):
        self.trace = [tuple(x) for x in trace]
        self.i = 0
        self.away = None

    def next(self, alive):
        while self.i < len(self.trace):
            t, n = self.trace[self.i]
            self.i += 1
            if t in alive:
                return t, n
        return alive[0], 10 ** 9


class Sched:
    """Real threads, exactly one released at any time; who runs next is decided only by `chooser`."""

    def __init__(self, bodies, chooser, on_point=None, on_switch=None, max_events=3_000_000):
        self.max_events = max_events
        self.bodies = bodies
        self.n = len(bodies)
        self.chooser = chooser
        self.on_point = on_point
        self.on_switch = on_switch
        self.locks = [REAL_LOCK() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.done = REAL_LOCK()
        self.done.acquire()
        self.ready = threading.Semaphore(0)
        self.ident = {}
        self.alive = list(range(self.n))
        self.blocked = {}
        self.cur = None
        self.budget = 0
        self.seg = 0
        self.trace = []
        self.events = 0
        self.switches = 0
        self.preempt = set()
        self.h = hashlib.sha1()
        self.where = [None] * self.n
        self.inj = [None] * self.n
        self.error = None
        self.deadlock = False
        self.killed = False

    # -- thread side
    def is_sim(self, ident):
        return ident in self.ident

    def _runnable(self):
        return [t for t in self.alive if t not in self.blocked]

    def _pick(self):
        """close the current segment, choose the next one; returns the tid to run or None"""
        if self.cur is not None:
            self.trace.append([self.cur, self.seg])
        self.seg = 0
        run = self._runnable()
        if not run:
            return None
        t, n = self.chooser.next(run)
        self.budget = n
        return t

    def _handoff(self, me, t):
        if t == me:
            return
        self.switches += 1
        w = self.where[me] if me is not None else None
        if w is not None:
            self.h.update(f"{me}@{w[0]}:{w[1]}>{t};".encode())
            wt = self.where[t]
            self.preempt.add((w[0], wt[0] if wt else "-"))
        self.cur = t
        self.locks[t].release()

    def point(self, ev, code, pos):
        me = self.ident.get(_thread.get_ident())
        if me is None or me != self.cur:
            return
        self.events += 1
        if self.events > self.max_events:
            self.killed = True
            raise SimDeadlock("event budget exhausted")
        self.seg += 1
        self.where[me] = (code.co_qualname, pos)
        if self.on_point is not None:
            self.on_point(me, ev, code, pos)
        self.budget -= 1
        if self.budget <= 0:
            t = self._pick()
            if t is not None and t != me:
                self._handoff(me, t)
                self.locks[me].acquire()
                if self.deadlock:
                    raise SimDeadlock()
                if self.on_switch is not None:
                    self.on_switch(me)
        inj = self.inj[me]
        if inj is not None:
            inj.hit(ev, code, pos)

    def force_switch(self):
        me = self.ident[_thread.get_ident()]
        t = self._pick()
        if t is not None and t != me:
            self._handoff(me, t)
            self.locks[me].acquire()
            if self.deadlock:
                raise SimDeadlock()

    def yield_away(self, long):
        """let somebody else run now, for long"""
        me = self.ident.get(_thread.get_ident())
        if me is None or me != self.cur:
            return
        self.chooser.away = (me, long)
        self.force_switch()
        if self.on_switch is not None:
            self.on_switch(me)

    def block_on(self, lock):
        me = self.ident[_thread.get_ident()]
        self.blocked[me] = lock
        t = self._pick()
        if t is None:
            self.deadlock = True
            self.blocked.clear()
            raise SimDeadlock()
        self._handoff(me, t)
        self.locks[me].acquire()
        if self.deadlock:
            raise SimDeadlock()

    def unblock(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    def _thread(self, tid):
        self.ident[_thread.get_ident()] = tid
        self.ready.release()
        self.locks[tid].acquire()
        try:
            self.bodies[tid](tid)
        except SimDeadlock:
            pass
        except BaseException as e:
            import traceback
            self.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
        self.where[tid] = None
        self.alive.remove(tid)
        self.ident.pop(_thread.get_ident(), None)
        t = self._pick()
        if t is None:
            if self.alive:  # everybody else is blocked: wake them with a deadlock
                self.deadlock = True
                self.blocked.clear()
                t = self.alive[0]
                self.cur = t
                self.budget = 10 ** 9
                self.locks[t].release()
                return
            self.done.release()
            return
        self.h.update(f"{tid}.>{t};".encode())
        self.cur = t
        self.locks[t].release()

    def run(self):
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        SCHED[0] = self
        HOOK[0] = self.point
        try:
            for t in ths:
                t.start()
            for _ in ths:
                self.ready.acquire()
            t = self._pick()
            self.cur = t
            self.locks[t].release()
            self.done.acquire()  # a stall outside the seams is caught by the parent's wall guard
            for t in ths:
                t.join()
        finally:
            HOOK[0] = None
            SCHED[0] = None
        if self.error:
            raise RuntimeError("simulated thread body failed: " + self.error)
        return self


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")

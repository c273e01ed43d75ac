"""Executes one history: caller threads x library calls x faults, under the seeded scheduler.

A scenario is a JSON document.  `run(scn, refs)` must be called in a fork of the zygote.
"""
import copy
import gc
import hashlib
import inspect
import _thread
import os
import pickle
import random
import select
import signal
import sys
import time
import warnings
import weakref

import numpy as np
import pandas as pd

from . import core, guide, market, outcome, settings
from .catalog import CLASSES, FUNCS, GROUPS

T0 = 1_700_000_000_000_000_000


def look(o, how):
    """what people, debuggers and containers do to an object they did not write"""
    if how == "repr":
        f"{o!r} {o!s} {o}"
    elif how == "eq":
        o == o, o == 1, o != None, o in [o], o < o  # noqa: E711
    elif how == "bool":
        bool(o), hash(o), len(o)
    elif how == "members":
        inspect.getmembers(o)
    elif how == "vars":
        {k: (v.describe() if isinstance(v, pd.Series) and v.dtype.kind == "f" else repr(v)) for k, v in vars(o).items()}
    elif how == "iter":
        list(o), o[0]
    elif how == "copies":
        copy.copy(o), copy.deepcopy(o)
    elif how == "pickle":
        pickle.dumps(o)
    elif how == "with":
        with o:
            pass
    elif how == "call":
        o()
    elif how == "size":
        sys.getsizeof(o), gc.get_referents(o), dir(o)


LOOKS = ("repr", "eq", "bool", "members", "vars", "iter", "copies", "pickle", "with", "call", "size")


def mod(name):
    return sys.modules["ta." + name]


def seams_on(seed):
    """simulated clocks, entropy, RNG state, no automatic gc"""
    gc.disable()
    core.sim_clock(T0 + (seed % 10_000_019) * 1_000_000_007, 10 ** 15 + (seed % 1009) * 10 ** 9, seed * 2 + 1)
    np.random.seed(seed % (1 << 32))
    random.seed(seed)


def kwargs_of(op):
    kw = dict(op.get("p") or {})
    if op.get("fillna") is not None:
        kw["fillna"] = op["fillna"]
    return kw


class Sim:
    def __init__(self, scn):
        self.scn = scn
        self.data = {i: market.Data(s) for i, s in enumerate(scn["data"])}
        self.objs = {}
        self.frames = {}
        self.live = {}  # key -> [object, encoding, scribbled]
        self.out = {}  # key -> outcome
        self.log = []
        self.viol = []
        self.fired = {}
        self.sched = None
        self.injs = {}
        self.cur = {}
        self.probe = {}
        mon = scn.get("mon", {})
        self.watch = mon.get("inputs", 0)
        self.watch_set = mon.get("settings", 0)
        self.base = None
        if self.watch or mon.get("inputs_end"):
            self.base = [(i, tag, o, market.quick_bytes(o), market.digest(o)) for i, d in self.data.items() for tag, o in d.objects()]
        self.base_set = settings.cheap() if self.watch_set else None
        self.ckpts = {}
        self.built = None

    # ---- monitors
    def violate(self, cls, key, detail):
        if len(self.viol) < 20:
            self.viol.append({"class": cls, "at": key, "detail": detail})

    def check_inputs(self, me, deep=False):
        for i, tag, o, b, d in self.base or ():
            if (market.digest(o) != d) if deep else (market.quick_bytes(o) != b):
                self.violate("input-modified", self.cur.get(me), f"data set {i} ({tag}) was modified" + ("" if deep else " while a call was running"))
                self.base = [t for t in self.base if t[2] is not o]
                return

    def on_point(self, me, ev, code, pos):
        s = self.sched
        if self.watch and s.events % self.watch == 0 and self.base:
            self.check_inputs(me)
        if self.watch_set and s.events % self.watch_set == 0 and self.base_set is not None:
            c = settings.cheap()
            if c != self.base_set:
                bad = [i for i, (x, y) in enumerate(zip(c, self.base_set)) if x != y]
                self.violate("settings-visible", self.cur.get(me), f"process-wide setting #{bad} differs while a call is in {code.co_qualname}")
                self.base_set = None

    # ---- operations
    def args(self, names, ds):
        d = self.data[ds]
        return {c: d.get(c) for c in names}

    def construct(self, op):
        m, names, _, _ = CLASSES[op["c"]]
        return getattr(mod(m), op["c"])(**self.args(names, op["ds"]), **kwargs_of(op))

    def call(self, op, key):
        """the library call itself (the last one if it is made several times in a row); returns the live result"""
        for _ in range(op.get("times", 1) - 1):
            self.call1(op)
        return self.call1(op)

    def call1(self, op):
        k = op["op"]
        if k == "fn":
            m, c, _, _ = FUNCS[op["f"]]
            return getattr(mod(m), op["f"])(**self.args(CLASSES[c][1], op["ds"]), **kwargs_of(op))
        if k == "cls":
            o = self.construct(op)
            if self.built is not None:
                self.built(o)
            return [getattr(o, a)() for a in op["acc"]]
        if k == "make":
            o = self.construct(op)
            self.objs[op["as"]] = o
            return None
        if k == "use":
            return getattr(self.objs[op["o"]], op["acc"])()
        if k == "wrap":
            names, vec = GROUPS[op["f"]]
            df = self.data[op["ds"]].new_frame()
            kw = dict(op.get("kw") or {})
            if not vec:
                kw.pop("vectorized", None)
            return getattr(mod("wrapper"), op["f"])(df, *names, **kw)
        if k == "util":
            d = self.data[op["ds"]]
            f = d.frame if d.frame is not None else d.new_frame()
            return mod("utils").dropna(f)
        raise ValueError(k)

    def act(self, p):
        """something happens at an arbitrary instant inside a library call"""
        do = p["do"]
        self.fired[do] = self.fired.get(do, 0) + 1
        if do == "gc":
            gc.collect()
        elif do == "clock":
            core.advance(p.get("mono", 0), p.get("wall", 0))
        elif do == "reseed":
            np.random.seed(p["seed"])
            random.seed(p["seed"])
        elif do == "yield":
            if self.sched is not None:
                self.sched.yield_away(p.get("long", True))
        elif do == "call":
            me = self.tid()
            save, self.cur[me] = self.cur.get(me), p["key"]
            h = None
            if self.sched is not None and me is not None:
                h, self.sched.inj[me] = self.sched.inj[me], None
            try:
                self.step(p["op"], p["key"], nested=True)
            finally:
                self.cur[me] = save
                if h is not None:
                    self.sched.inj[me] = h
        else:
            raise ValueError(do)

    def tid(self):
        if self.sched is None:
            return None
        return self.sched.ident.get(core._thread.get_ident())

    def side(self, op, key):
        """operations of the environment/caller, not library calls; True if handled"""
        k = op["op"]
        if k == "nop":
            return True
        if k == "scribble":
            self.scribble(op)
        elif k == "part":  # the caller keeps a part of a result and lets go of the rest
            e = self.live.pop(op["res"], None)
            if e is not None:
                x = [x for x in (e[0] if isinstance(e[0], list) else [e[0]]) if isinstance(x, (pd.Series, pd.DataFrame))]
                x = x[op["which"] % len(x)] if x else None
                n = len(x) if x is not None else 0
                how = op["how"]
                if how == "tail":
                    x = x.iloc[n // 2:] if n else None
                elif how == "values":
                    x = x.values if n else None
                elif how == "view":
                    x = x.values[n // 3:] if n else None
                elif how == "shallow":
                    x = x.copy(deep=False) if n else None
                elif how == "index":
                    x = pd.Series(np.zeros(n), index=x.index) if n else None
                if x is not None:
                    self.live[op["res"]] = [x, outcome.enc(x), True if e[2] else False]
                e = x = None
                gc.collect()
        elif k == "amend":
            self.data[op["ds"]].amend(op["pos"], op["col"], op["mul"])
        elif k == "clock":
            core.advance(op.get("mono", 0), op.get("wall", 0))
            if op.get("near"):  # the feed is live: the clock stands near the time its bars are labelled with
                ds, frac, off = op["near"]
                d = self.data.get(ds)
                if d is not None and d.spec["n"]:
                    i = d.get("close").index
                    if isinstance(i, pd.DatetimeIndex):
                        core.set_wall(i[int(frac * (len(i) - 1))].value + int(off * 1e9))
        elif k == "reseed":
            np.random.seed(op["seed"])
            random.seed(op["seed"])
        elif k == "gc":
            gc.collect()
        elif k == "gcmode":
            (gc.enable if op["on"] else gc.disable)()
        elif k == "drop":
            self.objs.pop(op["o"], None)
        elif k == "forget":  # let go of every result so that memory gets reused
            self.live.clear()
            gc.collect()
        elif k == "churn":
            r = random.Random(op["seed"])
            junk = [np.empty(r.randint(1, 400)) for _ in range(60)]
            del junk
        elif k == "newdata":  # same shape, fresh buffers, possibly at a recycled address
            self.data[op["ds"]] = None
            self.data[op["ds"]] = market.Data(op["spec"])
        elif k == "fork":
            self.forked(op, key)
        elif k == "flood":
            self.flood(op, key)
        elif k == "warm":
            self.warm(op)
        elif k == "app":
            settings.app(op)
        elif k == "look":
            o = self.objs.get(op["o"])
            if o is not None:
                try:
                    look(o, op["how"])
                except Exception as e:  # not every object can be compared or measured
                    e.__traceback__ = None
                    del e
        elif k == "ckpt":
            o = self.objs.get(op["o"])
            if o is None:
                return True
            how = op["how"]
            if how == "copy":
                self.objs[op["as"]] = copy.copy(o)
            elif how == "deepcopy":
                self.objs[op["as"]] = copy.deepcopy(o)
            elif how.startswith("pickle"):
                b = pickle.dumps(o, protocol=int(how[6:]))
                self.objs[op["as"]] = pickle.loads(b)
        elif k == "persist":
            o = self.objs.get(op["o"])
            if o is not None:
                self.ckpts[op["o"]] = pickle.dumps(o, protocol=op.get("protocol", 4))
        else:
            return False
        self.fired["env:" + k] = self.fired.get("env:" + k, 0) + 1
        return True

    def forked(self, op, key):
        """this caller forks now, wherever the other callers are; the child uses the library"""
        r, w = os.pipe()
        core.at_fork("before")
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                core.PID[0] = None
                core.HOOK[0], core.SCHED[0], self.sched, self.base, self.base_set, self.watch, self.watch_set = None, None, None, None, None, 0, 0
                got = {}
                core.at_fork("after_in_child")

                def child():
                    for j, o in enumerate(op["ops"]):
                        try:
                            e = outcome.enc(self.call(o, f"{key}f{j}"))
                        except core.SimDeadlock:
                            e = ("X", "blocked")
                        except BaseException as x:
                            e = outcome.enc_exc(x)
                        got[f"{key}f{j}"] = e

                if op.get("thread"):  # the child works in a thread of its own, as a worker process with a pool does
                    done = core.REAL_LOCK()
                    done.acquire()
                    _thread.start_new_thread(lambda: (child(), done.release()), ())
                    done.acquire()
                else:
                    child()
                b = memoryview(pickle.dumps(got, protocol=4))
                while b:
                    b = b[os.write(w, b):]
            finally:
                os._exit(0)
        core.at_fork("after_in_parent")
        os.close(w)
        chunks = []
        while True:
            rd, _, _ = select.select([r], [], [], 20)
            if not rd:
                os.kill(pid, signal.SIGKILL)
                chunks = [pickle.dumps({f"{key}f{j}": ("X", "blocked") for j in range(len(op["ops"]))})]
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        got = pickle.loads(b"".join(chunks)) if chunks else {}
        for j in range(len(op["ops"])):
            kk = f"{key}f{j}"
            o = got.get(kk, ("X", "died"))
            self.log.append((kk, outcome.sig(o)))
            if o[0] == "X":
                self.violate("child-" + o[1], kk, f"a process forked while other threads were inside library calls {'never gets an answer' if o[1] == 'blocked' else 'died'} ({op['ops'][j].get('f') or op['ops'][j].get('c') or op['ops'][j].get('acc')})")
            else:
                self.out[kk] = o

    def warm(self, op):
        """a past: many earlier calls on other data, with other parameters"""
        g = np.random.Generator(np.random.PCG64(op["seed"]))
        spec = {"seed": 0, "n": op["n"], "kind": "walk", "dtype": "float64", "index": "range", "layout": "series", "nan": [], "zerovol": []}
        o = dict(op["call"])
        own = o.get("ds")
        for k in range(op["times"]):
            spec["seed"] = int(g.integers(1 << 30))
            if op["vary"] != "p" or own is None:
                self.data["warm"] = market.Data(dict(spec, n=op["n"] + (k % 150 if op["vary"] == "n" else k % 2)))
                o["ds"] = "warm"
            if op["vary"] == "p" and o.get("p"):
                o["p"] = {x: (v + k if isinstance(v, int) and not isinstance(v, bool) else v) for x, v in op["call"]["p"].items()}
            try:
                self.call1(o)
            except Exception as e:
                e.__traceback__ = None
                del e
        self.data.pop("warm", None)

    def flood(self, op, key):
        """many calls with ever new data; memory in use must level off"""
        r = random.Random(op["seed"])
        g = np.random.Generator(np.random.PCG64(op["seed"]))
        sizes, n, spec = [], op["n"], {"seed": 0, "n": op["n"], "kind": "walk", "dtype": "float64", "index": "range", "layout": "series", "nan": [], "zerovol": []}
        o = dict(op["call"], ds="flood")
        hook, core.HOOK[0] = core.HOOK[0], None
        if op.get("warn"):  # an application that lets warnings through
            import warnings
            warnings.resetwarnings()
            warnings.simplefilter(op["warn"])
            warnings.showwarning = lambda *a, **k: None
        step, k, more, p0 = op["times"] // 3, 0, 12, dict(op["call"].get("p") or {})
        while k < 3 * step or (more and sizes[-1] - sizes[-2] > 0.9 * step):
            if k >= 3 * step and k % step == 0:  # suspicious: watch on for longer, warm-up effects die out
                more -= 1
            spec["seed"] = int(g.integers(1 << 30))
            self.data["flood"] = market.Data(dict(spec, n=n + (k if op.get("vary") == "n" else 60 if op.get("vary") == "p" else k % 3)))
            if op.get("vary") == "p":
                o["p"] = {x: (v + k % 60 if isinstance(v, int) and not isinstance(v, bool) else v) for x, v in p0.items()}
            if op.get("fail") and k % op["fail"] == op["fail"] - 1:
                inj = core.Injector([{"at": r.randint(1, op["span"]), "do": "raise", "kind": "MemoryError"}])
                core.HOOK[0] = inj.hit
            try:
                self.call1(o)
            except BaseException:
                pass
            core.HOOK[0] = inj = None
            self.data["flood"] = None
            k += 1
            if k % step == 0:
                gc.collect()
                sizes.append(sys.getallocatedblocks())
        core.HOOK[0] = hook
        self.probe["calls made while memory was watched"] = self.probe.get("calls made while memory was watched", 0) + k
        if not more:
            what = o.get("f") or o.get("c")
            self.violate("memory-grows", key, f"{what}: every further call keeps more blocks of memory alive, {k} calls on end")

    def retained(self):
        """drop everything the callers held; what is still alive is being held by the library"""
        refs = []

        def add(tag, x):
            try:
                refs.append((tag, weakref.ref(x)))
            except TypeError:
                pass
        for i, d in self.data.items():
            if d is None:
                continue
            for tag, o in d.objects():
                add(f"input {i}.{tag}", o)
                if isinstance(o, pd.Series):
                    a = o._mgr.array if hasattr(o._mgr, "array") else None
                    while isinstance(a, np.ndarray):
                        add(f"the memory of input {i}.{tag}", a)
                        a = a.base
                else:
                    for blk in o._mgr.blocks:
                        a = blk.values
                        while isinstance(a, np.ndarray):
                            add(f"the memory of input {i}.{tag}", a)
                            a = a.base
        for k, o in self.objs.items():
            add(f"the indicator object of {k} ({type(o).__name__})", o)
        for k, (x, _, _) in self.live.items():
            for y in x if isinstance(x, list) else [x]:
                add(f"the result of {k}", y)
                if isinstance(y, pd.Series) and isinstance(y._mgr.array, np.ndarray):
                    add(f"the memory of the result of {k}", y._mgr.array)
        o = x = y = a = d = blk = None
        self.data, self.base, self.built = {}, None, None
        self.objs.clear()
        self.live.clear()
        gc.collect()
        left = sorted({t for t, w in refs if w() is not None})
        self.probe["objects whose release was checked"] = self.probe.get("objects whose release was checked", 0) + len(refs)
        if left:
            self.violate("kept-alive", "end", f"still alive after every caller let go: {', '.join(left[:4])}")

    def scribble(self, op):
        e = self.live.get(op["res"])
        if e is None:
            return
        targets = [x for x in (e[0] if isinstance(e[0], list) else [e[0]]) if isinstance(x, (pd.Series, pd.DataFrame))]
        if not targets:
            return
        x = targets[op.get("which", 0) % len(targets)]
        e[2] = True
        how, n = op["how"], len(x)
        try:
            if how == "fill":
                x.iloc[:] = 777
            elif how == "pos" and n:
                x.iloc[op.get("pos", 0) % n] = 4242
            elif how == "values":
                v = x.values
                if v.flags.writeable:
                    v[...] = -5
                else:
                    x.iloc[:] = -5
            elif how == "iadd":
                x += 1
            elif how == "imul":
                x *= 3
            elif how == "fillna":
                x.fillna(-3, inplace=True)
            elif how == "clip":
                x.clip(upper=0.5, inplace=True)
            elif how == "update":
                x.update(pd.Series([9999] * n, index=x.index))
            elif how == "rename" and isinstance(x, pd.Series):
                x.name = "mine"
            elif how == "attrs":
                x.attrs["owner"] = "me"
            elif how == "drop" and n:
                x.drop(x.index[:1], inplace=True)
        except Exception:
            pass

    def step(self, op, key, nested=False):
        me = self.tid()
        try:
            if self.side(op, key):
                return
        except Exception as e:
            if op["op"] not in ("ckpt", "persist"):
                raise RuntimeError(f"simulator: {op['op']} failed: {e!r}") from e
            self.out[key] = outcome.enc_exc(e)
            self.log.append((key, outcome.sig(self.out[key])))
            return
        inj = core.Injector(op.get("points") or (), self.act)
        if not nested:
            self.cur[me] = key
            self.arm(me, inj)
        res, o = None, None
        try:
            res = self.call(op, key)
        except core.SimDeadlock:
            self.arm(me, None)
            raise
        except BaseException as e:
            o = outcome.enc_exc(e)
            if not self.scn.get("mon", {}).get("retain"):  # a library that keeps the exception keeps what it refers to
                e.__traceback__ = None
            del e
        if not nested:
            self.arm(me, None)
        if o is None:
            o = outcome.enc(res)
        if inj.raised:
            kind = next(p["kind"] for p in inj.fired if p["do"] == "raise")
            self.fired[kind] = self.fired.get(kind, 0) + 1
            if o[0] == "E":
                o = ("F", kind, o[1])
        self.out[key] = o
        if res is not None:
            self.live[key] = [res, o, False]
        self.log.append((key, outcome.sig(o)))
        ds = op.get("ds")
        if self.base and not nested:
            self.check_inputs(me, deep=True)

    def arm(self, me, inj):
        if me is None:
            core.HOOK[0] = None if inj is None else inj.hit
        else:
            self.sched.inj[me] = inj

    def seq(self, ops, tag):
        for k, op in enumerate(ops):
            self.step(op, f"{tag}{k}")

    def run(self, max_events=3_000_000):
        scn = self.scn
        before = settings.full() if scn.get("mon", {}).get("settings_end") else None
        if before is not None:
            settings.audit_on()
        self.seq(scn.get("setup", ()), "S")
        trace, sched = [], None
        if scn.get("threads"):
            sc = scn["sched"]
            ch = core.TraceChooser(sc["trace"]) if "trace" in sc else core.RandomChooser(sc["seed"], sc["style"])

            def body(ops, tid):
                def f(_):
                    if before is not None:
                        np.seterr(**scn.get("errstate", {}))
                        eb = settings.own_thread()
                    for k, op in enumerate(ops):
                        self.step(op, f"{tid}.{k}")
                        if before is not None:
                            et = settings.own_thread()
                            for what in eb:
                                if et[what] != eb[what]:
                                    self.violate("settings-changed", f"{tid}.{k}", f"{what} of the calling thread changed from {str(eb[what])[:80]} to {str(et[what])[:80]}")
                            eb = et
                return f
            sched = self.sched = core.Sched([body(ops, t) for t, ops in enumerate(scn["threads"])], ch,
                                            self.on_point if (self.watch or self.watch_set) else None, max_events=max_events)
            settings._ON[0] = before is not None
            # thread creation by the harness itself happens inside sched.run: the audit hook is muted for it below
            n_threads = len(scn["threads"])
            sched.run()
            settings._ON[0] = False
            trace = sched.trace
            self.sched = None
            if before is not None:
                made = [c for c in settings.CREATION if not c.startswith("_thread.start_new_thread")]
                nt = len(settings.CREATION) - len(made)
                if nt > n_threads:
                    made.append(f"started {nt - n_threads} thread(s)")
                for c in made[:3]:
                    self.violate("settings-changed", "run", f"a call {c}")
            if sched.deadlock:
                self.violate("deadlock", "run", "all remaining threads wait for each other")
            elif sched.killed:
                self.violate("no-progress", "run", "the calls did not finish within the step bound")
        self.seq(scn.get("post", ()), "P")
        if before is not None:
            bad = settings.compare(before, settings.full())
            for b in bad[:4]:
                self.violate("settings-changed", "end", b)
        if self.base is not None:
            self.check_inputs(None, deep=True)
        if scn.get("mon", {}).get("results"):
            for key, (obj, o, scr) in self.live.items():
                if not scr:
                    d = outcome.diff(outcome.enc(obj), o)
                    if d:
                        self.violate("held-result-changed", key, d)
        if scn.get("mon", {}).get("retain"):
            self.retained()
        h = hashlib.sha1(repr(self.log).encode())
        if sched is not None:
            h.update(sched.h.digest())
        return {"viol": self.viol, "out": self.out, "trace": trace, "fired": self.fired, "probe": self.probe,
                "events": sched.events if sched else 0, "switches": sched.switches if sched else 0,
                "preempt": sorted(sched.preempt) if sched else [], "hash": h.hexdigest(), "ckpts": self.ckpts, "reads": core.clock_reads(), "nlog": len(self.log)}


# --------------------------------------------------------------------------- references
def reference(scn, op, amends=(), data=None, acc_only=False):
    """outcome of `op` alone in a pristine process, its number of fault points, and the interesting ones among them"""
    seams_on(scn.get("refseed", 12345))
    sub = dict(scn, threads=None, setup=[], post=[], mon={})
    ds = op.get("ds")
    specs = list(data or scn["data"])
    sub["data"] = []
    s = Sim(sub)
    s.data = {}
    d = market.Data(specs[ds])
    for a in amends:
        d.amend(a["pos"], a["col"], a["mul"])
    s.data[ds] = d
    inj = guide.Recorder()
    if acc_only:
        def built(o):
            inj.__init__()
            inj.observe(o)
        s.built = built
    core.HOOK[0] = inj.hit
    try:
        if op["op"] == "use":
            raise ValueError("resolve use before reference")
        res = s.call(op, "ref")
        if op["op"] == "make":
            res = None
        o = outcome.enc(res)
    except Exception as e:
        o = outcome.enc_exc(e)
    core.HOOK[0] = None
    return o, inj.n, inj.summary()


def reference_use(scn, make, acc, amends=(), data=None):
    op = dict(make, op="cls", acc=[acc])
    op.pop("points", None)
    o, n, w = reference(scn, op, amends, data, acc_only=True)
    if o[0] == "T":
        o = o[2][0]
    return o, n, w


def make_def(scn, name):
    """the make operation behind an object name (following checkpoints)"""
    for _ in range(20):
        found = None
        for ops in [scn.get("setup", ())] + list(scn.get("threads") or ()) + [scn.get("post", ())]:
            for op in ops:
                if op["op"] in ("make", "ckpt") and op.get("as") == name:
                    found = op
                elif op["op"] == "load" and op.get("as") == name:
                    found = op
        if found is None:
            return None
        if found["op"] == "make":
            return found
        name = found["o"]
    return None


def all_ops(scn):
    """(key, op, amends before it, data specs in force) in program order, nested calls included"""
    data0 = list(scn["data"])
    setup_am = {}
    seqs = [("S", scn.get("setup", ()), None)] + [(f"{t}.", ops, t) for t, ops in enumerate(scn.get("threads") or ())] + [("P", scn.get("post", ()), None)]
    am, cur = {}, {i: s for i, s in enumerate(data0)}
    for tag, ops, _ in seqs:
        for k, op in enumerate(ops):
            if op["op"] == "amend":
                am.setdefault(op["ds"], []).append(op)
                continue
            if op["op"] == "newdata":
                cur[op["ds"]] = op["spec"]
                am[op["ds"]] = []
                continue
            snap = [cur[i] for i in range(len(data0))]
            yield f"{tag}{k}", op, {d: list(v) for d, v in am.items()}, snap
            if op["op"] == "fork":
                for j, o in enumerate(op["ops"]):
                    yield f"{tag}{k}f{j}", o, {d: list(v) for d, v in am.items()}, snap
            for p in op.get("points") or ():
                if p["do"] == "call":
                    yield p["key"], p["op"], {d: list(v) for d, v in am.items()}, snap


def references(scn):
    """outcome of every operation alone in a pristine process life (one fork per distinct operation)"""
    memo, refs, counts = {}, {}, guide.Counts()
    for key, op, am, snap in all_ops(scn):
        k = op["op"]
        if k in ("fn", "cls", "make", "wrap", "util"):
            o2 = {x: v for x, v in op.items() if x not in ("points", "times")}
            ds = op["ds"]
            mk = repr((o2, am.get(ds), snap[ds]))
            if mk not in memo:
                memo[mk] = core.in_fork(lambda: reference(scn, o2, am.get(ds, ()), snap))
        elif k == "use":
            m = make_def(scn, op["o"])
            if m is None:
                continue
            ds = m["ds"]
            mk = repr(("use", {x: v for x, v in m.items() if x not in ("points", "times", "as")}, op["acc"], am.get(ds) if op.get("late") else None, snap[ds]))
            if mk not in memo:
                memo[mk] = core.in_fork(lambda: reference_use(scn, m, op["acc"], (), snap))
        else:
            continue
        refs[key], counts[key], counts.where[key] = memo[mk]
    return refs, counts


def judge(scn, refs, res, faults_ok=True):
    """compare every recorded outcome with the pristine one"""
    v = list(res["viol"])
    broken = set()
    for key, op, _, _ in all_ops(scn):
        got = res["out"].get(key)
        if got is None or key not in refs:
            continue
        ref = refs[key]
        if op["op"] == "make" and got[0] == "F":
            broken.add(op["as"])
            continue
        if got[0] == "F":
            continue
        if op["op"] == "use":
            m = make_def(scn, op["o"])
            mo = [k for k, o, _, _ in all_ops(scn) if o is m]
            if mo and res["out"].get(mo[0], ("?",))[0] in ("F", "E"):
                continue  # the object was never built
        d = outcome.diff(got, ref)
        if d:
            what = op.get("f") or op.get("c") or (make_def(scn, op["o"]) or {}).get("c", "") + "." + op.get("acc", "")
            v.append({"class": "wrong-answer", "at": key, "detail": f"{what}: {d}"})
    return v

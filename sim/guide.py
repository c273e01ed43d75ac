"""Directs the seeded search (never the verdict): which classes, wrappers and instants deserve more of the runs.

* code objects of ta that differ from the recorded ones (baseline.json) are *changed*; a survey in forks finds the classes,
  wrappers and helpers that execute them;
* during a pristine reference run, instants right after ta's process-wide state (module globals, class attributes, mutable
  defaults, caches) or the object's own state changes are *hot*.

On the recorded tree nothing is changed or hot and the search is spread evenly."""
import hashlib
import json
import os
import sys
import types

import numpy as np
import pandas as pd

from . import core

PATH = os.path.join(core.VERIF, "sim", "baseline.json")


# --------------------------------------------------------------------------- changed code
def _const(k):
    if isinstance(k, (frozenset, set)):
        return "{" + ",".join(sorted(map(_const, k))) + "}"
    if isinstance(k, tuple):
        return "(" + ",".join(map(_const, k)) + ")"
    return "<code>" if hasattr(k, "co_code") else repr(k)


def code_key(c):
    return os.path.relpath(os.path.realpath(c.co_filename), core.REPO) + "::" + c.co_qualname


def code_digest(c):
    consts = list(c.co_consts)
    if consts and isinstance(consts[0], str) and "\n" in consts[0]:
        consts[0] = ""
    d = (c.co_code, [_const(k) for k in consts], c.co_names, c.co_varnames, c.co_freevars, c.co_cellvars, c.co_argcount, c.co_kwonlyargcount, c.co_flags)
    return hashlib.sha1(repr(d).encode()).hexdigest()[:16]


def numbers(c):
    """whole numbers a code object compares or computes with"""
    out = set()

    def walk(k):
        if isinstance(k, (tuple, frozenset)):
            for x in k:
                walk(x)
        elif isinstance(k, (int, float)) and not isinstance(k, bool) and k == k and abs(k) != float("inf") and k == int(k):
            out.add(int(k))
    for k in c.co_consts:
        if not hasattr(k, "co_code"):
            walk(k)
    return out


def defaults():
    """{function or method: its default values} for all of ta"""
    out = {}

    def put(f):
        f = f.__func__ if isinstance(f, (staticmethod, classmethod)) else f
        while hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        if isinstance(f, types.FunctionType):
            out[code_key(f.__code__)] = repr((f.__defaults__, f.__kwdefaults__))
    for name, m in sorted(sys.modules.items()):
        if name.startswith("ta."):
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == name:
                    for x in list(vars(v).values()):
                        put(x)
                elif getattr(v, "__module__", None) == name:
                    put(v)
    return out


def record():
    out, nums = {}, {}
    for c in core.CODES:
        out.setdefault(code_key(c), set()).add(code_digest(c))
        nums.setdefault(code_key(c), set()).update(numbers(c))
    with open(PATH, "w") as f:
        json.dump({"code": {k: sorted(v) for k, v in sorted(out.items())}, "numbers": {k: sorted(v) for k, v in sorted(nums.items()) if v}, "defaults": dict(sorted(defaults().items()))}, f, indent=0)


CHANGED = set()
APPS = []  # changes of the process that changed code may notice, by the names it uses
_SEES = {"getrlimit": "limits", "resource": "limits", "sched_getaffinity": "cpus", "cpu_count": "cpus", "getswitchinterval": "switch", "ps1": "shell", "argv": "shell", "orig_argv": "shell", "getpriority": "limits",
         "umask": "limits", "__main__": "shell", "getcwd": "cwd", "get_printoptions": "numpy", "getcontext": "decimal", "getrecursionlimit": "recursion", "getLogger": "logging", "get_threshold": "collector",
         "isenabled": "collector", "current_thread": "shell", "get_int_max_str_digits": "limits", "filters": "warn", "gettrace": "shell", "getprofile": "shell", "getpid": "shell", "isatty": "shell", "get_option": "pandas",
         "options": "pandas", "excepthook": "shell", "getbufsize": "numpy", "path": "shell", "dont_write_bytecode": "shell"}
WORDS = []  # names (environment variables, say) that changed code mentions
SIZES = []  # numbers that only changed code mentions: candidate thresholds for data sizes and windows
LONG = []  # such numbers beyond the usual lengths of history
AFFECTED = []  # classes
DEFAULTS = set()  # functions and methods whose default values changed
GROUPS_AFFECTED = []
UTIL = [False]
NCHANGED = [0]


def find_changed():
    try:
        with open(PATH) as f:
            rec = json.load(f)
        base, nums = rec["code"], rec["numbers"]
    except (OSError, ValueError, KeyError):
        return
    ch = [c for c in core.CODES if c.co_name != "<module>" and code_digest(c) not in base.get(code_key(c), ())]
    bodies = [c for c in ch if not c.co_flags & 2]  # class bodies run at import only
    NCHANGED[0] = len(ch)
    CHANGED.update(c for c in ch if c not in bodies)
    DEFAULTS.update(k for k, v in defaults().items() if rec.get("defaults", {}).get(k, v) != v)
    new = set()
    for c in core.CODES:
        if c in CHANGED or c.co_name == "<module>" or not c.co_flags & 2:
            new |= numbers(c) - set(nums.get(code_key(c), ()))
    for c in core.CODES:
        if c in CHANGED or c.co_name == "<module>":
            for x in set(c.co_names) & set(_SEES):
                if _SEES[x] not in APPS:
                    APPS.append(_SEES[x])
            env = {"environ", "getenv", "modules", "find_spec", "import_module"} & set(c.co_names)
            for k in c.co_consts:
                if isinstance(k, str) and len(k) < 40 and k not in WORDS and ((k.isupper() or env) and k.isidentifier() or k.split(".")[0] in ("compute", "mode", "display", "future")):
                    WORDS.append(k)
    WORDS.sort()
    APPS.sort()
    SIZES[:] = sorted(x for x in new if 2 <= x <= 2000)[:24]
    LONG[:] = sorted(x for x in new if 1400 < x <= 12000)[:6]


def survey():
    """called in the parent before the workers start"""
    find_changed()
    if not CHANGED and not DEFAULTS:
        return
    from . import engine, market
    from .catalog import CLASSES, CLASS_NAMES, FUNCS, GROUPS
    spec = {"seed": 5, "n": 70, "kind": "walk", "dtype": "float64", "index": "range", "layout": "series", "nan": [], "zerovol": []}

    def probe(ops):
        def f():
            engine.seams_on(99)
            seen = set()

            def h(ev, code, pos):
                seen.add(code)
            for k, op in enumerate(ops):
                s = engine.Sim({"data": [spec]})
                core.HOOK[0] = h
                try:
                    s.call(op, "x")
                except BaseException:
                    pass
                core.HOOK[0] = None
            return bool(seen & CHANGED)
        try:
            return core.in_fork(f, timeout=60)
        except Exception:
            return False
    own = {x.co_qualname.split(".")[0] for x in CHANGED}  # methods no accessor runs: what copying or pickling executes
    for c in CLASS_NAMES:
        ops = [{"op": "cls", "c": c, "ds": 0, "p": {"window": 9} if c == "SMAIndicator" else {}, "fillna": fl, "acc": [a]} for fl in (False, True) for a in CLASSES[c][3]]
        ops += [{"op": "fn", "f": f, "ds": 0, "p": {}, "fillna": True} for f in FUNCS if FUNCS[f][1] == c]
        names = {k.split("::")[1].split(".")[0] for k in DEFAULTS} | own
        if c in names or names & {f for f in FUNCS if FUNCS[f][1] == c} or CHANGED and probe(ops):
            AFFECTED.append(c)
    for g in GROUPS:
        fs = [c for c in CHANGED if c.co_filename.endswith("wrapper.py")]
        if any(k.endswith("::" + g) for k in DEFAULTS) or fs and probe([{"op": "wrap", "f": g, "ds": 0, "kw": {}}]):
            GROUPS_AFFECTED.append(g)
    UTIL[0] = any(c.co_name == "dropna" for c in CHANGED)


class Scale(int):
    """a cap for windows that remembers how long the data is"""


def scale(cap, n):
    s = Scale(max(2, min(cap, n)))
    s.n = max(2, n)
    return s


def size(r, n, p=0.3, lo=1, hi=1400):
    """a data size: n, or one around a number that only changed code mentions"""
    if LONG and hi >= 1400 and r.random() < 0.08:
        return r.choice(LONG) + r.choice([1, 3, r.randint(4, 60), r.randint(60, 900)])
    c = [x for x in SIZES if lo <= x <= hi]
    if not c or r.random() > p:
        return n
    return max(lo, r.choice(c) + r.choice([-1, 0, 1, 1, 2, 3, r.randint(4, 60), r.randint(4, 60), r.choice(c)]))


def number(r, v, lo, hi, p=0.2):
    c = [x + d for x in SIZES for d in (-1, 0, 1, 2) if lo <= x + d <= hi]
    return r.choice(c) if c and r.random() < p else v


def pick(r, names):
    """a class of `names` that executes changed code, or None (then the regular stratified choice applies)"""
    if not AFFECTED or len(AFFECTED) > 30:
        return None
    ns = [c for c in AFFECTED if c in names]
    if not ns or r.random() > 0.75:
        return None
    return r.choice(ns)


def pick_group(r, names):
    ns = [g for g in GROUPS_AFFECTED if g in names]
    if not ns or r.random() > 0.75:
        return None
    return r.choice(ns)


# --------------------------------------------------------------------------- hot instants
SKIP = (types.ModuleType, types.FunctionType, type, types.BuiltinFunctionType)


def fp(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, np.ndarray):
        return (id(v), hash(v.tobytes()) if v.dtype != object and v.nbytes < 100000 else v.shape)
    if isinstance(v, (pd.Series, pd.DataFrame)):
        try:
            return (id(v), hash(v.values.tobytes()) if v.size < 20000 and v.values.dtype != object else v.shape, repr(getattr(v, "name", None)))
        except Exception:
            return id(v)
    if isinstance(v, core.SimLock):
        return (v.owner is not None, v.depth)
    if depth < 3:
        if isinstance(v, dict):
            return (len(v), tuple((repr(k)[:40], fp(x, depth + 1)) for k, x in list(v.items())[:12]))
        if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == "deque":
            return (len(v), tuple(fp(x, depth + 1) for x in list(v)[:24]))
        if hasattr(v, "cache_info"):
            return tuple(v.cache_info())
        d = getattr(v, "__dict__", None)
        if d:
            return (id(v), tuple((k, fp(x, depth + 1)) for k, x in list(d.items())[:20]))
    return id(v)


class Watch:
    """cheap fingerprint of everything in ta that outlives a call"""

    def __init__(self):
        self.dicts, self.names = [], []
        for name, m in sorted(sys.modules.items()):
            if name != "ta" and not name.startswith("ta."):
                continue
            self._add(m.__dict__)
            for v in list(m.__dict__.values()):
                if isinstance(v, type) and v.__module__ == name:
                    self._add(v.__dict__)
        self.defaults = []
        for d in self.dicts:
            for v in list(d.values()):
                f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
                if isinstance(f, types.FunctionType):
                    for x in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                        if isinstance(x, (list, dict, set)):
                            self.defaults.append(x)
                    if f.__dict__:
                        self.defaults.append(f.__dict__)
        self.obj = None

    def _add(self, d):
        self.dicts.append(d)
        self.names.append([k for k, v in d.items() if not (k.startswith("__") and k.endswith("__")) and not (isinstance(v, SKIP) or isinstance(v, (staticmethod, classmethod, property)))])

    def __call__(self):
        out = []
        for d, ns in zip(self.dicts, self.names):
            out.append(len(d))
            for k in ns:
                out.append(fp(d.get(k)))
        for x in self.defaults:
            out.append(fp(x))
        if self.obj is not None:
            out.append(tuple((k, fp(v, 2)) for k, v in list(vars(self.obj).items())))
        return out


class Recorder(core.Injector):
    """the pristine reference run's hook: counts points, notes hot ones and where each distinct line is"""

    def __init__(self):
        super().__init__()
        self.watch = Watch()
        self.last = None
        self.hot = []
        self.lines = {}

    def observe(self, obj):
        self.watch.obj = obj
        self.last = None

    def hit(self, ev, code, pos):
        if not core.eligible(ev, code, pos):
            return
        self.n += 1
        if ev == "L" and len(self.hot) < 40 and self.n < 4000:
            f = self.watch()
            if self.last is not None and f != self.last:
                self.hot.append(self.n)
            self.last = f
        k = (id(code), ev, pos)
        e = self.lines.get(k)
        if e is None:
            self.lines[k] = [self.n, self.n, code in CHANGED, code.co_filename.endswith("wrapper.py")]
        else:
            e[1] = self.n

    def summary(self):
        hot = sorted({x for n in self.hot for x in (n - 1, n, n + 1) if 1 <= x <= self.n})
        ch = sorted({x for a, b, c, w in self.lines.values() if c for x in (a, b)})
        ln = sorted({x for a, b, c, w in self.lines.values() for x in (a, b)})
        wr = sorted({x for a, b, c, w in self.lines.values() if w for x in (a, b)})
        return {"hot": hot[:60], "changed": ch[:200], "lines": ln[:400], "wrap": wr}


class Counts(dict):
    """fault points per operation, plus where the interesting ones are"""

    def __init__(self):
        super().__init__()
        self.where = {}


def choose(r, counts, key):
    """an instant inside operation `key`"""
    n = counts.get(key, 0)
    w = getattr(counts, "where", {}).get(key) or {}
    u = r.random()
    if w.get("hot") and u < 0.6:
        return r.choice(w["hot"])
    if w.get("changed") and u < 0.8:
        return r.choice(w["changed"])
    if w.get("lines") and r.random() < 0.45:
        return r.choice(w["lines"])
    u = r.random()
    if u < 0.7:
        return 1 + int(r.random() * n)
    return max(1, n - r.randint(0, 12)) if r.random() < 0.6 else r.randint(1, min(n, 12))


def interesting(counts, key):
    w = getattr(counts, "where", {}).get(key) or {}
    return bool(w.get("hot")) * 3 + bool(w.get("changed"))

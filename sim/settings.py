"""Process-wide state a library has no business changing: snapshot and compare."""
import abc
import atexit
import builtins
import contextvars
import collections
import copy
import copyreg
import decimal
import faulthandler
import functools
import gc
import importlib
import itertools
import locale
import logging
import math
import operator
import os
import pickle
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

import numpy as np
import pandas as pd

_CLS = [pd.Series, pd.DataFrame, pd.Index, pd.RangeIndex, pd.DatetimeIndex, pd.core.generic.NDFrame, pd.core.base.IndexOpsMixin,
        pd.core.window.rolling.Rolling, pd.core.window.rolling.RollingAndExpandingMixin, pd.core.window.rolling.BaseWindow,
        pd.core.window.ewm.ExponentialMovingWindow, pd.core.indexing._iLocIndexer, pd.core.indexing._LocIndexer, threading.Thread]
_MODS = [pd, np, np.random, math, random, warnings, time, os, sys, gc, threading, signal, logging, builtins, copyreg, locale, pickle, operator, functools, itertools, collections, copy,
         pd.core.nanops, pd.core.ops, pd.core.common, pd.core.algorithms, pd.core.window.rolling, pd.core.window.ewm, pd.core.window.common, pd.core.window.numba_, pd.core.dtypes.missing,
         pd.core.computation.expressions, pd.core.frame, pd.core.series, pd.core.generic, pd.api.types, np.lib, np.linalg]
_SKIP = {("sys", n) for n in ("last_exc", "last_type", "last_value", "last_traceback", "modules", "path_importer_cache", "stdin")} | {
    ("warnings", "onceregistry"), ("warnings", "_filters_version"), ("warnings", "filters"), ("warnings", "_onceregistry"), ("threading", "_limbo"), ("threading", "_active"), ("random", "_inst"), ("threading", "_counter"),
    ("threading", "_dangling"), ("builtins", "_"), ("threading", "_shutdown_locks")}


_ADDED = tuple(m.__name__ + "." for m in _MODS)


def _cell(v):
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return repr(v)
    return id(v)


def _ids(d, mod):
    return {k: _cell(v) for k, v in d.items() if (mod, k) not in _SKIP and not k.startswith("__warningregistry")}


def _options():
    c = pd._config.config
    out = {}
    for k in c._registered_options:
        if k in c._deprecated_options:
            continue
        out[k] = repr(pd.get_option(k))
    return out


def cheap():
    """process-global settings other threads could see change while a call is running"""
    import pandas._config.config as c
    w = warnings
    return (id(w.filters), len(w.filters), tuple(map(repr, w.filters[:4])), id(w.showwarning), repr(c._global_config.get("mode")),
            repr(c._global_config.get("compute")), len(os.environ), gc.isenabled(), gc.get_threshold(), sys.getrecursionlimit(), sys.getswitchinterval(),
            _rng(), id(np.array_repr), id(pd.Series.rolling), id(pd.Series.ewm), logging.root.manager.disable, logging.root.level,
            id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.excepthook), id(sys.unraisablehook), id(threading.excepthook), locale.setlocale(locale.LC_ALL),
            id(signal.getsignal(signal.SIGINT)), id(signal.getsignal(signal.SIGALRM)), signal.getitimer(signal.ITIMER_REAL), socket.getdefaulttimeout(), len(sys.path), len(logging.root.handlers), id(logging.lastResort),
            repr(c._global_config.get("display")), tracemalloc.is_tracing(), gc.get_debug(), sys.dont_write_bytecode, tuple(sys.monitoring.get_tool(k) for k in range(6)), id(np.seterr), id(time.time), id(time.sleep), id(os.environ), id(gc.collect))


def _rng():
    s = np.random.get_state(legacy=False)
    return (hash(s["state"]["key"].tobytes()), s["state"]["pos"], s["gauss"], hash(random.getstate()))


def _umask():
    try:
        with open("/proc/self/status") as f:
            for ln in f:
                if ln.startswith("Umask"):
                    return ln.split()[1]
    except OSError:
        pass
    return None


def _children():
    try:
        with open(f"/proc/self/task/{threading.get_native_id()}/children") as f:
            return f.read()
    except OSError:
        return None


def own_thread():
    """settings that belong to the calling thread"""
    return {"numpy error state": repr(np.geterr()), "numpy error handler": id(np.geterrcall()), "numpy buffer size": np.getbufsize(),
            "numpy print options": repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])), "decimal context": repr(decimal.getcontext()),
            "blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])), "trace hooks": (id(sys.gettrace()), id(sys.getprofile())),
            "coroutine hooks": repr(sys.get_asyncgen_hooks()) + str(sys.get_coroutine_origin_tracking_depth()),
            "context variables": sorted((v.name, _cell(x)) for v, x in contextvars.copy_context().items() if v.name not in _OWN_VARS)}


_OWN_VARS = {"numpy_errstate", "format_options", "decimal_context"}


def _everything():
    """every function, class and method of pandas, numpy and the standard library"""
    out = {}
    for n, m in list(sys.modules.items()):
        root = n.partition(".")[0]
        if type(m) is not types.ModuleType or not (root in ("pandas", "numpy") or root in sys.stdlib_module_names) or n == "__main__":
            continue
        for k, v in list(vars(m).items()):
            if callable(v) and (n, k) not in _SKIP:
                out[n, k] = v
            if type(v) in (type, abc.ABCMeta) and v.__module__ == n and root in ("pandas", "numpy"):
                for a, x in list(vars(v).items()):
                    if callable(x):
                        out[n, k, a] = x
    return out


def full():
    out = {}
    out["numpy.errstate"] = repr(np.geterr()) + repr(np.geterrcall()) + str(np.getbufsize())
    out["numpy.printoptions"] = repr(sorted(np.get_printoptions().items(), key=lambda t: t[0]))
    for k, v in _options().items():
        out[f"pandas.options.{k}"] = v
    out["warnings.filters"] = repr(warnings.filters)
    out["warnings.hooks"] = (id(warnings.showwarning), id(warnings.formatwarning), getattr(warnings, "defaultaction", None) or getattr(warnings, "_defaultaction", None))
    out["random"] = _rng()
    out["environ"] = dict(os.environ)
    out["cwd"] = os.getcwd()
    out["files in cwd"] = sorted(os.listdir("."))
    out["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(c) for c in gc.callbacks])
    out["sys.limits"] = (sys.getrecursionlimit(), sys.getswitchinterval(), sys.dont_write_bytecode)
    out["sys.hooks"] = (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile()), id(threading.excepthook))
    out["sys.streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    out["sys.path"] = list(sys.path) + [id(f) for f in sys.meta_path]
    out["threads"] = threading.active_count()
    out["locale"] = locale.setlocale(locale.LC_ALL)
    out["tz"] = (time.tzname, time.timezone)
    out["logging"] = (logging.root.level, logging.root.manager.disable, [id(h) for h in logging.root.handlers], id(logging.getLoggerClass()), id(logging.lastResort))
    out["signals"] = [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE)]
    out["itimer"] = signal.getitimer(signal.ITIMER_REAL)
    out["open files"] = len(os.listdir("/proc/self/fd"))
    out["umask"] = _umask()
    out["rlimits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU, resource.RLIMIT_CORE)]
    out["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    out["thread stack size"] = threading.stack_size()
    out["pickle registrations"] = (len(copyreg.dispatch_table), sorted(map(str, copyreg._extension_registry)))
    out["float info"] = sys.float_repr_style
    out["thread hooks"] = (id(threading._trace_hook), id(threading._profile_hook))
    out["asyncgen hooks"] = repr(sys.get_asyncgen_hooks()) + str(sys.get_coroutine_origin_tracking_depth())
    out["children"] = _children()
    out["int digits"] = sys.get_int_max_str_digits()
    out["gc.freeze"] = gc.get_freeze_count()
    out["atexit"] = atexit._ncallbacks()
    out["memory tracing"] = (tracemalloc.is_tracing(), tracemalloc.get_traceback_limit() if tracemalloc.is_tracing() else 0)
    out["monitoring tools"] = [sys.monitoring.get_tool(k) for k in range(6)]
    out["faulthandler"] = faulthandler.is_enabled()
    for k, v in list(logging.root.manager.loggerDict.items()):
        if isinstance(v, logging.Logger):
            out[f"logger {k}"] = (v.level, v.disabled, v.propagate, len(v.handlers))
    out["decimal"] = repr(decimal.getcontext())
    out["socket.timeout"] = socket.getdefaulttimeout()
    out["."] = _everything()
    for c in _CLS:
        for k, v in _ids(vars(c), c.__name__).items():
            if not k.startswith("_abc") and k not in ("__dict__", "__weakref__", "__static_attributes__"):
                out[f"{c.__name__}.{k}"] = v
    for m in _MODS:
        for k, v in _ids(vars(m), m.__name__).items():
            out[f"{m.__name__}.{k}"] = v
    return out


def compare(before, after):
    """names of settings that changed (modules loaded when first needed are not changes)"""
    bad = []
    now = after.get(".", {})
    for k, v in before.get(".", {}).items():
        if k[0] in sys.modules and now.get(k) is not v:
            bad.append(".".join(k))
    for k, v in before.items():
        if k == ".":
            continue
        if k not in after:
            bad.append(f"{k} removed")
        elif after[k] != v:
            a, b = repr(v), repr(after[k])
            bad.append(k if k.count(".") and isinstance(v, int) else f"{k}: {a[:70]} -> {b[:70]}")
    cls = {c.__name__ for c in _CLS}
    for k in after:
        if k in before:
            continue
        if k.split(".")[0] in cls:
            bad.append(f"{k} added")
        elif k.startswith(_ADDED):
            m, _, a = k.rpartition(".")
            v = getattr(sys.modules.get(m), a, None)
            if not isinstance(v, types.ModuleType):
                bad.append(f"{k} added")
    return bad


def gen_app(r, words, apps=()):
    """something the embedding application may change at any time without changing what a call should return"""
    what = r.choice(["display", "numpy", "cpus", "environ", "cwd", "recursion", "warn", "switch", "logging", "decimal", "pandas", "pandas", "import", "import", "limits", "shell", "collector"])
    if apps and r.random() < 0.5:
        what = r.choice(apps)
    opt = r.choice([w for w in words if w in _PD] or list(_PD)) if what == "pandas" or r.random() < 0.3 and any(w in _PD for w in words) else None
    if opt:
        return {"what": "pandas", "a": 0, "b": 0, "name": opt, "value": r.choice(_PD[opt])}
    return {"what": what, "a": r.randint(1, 12), "b": r.randint(5, 100), "name": r.choice(words) if words and r.random() < 0.8 else r.choice(["DEBUG", "PYTHONPATH", "OMP_NUM_THREADS", "TA_DEBUG"]),
            "value": r.choice(["1", "0", "true", "", "4", None])}


_STUBS_NO = {"numba", "numexpr", "bottleneck", "matplotlib", "scipy", "pyarrow"}  # pandas itself would try to use these
# options that say how pandas works or prints, not what its answers are (neither numexpr nor bottleneck is installed here)
_PD = {"compute.use_numexpr": [False, True], "compute.use_bottleneck": [False, True], "mode.copy_on_write": [True, True, False], "mode.chained_assignment": [None, "warn"],
       "display.width": [20, 200], "display.max_columns": [3, 50], "display.date_dayfirst": [True, False], "display.chop_threshold": [0.5, None], "display.encoding": ["ascii", "utf-8"],
       "display.memory_usage": [False, True], "mode.string_storage": ["python"], "styler.format.precision": [2, 9], "display.colheader_justify": ["left", "right"], "io.hdf.dropna_table": [True, False],
       "display.large_repr": ["info", "truncate"], "display.show_dimensions": [True, False], "display.max_info_rows": [3, 1000], "mode.sim_interactive": [True, False]}


def app(op):
    what, a, b = op["what"], op["a"], op["b"]
    if what == "pandas":
        pd.set_option(op["name"], op["value"])
    if what == "display":
        pd.set_option("display.precision", a)
        pd.set_option("display.max_rows", b)
        pd.set_option("display.float_format", (lambda x: f"{x:.{a % 5}f}") if b & 1 else None)
    elif what == "import":
        stock = ["fractions", "statistics", "json", "csv", "sqlite3", "multiprocessing", "concurrent.futures", "asyncio", "unittest", "doctest", "pdb", "cProfile", "zoneinfo", "email", "http.client", "curses", "ctypes", "xml.dom", "wave", "scipy",
                 "matplotlib", "numba", "talib", "pytest", "IPython"]
        for name in {op["name"], op["name"].lower(), stock[b % len(stock)]}:
            try:
                importlib.import_module(name)
            except Exception:
                if name not in _STUBS_NO and name.isidentifier():
                    sys.modules.setdefault(name, types.ModuleType(name))
    elif what == "numpy":
        np.set_printoptions(precision=a, suppress=bool(b & 1), threshold=b)
    elif what == "cpus":
        os.cpu_count = lambda: a
        os.sched_getaffinity = lambda pid=0: set(range(a))
    elif what == "environ":
        if op["value"] is None:
            os.environ.pop(op["name"], None)
        else:
            os.environ[op["name"]] = op["value"]
    elif what == "cwd":
        os.makedirs("elsewhere", exist_ok=True)
        os.chdir("elsewhere")
    elif what == "recursion":
        sys.setrecursionlimit(800 + 100 * a)
    elif what == "warn":
        warnings.simplefilter("ignore" if b & 1 else "always")
    elif what == "switch":
        sys.setswitchinterval(0.001 * a)
    elif what == "limits":
        for k, v in ((resource.RLIMIT_NOFILE, 200 + 10 * b), (resource.RLIMIT_AS, (40 + a) << 30), (resource.RLIMIT_CORE, 0), (resource.RLIMIT_CPU, 100_000 + b), (resource.RLIMIT_FSIZE, (1 + a) << 30)):
            hard = resource.getrlimit(k)[1]
            if hard == resource.RLIM_INFINITY or hard >= v:
                resource.setrlimit(k, (v, hard))
        os.umask([0o22, 0o77, 0][b % 3])
        sys.set_int_max_str_digits([0, 700, 100_000][a % 3])
    elif what == "shell":  # an interactive session, a frozen program, another entry script
        m = sys.modules["__main__"]
        if b & 1:
            sys.ps1, sys.ps2 = ">>> ", "... "
            m.__file__ = "<stdin>"
        else:
            m.__file__ = "/opt/app/main.py"
            sys.frozen = True
        sys.argv[:] = [["app", "--ta", str(a)], [""], ["pytest", "-q"]][b % 3]
        sys.path.insert(0, "/nonexistent/app")
        sys.dont_write_bytecode = not sys.dont_write_bytecode
        if threading.current_thread() is not threading.main_thread() or b & 2:
            threading.current_thread().name = f"worker-{a}"
    elif what == "collector":
        gc.set_threshold(100 * a, b % 20 + 1, 10)
    elif what == "logging":
        logging.root.setLevel([10, 20, 30, 40][b % 4])
        logging.disable(0 if b & 1 else 50)
    elif what == "decimal":
        decimal.getcontext().prec = a + 1


CREATION = []  # file/socket/process creation seen by the audit hook
_ON = [False]


def audit_on():
    def hook(ev, args):
        if not _ON[0]:
            return
        if ev == "open":
            mode, flags = args[1], args[2]
            wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if wr and str(args[0]) not in ("/dev/null",):
                CREATION.append(f"opened {str(args[0])!r} for writing")
        elif ev in ("socket.connect", "socket.bind", "subprocess.Popen", "os.system", "os.fork", "os.exec", "os.posix_spawn", "os.remove", "os.rename", "os.mkdir",
                    "os.rmdir", "os.chdir", "os.putenv", "os.unsetenv", "os.kill", "_thread.start_new_thread", "signal.pthread_kill", "urllib.Request", "mmap.__new__", "shutil.rmtree", "tempfile.mkstemp"):
            CREATION.append(f"{ev} {str(args)[:60]}")
    sys.addaudithook(hook)

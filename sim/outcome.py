"""Canonical, comparable form of what a library call did."""
import hashlib

import numpy as np
import pandas as pd


def _idx(i):
    h = hashlib.blake2b(digest_size=8)
    h.update(repr((type(i).__name__, str(i.dtype), list(i.names), len(i))).encode())
    v = np.asarray(i.values)
    h.update(repr(v.tolist()).encode() if v.dtype == object else v.tobytes())
    return h.hexdigest()


def _canon(a):
    a = np.array(a)  # copy
    if a.dtype.kind == "f":
        a[np.isnan(a)] = np.nan  # one NaN
        a = a + 0.0  # -0.0 -> 0.0
    return a


def enc(x):
    if isinstance(x, pd.Series):
        return ("S", str(x.dtype), repr(x.name), _idx(x.index), _canon(x.values))
    if isinstance(x, pd.DataFrame):
        return ("D", [repr(c) for c in x.columns], _idx(x.index), [(str(x.iloc[:, j].dtype), _canon(x.iloc[:, j].values)) for j in range(x.shape[1])])
    if isinstance(x, np.ndarray):
        return ("A", str(x.dtype), x.shape, _canon(x))
    if isinstance(x, (list, tuple)):
        return ("T", type(x).__name__, [enc(y) for y in x])
    return ("V", type(x).__name__, repr(x))


def enc_exc(e):
    return ("E", type(e).__name__)


def _veq(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return repr(a.tolist()) == repr(b.tolist())
    return a.tobytes() == b.tobytes()


def _vdiff(a, b):
    if a.shape != b.shape:
        return f"length {a.shape} instead of {b.shape}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype} instead of {b.dtype}"
    if a.dtype == object:
        bad = [i for i in range(len(a)) if repr(a[i]) != repr(b[i])]
    else:
        bad = np.flatnonzero(~((a == b) | ((a != a) & (b != b)))).tolist()
    i = bad[0] if bad else 0
    return f"{len(bad)} of {a.size} values differ, first at position {i}: {a.flat[i]!r} instead of {b.flat[i]!r}"


def diff(a, b):
    """None if outcome a equals outcome b, else a description"""
    if a[0] != b[0]:
        f = lambda o: f"{o[1]} raised" if o[0] == "E" else {"S": "a series", "D": "a frame"}.get(o[0], o[0])
        return f"{f(a)} instead of {f(b)}"
    k = a[0]
    if k == "S":
        if a[1] != b[1]:
            return f"dtype {a[1]} instead of {b[1]}"
        if a[2] != b[2]:
            return f"name {a[2]} instead of {b[2]}"
        if a[3] != b[3]:
            return "index differs"
        return None if _veq(a[4], b[4]) else _vdiff(a[4], b[4])
    if k == "D":
        if a[1] != b[1]:
            x = [c for c in a[1] if c not in b[1]]
            y = [c for c in b[1] if c not in a[1]]
            return f"columns differ (unexpected {x[:4]}, missing {y[:4]}, order {'same' if x or y else 'changed'})"
        if a[2] != b[2]:
            return "index differs"
        for c, (ta, va), (tb, vb) in zip(a[1], a[3], b[3]):
            if ta != tb:
                return f"column {c}: dtype {ta} instead of {tb}"
            if not _veq(va, vb):
                return f"column {c}: {_vdiff(va, vb)}"
        return None
    if k == "A":
        return None if _veq(a[3], b[3]) else _vdiff(a[3], b[3])
    if k == "T":
        if len(a[2]) != len(b[2]):
            return "length differs"
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            d = diff(x, y)
            if d:
                return f"item {i}: {d}"
        return None
    return None if a == b else f"{a[1:]} instead of {b[1:]}"


def sig(o):
    """short fingerprint of an outcome, for event logs"""
    h = hashlib.blake2b(digest_size=6)

    def w(x):
        if isinstance(x, np.ndarray):
            h.update(repr(x.tolist()).encode() if x.dtype == object else x.tobytes())
        elif isinstance(x, (list, tuple)):
            for y in x:
                w(y)
        else:
            h.update(repr(x).encode())
    w(o)
    return h.hexdigest()

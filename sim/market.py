"""Seeded market data: a JSON spec fully determines a data set (values, dtypes, labels, memory layout)."""
import copy
import hashlib

import numpy as np
import pandas as pd

from . import guide

ODD = ["zero", "zerobar", "inf", "-inf", "neg", "frozen", "huge", "crossed", "same"]
COLS = ["open", "high", "low", "close", "volume"]


def gen_spec(r, n=None, plain=False, nmax=120):
    if n is None:
        n = r.choices([r.randint(1, 6), r.randint(7, 30), r.randint(31, 75), r.randint(60, nmax), r.randint(100, 260)], [2, 4, 8, 5, 1])[0]
        n = guide.size(r, n)
    s = {"seed": r.randrange(1 << 31), "n": n,
         "kind": r.choices(["walk", "trend", "flat", "ties", "spiky", "tiny", "huge", "saw", "calm", "ticks"], [7, 2, 1, 3, 2, 1, 1, 1, 1, 1])[0],
         "dtype": "float64", "index": "range", "layout": "frame", "nan": [], "zerovol": []}
    if r.random() < 0.15:  # another unit of trade: whole lots, or fractions of a coin
        s["lot"] = r.choice([1e6, 1e6, 1e9, 1e-3, 1e-5])
    if not plain:
        s["dtype"] = r.choices(["float64", "float32", "int64"], [10, 1, 1])[0]
        s["index"] = r.choices(["range", "dt", "tz", "gap", "dup", "float", "str", "shuffled", "desc", "multi", "freq", "period", "back", "const"], [10, 6, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1])[0]
        s["layout"] = r.choices(["frame", "series", "view", "readonly", "strided", "alias", "unnamed"], [6, 5, 3, 2, 2, 1, 3])[0]
        if r.random() < 0.15 and n > 4 and s["dtype"] != "int64":
            s["nan"] = sorted(set(r.randrange(1, n) for _ in range(r.randint(1, 3))))
            if r.random() < 0.3:  # an outage
                s["nan"] = sorted(set(s["nan"]) | set(range(s["nan"][0], min(n, s["nan"][0] + r.choice([3, 5, 9])))))
        if r.random() < 0.15 and n > 4 and s["dtype"] != "int64":  # one field missing in an otherwise good bar
            s["nancol"] = [[r.randrange(n), r.choice(COLS)] for _ in range(r.randint(1, 3))]
            if r.random() < 0.5:  # for a while
                a = r.randrange(n)
                s["nancol"] += [[x, c] for c in r.choice([["high"], ["low"], ["high", "low"], ["volume"], ["close"]]) for x in range(a, min(n, a + r.choice([2, 3, 6, 12])))]
        if r.random() < 0.12 and s["dtype"] != "int64":  # bars no healthy exchange sends
            s["odd"] = [[r.randrange(n), r.choice(ODD), r.choice(COLS), r.choice([1, 1, 2, 8])] for _ in range(r.randint(1, 3))]
        if r.random() < 0.05 and s["dtype"] != "int64":  # a late starter: nothing known at first
            s["nan"] = sorted(set(s["nan"]) | set(range(r.randint(1, min(5, n)))))
        if r.random() < 0.1 and n > 4:
            s["zerovol"] = sorted(set(r.randrange(1, n) for _ in range(r.randint(1, 4))))
    return s


def twin(r, spec):
    """a different data set that a careless cache key could mistake for `spec`"""
    t = copy.deepcopy(spec)
    mode = r.choice(["mid", "mid", "vol", "perm", "ends", "hl", "reidx", "last", "eps", "swap", "scale"])
    t["twin"] = {"mode": mode, "seed": r.randrange(1 << 31)}
    if mode == "reidx":
        t["index"] = r.choice([i for i in ("range", "dt", "str", "float") if i != spec["index"]])
    return t


def values(spec):
    """dict of float arrays (before dtype/layout)"""
    g = np.random.Generator(np.random.PCG64(spec["seed"]))
    n, kind = spec["n"], spec["kind"]
    z = g.standard_normal(n)
    if kind == "trend":
        c = 50 + np.arange(n) * (0.7 if spec["seed"] & 1 else 0.3) + 0.05 * z
        if spec["seed"] & 2:
            c = c[::-1].copy()
    elif kind == "flat":
        c = np.full(n, 20.0)
        c[g.integers(0, n, max(1, n // 10))] += 1.0
    elif kind == "ties":
        c = 30 + np.cumsum(g.integers(-1, 2, n)).astype(float)
        c = np.abs(c) + 5
    elif kind == "spiky":
        c = 40 * np.exp(np.cumsum(0.01 * z))
        c[g.integers(0, n, max(1, n // 15))] *= 1.6
    elif kind == "saw":
        c = 25 + 5 * np.abs(((np.arange(n) * 0.37) % 2) - 1) + 0.1 * z
    elif kind == "calm":  # a pegged coin: moves in the sixth digit
        c = 1.0 + 2e-6 * z
    elif kind == "spread":  # the difference of two prices: may be negative or zero
        c = np.round(np.cumsum(z), 2) - (3.0 if spec["seed"] & 1 else 0.0) + 0.0  # there is no price of minus zero
    else:
        c = 60 * np.exp(np.cumsum(0.02 * z))
    wide = 1e-6 if kind == "calm" else 0.01
    wide = wide * c if kind != "spread" else 0.4
    sp = np.abs(g.standard_normal(n)) * wide
    sp2 = np.abs(g.standard_normal(n)) * wide
    o = np.concatenate([[c[0]], c[:-1]])
    h, l = np.maximum(o, c) + sp, np.minimum(o, c) - sp2
    v = np.floor(1000 + 900 * np.abs(g.standard_normal(n)))
    if kind == "ties":
        h, l = np.ceil(h), np.floor(l)
        v = np.floor(v / 100) * 100
    if kind == "flat":
        h, l = c + 0.5, c - 0.5
    out = {"open": o, "high": h, "low": l, "close": c.copy(), "volume": v}
    if kind == "ticks" or kind == "spread" and spec["seed"] & 2:  # prices in cents, or in ticks of a quarter
        for x in ("open", "high", "low", "close"):
            out[x] = np.round(out[x], 2) + 0.0 if kind == "ticks" or spec["seed"] & 4 else np.round(4 * out[x]) / 4 + 0.0
    if spec.get("lot"):
        out["volume"] = out["volume"] * spec["lot"]
    if kind in ("tiny", "huge"):
        k = 1e-7 if kind == "tiny" else 1e7
        for x in ("open", "high", "low", "close"):
            out[x] = out[x] * k
    for i in spec.get("zerovol", ()):
        out["volume"][i] = 0.0
    tw = spec.get("twin")
    if tw:
        gg = np.random.Generator(np.random.PCG64(tw["seed"]))
        m = tw["mode"]
        if m == "mid" and n > 2:
            i = int(gg.integers(1, n - 1))
            for x in ("close", "high", "low", "open"):
                out[x][i] *= 1.25
            out["volume"][i] += 500
        elif m == "vol":
            out["volume"] = np.floor(out["volume"] * (1 + gg.random(n)))
            out["close"] = np.clip(out["close"] * (1 + 0.002 * gg.standard_normal(n)), out["low"], out["high"])
        elif m == "perm":
            p = gg.permutation(n)
            for x in out:
                out[x] = out[x][p]
        elif m == "ends":
            for x in ("close", "high", "low", "open"):
                out[x][0] *= 1.1
                out[x][-1] *= 0.9
            out["volume"][0] += 300
            out["volume"][-1] += 700
        elif m == "eps":  # a correction in the last digits
            i = int(gg.integers(0, n))
            for x in ("close", "high", "low", "open"):
                out[x][i] *= 1 + 1e-6
        elif m == "swap" and n > 3:  # same values, same sum, another order
            i = int(gg.integers(0, n - 1))
            j = int(gg.integers(0, n))
            for x in out:
                out[x][i], out[x][j] = out[x][j], out[x][i]
        elif m == "scale":
            for x in ("close", "high", "low", "open"):
                out[x] = out[x] * 2.0
        elif m == "last":
            for x in ("close", "high", "low", "open"):
                out[x][-1] *= 1.13
            out["volume"][-1] += 450
        elif m == "hl":
            out["high"] = out["high"] + 0.03 * np.abs(out["close"])
            out["low"] = out["low"] - 0.05 * np.abs(out["close"])
            out["close"] = out["low"] + (out["high"] - out["low"]) * gg.random(n)
            out["volume"] = out["volume"][::-1].copy()
    for i, pos, col, mul in spec.get("amend", ()):  # later in-place corrections by the data's owner
        if 0 <= pos < n:
            out[col][pos] *= mul
    for i, k, col, ln in spec.get("odd") or ():
        j = slice(i, min(n, i + ln))
        if i >= n:
            continue
        if k == "frozen":
            for x in ("open", "high", "low"):
                out[x][j] = out["close"][i]
            out["close"][j] = out["close"][i]
        elif k == "crossed":
            hh = out["high"][j].copy()
            out["high"][j] = out["low"][j]
            out["low"][j] = hh
        elif k == "zerobar":
            for x in out:
                out[x][j] = 0.0
        elif k == "same":
            out[col][j] = out[col][i]
        elif k == "neg":
            out[col][j] = -out[col][j]
        else:
            out[col][j] = {"zero": 0.0, "inf": np.inf, "-inf": -np.inf, "huge": 1e18, "negzero": -0.0, "denormal": 5e-324, "nan": np.nan, "one": 1.0}[k]
    for i in spec.get("nan", ()):
        if i < n:
            for x in out:
                out[x][i] = np.nan
    for i, x in spec.get("nancol") or ():
        if i < n:
            out[x][i] = np.nan
    return out


def labels(kind, n, seed=0):
    g = np.random.Generator(np.random.PCG64(seed + 77))
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "dt":
        return pd.date_range("2021-03-01 09:30", periods=n, freq="60s", name="date")
    if kind == "tz":
        return pd.date_range("2021-03-27 22:00", periods=n, freq="37min", tz="Europe/Madrid", name="ts")
    if kind == "gap":
        return pd.Index(np.cumsum(g.integers(1, 5, n)) + 3)
    if kind == "dup":
        return pd.Index(np.arange(n) // 2 + 1)
    if kind == "float":
        return pd.Index(1.6e9 + np.cumsum(g.random(n)) * 60)
    if kind == "str":
        return pd.Index([f"b{(i * 7919) % 100003}" for i in range(n)], dtype=object)
    if kind == "shuffled":
        return pd.Index(g.permutation(n))
    if kind == "desc":
        return pd.RangeIndex(n, 0, -1)
    if kind == "neg":
        return pd.Index(np.arange(n) - n // 2)
    if kind == "const":
        return pd.Index([5] * n)
    if kind == "back":
        a = np.arange(n) * 60_000_000_000
        k = n // 2
        a[k:] -= 60_000_000_000 * (n // 4 + 1)
        return pd.DatetimeIndex(a + 1_600_000_000_000_000_000)
    if kind == "freq":  # a regular calendar that knows its frequency
        return pd.date_range("2019-12-28", periods=n, freq=["D", "B", "h", "W", "ME" if n < 2500 else "h"][seed % 5])
    if kind == "period":
        return pd.period_range("2015-01", periods=n, freq="M", name="month")
    if kind == "delta":
        return pd.to_timedelta(np.arange(n) * 90, unit="s")
    if kind == "cat":
        return pd.CategoricalIndex([f"k{(i * 7) % (n + 1)}" for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_arrays([["x"] * n, np.arange(n)], names=["sym", "t"])
    if kind == "syms":  # several instruments in one log
        return pd.MultiIndex.from_arrays([np.array(["x", "y", "z"])[np.arange(n) % (seed % 3 + 1)], pd.date_range("2022-03-01", periods=n, freq="h")], names=["sym", "t"])
    if kind == "nat":  # bars nobody stamped
        a = pd.date_range("2022-03-01", periods=n, freq="h").to_numpy().copy()
        a[g.random(n) < 0.1] = np.datetime64("NaT")
        return pd.DatetimeIndex(a)
    if kind == "nolabel":
        a = np.arange(n).astype(float)
        a[g.random(n) < 0.1] = np.nan
        return pd.Index(a)
    if kind == "mixed":
        return pd.Index([i if i % 3 else f"s{i}" for i in range(n)], dtype=object)
    if kind == "interval":
        return pd.interval_range(0, n, periods=n) if n else pd.RangeIndex(0)
    if kind == "eons":  # coarse stamps far outside what nanoseconds can count
        return pd.DatetimeIndex((np.arange(n) * 86400 * 30 + [100000000000, -50000000000, 32503680000][seed % 3]).astype("datetime64[s]"))
    if kind == "millis":
        return pd.DatetimeIndex((np.arange(n) * 60000 + 1_640_000_000_000).astype("datetime64[ms]"), name="t")
    if kind == "uint":
        return pd.Index(np.arange(n).astype("uint64") + np.uint64(2 ** 63 + 9))
    if kind == "text":
        return pd.Index(pd.array([f"t{(i * 31) % (n + 2)}" for i in range(n)], dtype="string"))
    if kind == "Int64":
        return pd.Index(pd.array([None if g.random() < 0.1 else int(i) for i in range(n)], dtype="Int64"))
    if kind == "bool":
        return pd.Index(np.arange(n) % 3 == 0)
    if kind == "int8":
        return pd.Index((np.arange(n) % 100).astype("int8"))
    if kind == "bytes":
        return pd.Index([b"k%d" % i for i in range(n)], dtype=object)
    if kind == "tuples":
        return pd.Index([("x", i % 4) for i in range(n)], dtype=object, tupleize_cols=False)
    if kind == "dst":  # the hour that comes twice
        return pd.date_range("2021-10-30 20:00", periods=n, freq="20min", tz="Europe/Madrid")
    if kind == "cplx":
        return pd.Index(np.arange(n) * 1j)
    if kind == "inf":
        a = np.arange(n).astype(float)
        a[g.random(n) < 0.2] = np.inf
        a[g.random(n) < 0.1] = -np.inf
        return pd.Index(a)
    raise ValueError(kind)


class Data:
    """one built data set: Series per column plus whatever parent storage they are views of"""

    def __init__(self, spec):
        self.spec = spec
        vals, n = values(spec), spec["n"]
        idx = labels(spec["index"], n, spec["seed"] % 1000)
        lay = spec["layout"]
        self.parents = []
        if spec["dtype"] != "float64":
            for c in vals:
                a = vals[c]
                vals[c] = (np.round(a).astype("int64") if spec["dtype"] == "int64" else a.astype("float32"))
        if lay == "alias":  # the caller passes one and the same object for every price
            vals["open"] = vals["high"] = vals["low"] = vals["close"]
        if lay in ("frame", "alias"):
            self.frame = pd.DataFrame(vals, index=idx)
            self.col = None
            if lay == "alias":
                s = pd.Series(vals["close"], index=idx, name="px")
                self.col = {c: s for c in COLS[:4]}
                self.col["volume"] = pd.Series(vals["volume"], index=idx, name="volume")
        elif lay == "view":
            pad = 3
            big = pd.DataFrame({c: np.concatenate([a[:1].repeat(pad), a, a[-1:].repeat(pad)]) for c, a in vals.items()})
            self.parents.append(big)
            sub = big.iloc[pad:pad + n]
            self.col = {c: pd.Series(sub[c].values, index=idx, name=c, copy=False) for c in COLS}
            self.frame = None
        else:
            self.col = {}
            for c, a in vals.items():
                if lay == "strided":
                    base = np.repeat(a, 2)
                    self.parents.append(pd.Series(base))
                    a = base[::2]
                elif lay == "readonly":
                    a = a.copy()
                    a.flags.writeable = False
                # a bare series has no name, or one that says nothing about the column
                name = c if lay != "unnamed" else (None, None, "AAPL", 0)[spec["seed"] % 4]
                own = idx
                if lay == "unnamed" and spec["seed"] // 4 % 2 and not isinstance(idx, pd.MultiIndex):  # the columns came from different tables
                    own = idx.rename((idx.name, None, "bar", c)[(spec["seed"] // 8 + len(self.col)) % 4])
                self.col[c] = pd.Series(a, index=own, name=name, copy=False)
            self.frame = None

    def get(self, c):
        return self.col[c] if self.col is not None else self.frame[c]

    def new_frame(self):
        """a private frame for the add_* wrappers (built from copies)"""
        return pd.DataFrame({c: self.get(c).values.copy() for c in COLS}, index=self.get("close").index)

    def amend(self, pos, col, mul):
        """the owner corrects a bar in place"""
        if not 0 <= pos < self.spec["n"]:
            return
        if self.col is not None:
            a = self.col[col].values
            if a.flags.writeable:
                a[pos] = a[pos] * mul
            else:
                a = a.copy(); a[pos] = a[pos] * mul
                self.col[col] = pd.Series(a, index=self.col[col].index, name=self.col[col].name)
        else:
            j = self.frame.columns.get_loc(col)
            self.frame.iloc[pos, j] = self.frame.iloc[pos, j] * mul

    def objects(self):
        """everything the caller handed over: (tag, object)"""
        out = []
        if self.col is not None:
            seen = set()
            for c, s in self.col.items():
                if id(s) not in seen:
                    seen.add(id(s))
                    out.append((c, s))
        if self.frame is not None:
            out.append(("frame", self.frame))
        out += [(f"parent{i}", p) for i, p in enumerate(self.parents)]
        return out


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return repr(a.tolist()).encode()
    return a.tobytes()


def digest(obj):
    """complete state of a Series/DataFrame: values, dtype, labels, names, attrs"""
    h = hashlib.blake2b(digest_size=12)
    if isinstance(obj, pd.DataFrame):
        h.update(repr((list(obj.columns), [str(t) for t in obj.dtypes], obj.attrs, str(obj.columns.name), type(obj.columns).__name__)).encode())
        for j in range(obj.shape[1]):
            h.update(_arr(obj.iloc[:, j].values))
    else:
        h.update(repr((obj.name, str(obj.dtype), obj.attrs, _flags(obj._mgr.array) if hasattr(obj._mgr, "array") else "")).encode())
        h.update(_arr(obj.values))
    i = obj.index
    h.update(repr((type(i).__name__, str(i.dtype), list(i.names), len(i), str(getattr(i, "freq", None)), obj.flags.allows_duplicate_labels)).encode())
    h.update(_arr(i.values))
    return h.hexdigest()


def _flags(a):
    return (a.flags.writeable, a.shape, a.dtype.str) if isinstance(a, np.ndarray) else type(a).__name__


def quick_bytes(obj):
    """cheap fingerprint used at every scheduling point: values plus the identity of labels, name and attrs"""
    i = obj.index
    tail = repr((id(i), i.name, len(obj._attrs), obj.name if isinstance(obj, pd.Series) else id(obj.columns))).encode()
    return _value_bytes(obj) + tail


def _value_bytes(obj):
    if isinstance(obj, pd.DataFrame):
        return b"".join([np.asarray(b.values).tobytes() for b in obj._mgr.blocks]) if hasattr(obj, "_mgr") else obj.values.tobytes()
    a = obj.values
    return a.tobytes() if a.dtype != object else repr(a.tolist()).encode()

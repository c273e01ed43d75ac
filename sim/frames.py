"""C06/C07: histories of add_* calls on caller-owned frames, with interruption and retry."""
import random

import numpy as np
import pandas as pd

from . import core, engine, gen, guide, market, outcome
from .catalog import GROUPS

NAMES = {"plain": {c: c for c in market.COLS}, "yahoo": {"open": "Open", "high": "High", "low": "Low", "close": "Adj Close", "volume": "Volume_(BTC)"},
         "crypto": {"open": "o", "high": "h", "low": "l", "close": "c", "volume": "v"}}


def build_frame(fs, data, base=None):
    """the caller's frame, from a JSON spec"""
    d = data[fs["ds"]]
    nm = NAMES[fs["names"]]
    idx = market.labels(fs["index"], d.spec["n"], d.spec["seed"] % 1000)
    cols = {nm[c]: d.get(c).values.copy() for c in market.COLS}
    n = d.spec["n"]
    for e in fs["extra"]:
        if e == "str":
            cols["symbol"] = np.array(["ACME"] * n, dtype=object)
        elif e == "int":
            cols["trades"] = np.arange(n) * 3 % 17
        elif e == "bool":
            cols["halted"] = np.arange(n) % 5 == 0
        elif e == "float":
            cols["spread"] = np.where(np.arange(n) % 4 == 0, np.nan, 0.25)
    order = list(cols)
    if fs.get("shuffle"):
        random.Random(fs["shuffle"]).shuffle(order)
    lay = fs["layout"]
    if lay == "slice":
        big = pd.DataFrame({c: np.concatenate([cols[c][:1], cols[c], cols[c][:1]]) for c in order})
        df = big.iloc[1:n + 1]
        df.index = idx
        return df, [big]
    df = pd.DataFrame({c: cols[c] for c in order}, index=idx)
    if lay == "shallow":
        return df.copy(deep=False), [df]
    if lay == "mixed":  # built column by column
        df = pd.DataFrame(index=idx)
        for c in order:
            df[c] = cols[c]
    return df, []


def edit(df, e, nm):
    """the caller writes into the price columns (or drops rows) between calls"""
    c = nm[e["col"]]
    n = len(df)
    if e["how"] == "scale":
        df[c] = df[c].values * 2 + 1
    elif e["how"] == "other":  # another column's values under this name
        df[c] = df[nm[e["from"]]].values.copy()
    elif e["how"] == "tick":  # one bar corrected in place
        j = e["k"] % n
        df.iloc[j, df.columns.get_loc(c)] = df[c].values[(j * 7 + 3) % n]
    elif e["how"] == "trim":  # the frame moves on by a few bars
        return df.iloc[1 + e["k"] % max(1, n // 3):].copy() if n > 2 else df
    elif e["how"] == "reverse":
        df[c] = df[c].values[::-1].copy()
    elif e["how"] == "labels":
        df.index = pd.RangeIndex(5, 5 + n)
    return df


def enc_cols(df):
    return {repr(c): (str(df.iloc[:, j].dtype), outcome._canon(df.iloc[:, j].values)) for j, c in enumerate(df.columns)}


def col_diff(a, b):
    if a[0] != b[0]:
        return f"dtype {a[0]} instead of {b[0]}"
    return None if outcome._veq(a[1], b[1]) else outcome._vdiff(a[1], b[1])


def call(op, df, nm):
    names, vec = GROUPS[op["f"]]
    kw = dict(op.get("kw") or {})
    if not vec:
        kw.pop("vectorized", None)
    cols = {c: nm[c] for c in names}
    if op.get("bad") in cols:
        cols[op["bad"]] = "no such column"
    return getattr(engine.mod("wrapper"), op["f"])(df, **cols, **kw)


def reference(scn, fs, op, edits=()):
    """pristine process: this call on a fresh frame -> (added columns in order | exception, fault points)"""
    engine.seams_on(777)
    data = {fs["ds"]: market.Data(scn["data"][fs["ds"]])}
    df, _ = build_frame(fs, data)
    for e in edits:
        df = edit(df, e, NAMES[fs["names"]])
    orig = [repr(c) for c in df.columns]
    inj = guide.Recorder()
    core.HOOK[0] = inj.hit
    exc = None
    try:
        df = call(op, df, NAMES[fs["names"]])
    except Exception as e:
        exc = type(e).__name__
    core.HOOK[0] = None
    got = enc_cols(df)
    return {"added": {c: v for c, v in got.items() if c not in orig}, "exc": exc, "cols": [repr(c) for c in df.columns]}, inj.n, inj.summary()


def references(scn):
    memo, refs = {}, {}
    for t, ops in enumerate(scn["threads"]):
        edits = []
        for k, op in enumerate(ops):
            if op["op"] == "own" and op["what"] == "edit":
                edits = edits + [op]
            if op["op"] != "add":
                continue
            fs = scn["frames"][op["fr"]]
            o2 = {x: v for x, v in op.items() if x not in ("points", "fr")}
            mk = repr((o2, fs, edits))
            if mk not in memo:
                memo[mk] = core.in_fork(lambda: reference(scn, fs, o2, edits))
            refs[f"{t}.{k}"] = memo[mk]
    return refs


class FrameSim(engine.Sim):
    def __init__(self, scn, refs):
        super().__init__(scn)
        self.refs = refs
        self.fr = []
        for fs in scn["frames"]:
            df, parents = build_frame(fs, self.data)
            self.fr.append({"df": df, "parents": [(p, market.digest(p), list(map(repr, p.columns))) for p in parents], "nm": NAMES[fs["names"]],
                            "model": enc_cols(df), "order": [repr(c) for c in df.columns], "index": outcome._idx(df.index), "maybe": {}})

    def check(self, key, f, df, complete):
        """compare the frame with the model; `maybe` maps columns to acceptable alternatives after an interruption"""
        cols = [repr(c) for c in df.columns]
        if len(set(cols)) != len(cols):
            self.violate("duplicate-columns", key, f"duplicate columns {[c for c in cols if cols.count(c) > 1][:3]}")
            return
        if outcome._idx(df.index) != f["index"]:
            self.violate("index-changed", key, "the frame's row labels changed")
            return
        if [c for c in cols if c in f["order"]] != f["order"]:
            miss = [c for c in f["order"] if c not in cols]
            self.violate("columns-lost", key, f"caller's columns lost or reordered {miss[:3]}")
            return
        got = enc_cols(df)
        for c in cols:
            alts = ([f["model"][c]] if c in f["model"] else []) + f["maybe"].get(c, [])
            if not alts:
                self.violate("unexpected-column", key, f"unexpected column {c}")
                return
            ds = [col_diff(got[c], a) for a in alts]
            if all(ds):
                own = c in f["order"]
                self.violate("original-column-changed" if own else "wrong-column", key, f"column {c}: {ds[0]}")
                return
        for c in f["model"]:
            if c not in cols and c not in f["maybe"]:
                self.violate("columns-lost", key, f"column {c} is missing")
                return
        f["model"] = {c: got[c] for c in cols}
        f["maybe"] = {}

    def call(self, op, key):
        f = self.fr[op["fr"]]
        return call(op, f["df"], f["nm"])

    def step(self, op, key, nested=False):
        if op["op"] == "own":  # the caller works on the frame between calls
            f = self.fr[op["fr"]]
            df = f["df"]
            if op["what"] == "addcol":
                df[op["name"]] = np.arange(len(df)) * 1.5
                c = repr(op["name"])
                f["model"][c] = enc_cols(df)[c]
            elif op["what"] == "delcol":
                feats = [c for c in df.columns if repr(c) not in f["order"]]
                if feats:
                    c = feats[op["k"] % len(feats)]
                    del df[c]
                    f["model"].pop(repr(c), None)
            elif op["what"] == "junkcol":  # scribble over a feature column; a later add must recompute it
                feats = [c for c in df.columns if repr(c) not in f["order"]]
                if feats:
                    c = feats[op["k"] % len(feats)]
                    df[c] = -1.25
                    f["model"][repr(c)] = enc_cols(df)[repr(c)]
            elif op["what"] == "snap":  # a shallow copy, or a column, of the frame as it is now
                x = df.copy(deep=False) if op["k"] % 2 else df.iloc[:, -1 - op["k"] % min(9, df.shape[1])]
                f["parents"].append((x, market.digest(x), list(map(repr, x.columns)) if op["k"] % 2 else None))
            elif op["what"] == "edit":
                f["df"] = df = edit(df, op, f["nm"])
                f["model"], f["index"] = enc_cols(df), outcome._idx(df.index)
                f["parents"] = []  # in-place corrections reach them
            return
        if op["op"] == "nop":
            return
        if op["op"] != "add":
            return super().step(op, key, nested)
        me = self.tid()
        f = self.fr[op["fr"]]
        ref = self.refs[key][0]
        inj = core.Injector(op.get("points") or (), self.act)
        self.cur[me] = key
        self.arm(me, inj)
        exc, df = None, f["df"]
        try:
            df = self.call(op, key)
        except core.SimDeadlock:
            self.arm(me, None)
            raise
        except BaseException as e:
            exc = type(e).__name__
            e.__traceback__ = None
        self.arm(me, None)
        if inj.raised:
            kind = next(p["kind"] for p in inj.fired if p["do"] == "raise")
            self.fired[kind] = self.fired.get(kind, 0) + 1
        if op.get("bad") and exc:
            self.fired["bad-column"] = self.fired.get("bad-column", 0) + 1
        self.log.append((key, exc))
        if exc is None and ref["exc"]:
            self.violate("wrong-answer", key, f"{op['f']} succeeded where it alone raises {ref['exc']}")
        elif exc is not None and not inj.raised and exc != ref["exc"]:
            self.violate("wrong-answer", key, f"{op['f']} raised {exc}" + (f" instead of {ref['exc']}" if ref["exc"] else ""))
        if exc is None:
            if not isinstance(df, pd.DataFrame):
                self.violate("wrong-answer", key, f"{op['f']} returned {type(df).__name__}")
                return
            if df is not f["df"]:
                self.probe["returned a new frame"] = self.probe.get("returned a new frame", 0) + 1
            f["df"] = df
            f["model"].update(ref["added"])
            self.check(key, f, df, True)
            self.log.append((key, outcome.sig([sorted(enc_cols(df).items())])))
        else:
            # interrupted: complete columns only, old or new
            for c, v in ref["added"].items():
                f["maybe"].setdefault(c, []).append(v)
            self.check(key, f, f["df"], False)
        for p, dg, cols in f["parents"]:
            if cols is not None and list(map(repr, p.columns)) != cols or market.digest(p) != dg:
                self.violate("other-frame-changed", key, "a frame the caller did not pass (the parent of the one passed) changed")


def gen_frames(prop, r, i):
    n = r.choices([r.randint(3, 14), r.randint(15, 40), r.randint(41, 90)], [1, 3, 5])[0]
    n = guide.size(r, n, hi=400)
    data = [market.gen_spec(r, n=n)]
    if r.random() < 0.4:
        data.append(market.twin(r, data[0]))
    for d in data:
        d["layout"] = "series"
        d["dtype"] = r.choice(["float64", "float64", "float64", "float32", "int64"]) if not d["nan"] and not d.get("nancol") and not d.get("odd") else "float64"
    nt = r.choice([1, 1, 2])
    frames, threads = [], []
    gs = list(GROUPS)
    for t in range(nt):
        frames.append({"ds": r.randrange(len(data)), "names": r.choice(["plain", "plain", "yahoo", "crypto"]), "index": r.choice(["range", "dt", "tz", "gap", "str", "shuffled", "dup", "float", "desc", "multi", "freq", "period", "const"]),
                       "extra": r.sample(["str", "int", "bool", "float"], r.choice([0, 0, 1, 2])), "shuffle": r.choice([0, 0, r.randint(1, 99)]), "layout": r.choice(["own", "own", "shallow", "slice", "mixed"])})
        ops = []
        m = r.randint(1, 4) if prop == "C07" else r.randint(1, 2)
        last = None
        for k in range(m):
            f = guide.pick_group(r, gs) or (gs[(i * 7 + t + k) % 5] if r.random() < 0.85 else "add_all_ta_features")
            kw = {}
            if r.random() < 0.5:
                kw["fillna"] = r.random() < 0.6
            if r.random() < 0.35:
                kw["colprefix"] = r.choice(["p_", "q_", "others_", "volume_", "t"])
            if r.random() < 0.35:
                kw["vectorized"] = r.random() < 0.6
            op = {"op": "add", "fr": t, "f": f, "kw": kw}
            if prop == "C07" and last is not None and r.random() < 0.45:
                op = dict(last, kw=dict(last["kw"]))
                ch = r.choice(["same", "fillna", "vectorized", "prefix"])
                if ch == "fillna":
                    op["kw"]["fillna"] = not op["kw"].get("fillna", False)
                elif ch == "vectorized":
                    op["kw"]["vectorized"] = not op["kw"].get("vectorized", False)
                elif ch == "prefix":
                    op["kw"]["colprefix"] = r.choice(["", "p_", "z_"])
            last = op
            if prop == "C06":
                if r.random() < 0.3:  # features are already there when the interrupted refresh happens
                    ops.append(dict(op, kw=dict(op["kw"], fillna=r.random() < 0.5)))
                bad = [c for c in GROUPS[op["f"]][0] if c != "open"]
                if r.random() < 0.2:
                    ops.append(dict(op, bad=r.choice(bad), kw=dict(op["kw"])))
                else:
                    ops.append(dict(op, fault=r.random(), kw=dict(op["kw"])))
                    if r.random() < 0.3:
                        ops.append(dict(op, fault=r.random(), kw=dict(op["kw"])))
                ops.append(dict(op, kw=dict(op["kw"])))  # the retry
            else:
                ops.append(op)
                if r.random() < 0.3:
                    a, b = r.sample(["open", "high", "low", "close", "close", "volume"], 2)
                    ops.append({"op": "own", "fr": t, "what": "edit", "how": r.choice(["scale", "scale", "other", "tick", "tick", "trim", "reverse", "labels"]), "col": a, "from": b, "k": r.randrange(90)})
                    if r.random() < 0.6:  # the same features again
                        ops.append(dict(op, kw=dict(op["kw"])))
                elif r.random() < 0.3:
                    ops.append({"op": "own", "fr": t, "what": "snap", "k": r.randrange(90)})
                    if r.random() < 0.7:
                        ops.append(dict(op, kw=dict(op["kw"], **({"fillna": r.random() < 0.5} if r.random() < 0.5 else {}))))
                elif r.random() < 0.35:
                    ops.append({"op": "own", "fr": t, "what": r.choice(["addcol", "delcol", "junkcol", "junkcol"]), "name": f"mine{k}", "k": r.randrange(50)})
        threads.append(ops)
    return {"data": data, "frames": frames, "threads": threads, "sched": gen.sched(r), "mon": {}}


def place(scn, r, refs):
    for t, ops in enumerate(scn["threads"]):
        for k, op in enumerate(ops):
            u = op.pop("fault", None)
            if u is not None:
                key = f"{t}.{k}"
                n, w = refs[key][1:]
                if n:
                    c = guide.Counts()
                    c[key], c.where[key] = n, w
                    at = r.choice(w["wrap"]) if w["wrap"] and u < 0.45 else guide.choose(r, c, key)
                    op["points"] = [{"at": min(n, at), "do": "raise", "kind": r.choice(gen.KINDS)}]


def evaluate(scn, refs=None):
    refs = refs or references(scn)
    total = sum(x[1] for x in refs.values())

    def life():
        engine.seams_on(scn["seed"] % 999983)
        s = FrameSim(scn, refs)
        return s.run(max_events=20000 + 40 * total)
    res = core.in_fork(life, timeout=90)
    return list(res["viol"]), res


def one(prop, seed, i):
    r = random.Random(seed)
    scn = gen_frames(prop, r, i)
    scn.update(prop=prop, seed=seed, i=i)
    refs = references(scn)
    place(scn, r, refs)
    v, res = evaluate(scn, refs)
    return scn, v, res

"""Live-feed simulator (C10-C14): exchange, lossy network, recorder nodes with durable logs, skewed clocks.

A discrete-event simulation (virtual time, one PRNG) produces the history of every node: which bars its log
held, with which labels and which provisional bar, at each instant at which it recomputed its indicators.
The history is then executed against the real library and each published value is judged against what a
pristine process computes from the exchange's own complete record.
"""
import hashlib
import heapq
import json
import math
import random

import numpy as np
import pandas as pd

from . import core, engine, gen, guide, market, outcome
from .catalog import CLASSES, CLASS_NAMES, COST, FUNCS, FUNCS_OF, GROUPS, gen_params, lookback

BAR = 60.0  # simulated seconds per bar


# --------------------------------------------------------------------------- discrete-event simulation
class Net:
    """exchange -> nodes, with retransmission requests; faults drawn from one PRNG"""

    def __init__(self, seed, n, nodes, cfg):
        self.r = random.Random(seed)
        self.n, self.cfg = n, cfg
        self.now, self.seq, self.q = 0.0, 0, []
        self.count = {}
        self.nodes = [dict(log=[], durable=0, buf={}, up=True, part=False, prov=None, stamps=[], tr=0) for _ in range(nodes)]
        self.hist = []
        self.closed = 0

    def hit(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def at(self, dt, f):
        self.seq += 1
        heapq.heappush(self.q, (self.now + dt, self.seq, f))

    def send(self, k, msg):
        c, r = self.cfg, self.r
        if self.nodes[k]["part"]:
            self.hit("partitioned message")
            return
        if r.random() < c["drop"]:
            self.hit("message loss")
            return
        d = 0.05 + r.random() * c["jitter"]
        if d > BAR:
            self.hit("delay beyond a bar")
        self.at(d, lambda: self.recv(k, msg))
        if r.random() < c["dup"]:
            self.hit("duplicate message")
            self.at(d + r.random() * 3 * c["jitter"], lambda: self.recv(k, msg))

    def recv(self, k, msg):
        nd = self.nodes[k]
        if not nd["up"]:
            self.hit("message to a crashed node")
            return
        if msg[0] == "bar":
            i = msg[1]
            if i < len(nd["log"]):
                return
            if i > len(nd["log"]):
                nd["buf"][i] = True
                self.hit("out-of-order bar")
                self.request(k)
                return
            nd["log"].append(i)
            nd["stamps"].append(self.stamp(k))
            while len(nd["log"]) in nd["buf"]:
                j = len(nd["log"])
                del nd["buf"][j]
                nd["log"].append(j)
                nd["stamps"].append(self.stamp(k))
            if nd["prov"] is not None and nd["prov"][0] < len(nd["log"]):
                nd["prov"] = None
            if self.r.random() < self.cfg["flush"]:
                nd["durable"] = len(nd["log"])
            self.compute(k, "bar")
        elif msg[0] == "tick":
            i, part = msg[1], msg[2]
            if i == len(nd["log"]):
                nd["prov"] = (i, part)
                self.compute(k, "tick")

    def stamp(self, k):
        return None

    def request(self, k):
        nd = self.nodes[k]
        if nd["up"] and self.r.random() > self.cfg["drop"] and not nd["part"]:
            self.hit("retransmission request")
            lo = len(nd["log"])
            for i in range(lo, min(self.closed, lo + 12)):
                self.send(k, ("bar", i))

    def compute(self, k, why):
        if self.r.random() < self.cfg["compute"]:
            nd = self.nodes[k]
            self.hist.append({"t": round(self.now, 3), "node": k, "L": len(nd["log"]), "prov": nd["prov"][1] if nd["prov"] else None, "why": why})

    def crash(self, k):
        nd = self.nodes[k]
        if not nd["up"]:
            return
        self.hit("node crash")
        lost = len(nd["log"]) - nd["durable"]
        if lost:
            self.hit("unflushed bars lost", lost)
        nd["up"] = False
        nd["log"], nd["buf"], nd["prov"] = nd["log"][:nd["durable"]], {}, None
        nd["stamps"] = nd["stamps"][:nd["durable"]]
        self.at(self.r.random() * 5 * BAR, lambda: self.restart(k))

    def restart(self, k):
        nd = self.nodes[k]
        nd["up"] = True
        self.hit("node restart")
        if nd["log"] and self.r.random() < 0.3:  # the last record was torn: its checksum fails, it is dropped
            nd["log"].pop()
            nd["stamps"].pop()
            nd["durable"] = min(nd["durable"], len(nd["log"]))
            self.hit("torn record")
        self.compute(k, "recovery")
        self.request(k)

    def run(self):
        c, r = self.cfg, self.r

        def close(i):
            self.closed = i + 1
            for k in range(len(self.nodes)):
                self.send(k, ("bar", i))
            if i + 1 < self.n:
                for _ in range(r.choice([0, 0, 1, 2])):
                    part = [round(r.uniform(0.9, 1.1), 4), round(r.uniform(0.9, 1.3), 4), round(r.uniform(0.7, 1.0), 4), round(r.uniform(0.8, 1.2), 4), round(r.random(), 3)]
                    self.at(r.random() * BAR, lambda p=part, j=i + 1: [self.send(k, ("tick", j, p)) for k in range(len(self.nodes))])
        for i in range(self.n):
            self.at((i + 1) * BAR, lambda i=i: close(i))
        for k in range(len(self.nodes)):
            for _ in range(c["crashes"]):
                self.at(r.random() * self.n * BAR, lambda k=k: self.crash(k))
            if r.random() < c["partition"]:
                t0, d = r.random() * self.n * BAR, r.random() * 20 * BAR

                def on(k=k):
                    self.nodes[k]["part"] = True
                    self.hit("partition")

                def off(k=k):
                    self.nodes[k]["part"] = False
                    self.hit("heal")
                    self.request(k)
                self.at(t0, on)
                self.at(t0 + d, off)

            def poll(k=k):
                if self.closed > len(self.nodes[k]["log"]):
                    self.request(k)
                if self.now < (self.n + 5) * BAR:
                    self.at(3 * BAR, poll)
            self.at(3 * BAR, poll)
        steps = 0
        while self.q and steps < 60000:
            self.now, _, f = heapq.heappop(self.q)
            f()
            steps += 1
        # faults stop: every node must catch up within a bounded number of rounds
        c.update(drop=0.0, dup=0.0, jitter=0.1, compute=1.0)
        for nd in self.nodes:
            nd["part"] = False
        for rnd in range(self.n // 12 + 25):
            for k, nd in enumerate(self.nodes):
                if len(nd["log"]) < self.n:
                    self.request(k)
            self.at(10 * BAR, lambda: None)
            while self.q:
                self.now, _, f = heapq.heappop(self.q)
                f()
        if any(len(nd["log"]) < self.n or not nd["up"] for nd in self.nodes):
            raise RuntimeError("feed simulation did not converge")
        return self


# --------------------------------------------------------------------------- outputs tracked by the nodes
def gen_out(r, c, scale, fillna, api=None):
    """one thing a node recomputes: class accessors or a function"""
    api = api or r.choice(["cls", "cls", "fn"])
    if api == "fn" and FUNCS_OF.get(c):
        f = r.choice(FUNCS_OF[c])
        p = gen_params(r, c, FUNCS[f][3], scale, safe=True)
        return {"op": "fn", "f": f, "p": p, "fillna": fillna}
    return {"op": "cls", "c": c, "p": gen_params(r, c, scale=scale, safe=True), "fillna": fillna, "acc": list(CLASSES[c][3])}


def cls_of(o):
    return o["c"] if o["op"] == "cls" else FUNCS[o["f"]][1]


def accs_of(o):
    return o["acc"] if o["op"] == "cls" else [FUNCS[o["f"]][2]]


def name_of(o, a=None):
    if o["op"] == "wrap":
        return f"{o['f']}[{a}]"
    return o["f"] + "()" if o["op"] == "fn" else f"{o['c']}.{a or ''}"


def compute(o, df, cols=None):
    """real library call on a node's frame -> {output name: Series}; cols maps logical to actual column names.
    The node computes when its last bar has just arrived: where labels are times, its clock stands shortly after the last one."""
    i = (df["close"] if isinstance(df, dict) else df).index
    live = isinstance(i, pd.DatetimeIndex) and len(i) and not pd.isna(i[-1]) and 1990 < i[-1].year < 2200
    core.set_wall(i[-1].value + (len(i) * 7919 % 60000 + 1) * 10 ** 6 if live else engine.T0)
    kw = engine.kwargs_of(o)
    if o["op"] == "fn":
        m, c, a, _ = FUNCS[o["f"]]
        return {a: getattr(engine.mod(m), o["f"])(**{x: df[x] for x in CLASSES[c][1]}, **kw)}
    if o["op"] == "cls":
        m, names, _, _ = CLASSES[o["c"]]
        obj = getattr(engine.mod(m), o["c"])(**{x: df[x] for x in names}, **kw)
        return {a: getattr(obj, a)() for a in o["acc"]}
    names, vec = GROUPS[o["f"]]
    k = dict(o.get("kw") or {})
    if not vec:
        k.pop("vectorized", None)
    work = df.copy()
    out = getattr(engine.mod("wrapper"), o["f"])(work, *names, **k)
    return {c: out[c] for c in out.columns if c not in df.columns}


def backfilled(o, a):
    """documented to be filled from the future when gap filling is on"""
    if o["op"] == "wrap":
        return bool((o.get("kw") or {}).get("fillna")) and (a.endswith("psar_up") or a.endswith("psar_down") or "visual_ichimoku" in a)
    if not o.get("fillna"):
        return False
    c = cls_of(o)
    return (c == "PSARIndicator" and a in ("psar_up", "psar_down")) or (c == "IchimokuIndicator" and o["p"].get("visual") and a in ("ichimoku_a", "ichimoku_b"))


def raw(s):
    """(values, label fingerprint)"""
    v = np.asarray(s.values)
    return (v.astype(float) if v.dtype != object else np.array([float("nan") if x is None else float(x) for x in v.tolist()])), outcome._idx(s.index)


def safe_compute(o, df):
    try:
        return {a: raw(s) for a, s in compute(o, df).items()}, None
    except Exception as e:
        return None, type(e).__name__


def close_enough(a, b, scale):
    both = np.isnan(a) & np.isnan(b)
    with np.errstate(all="ignore"):
        same = (a == b) | both | (np.abs(a - b) <= 1e-11 * scale + 1e-9 * np.abs(b))
    return same


def scale_of(v):
    f = v[np.isfinite(v)]
    return float(np.max(np.abs(f))) if f.size else 1.0


def labelled(scn, rows):
    """the rows of a node's log under the labels its recorder writes"""
    s = scn["data"][0]
    if s.get("labels"):
        rows.index = market.labels(s["labels"], len(rows), s["seed"] % 1000)
    return rows


def base_frame(spec):
    v = market.values(spec)
    for p, x in spec.get("auctions") or ():  # a bar with an extraordinary volume
        if p < len(v["volume"]):
            v["volume"] = v["volume"].copy()
            v["volume"][p] *= x
    return pd.DataFrame({c: v[c].astype(spec["dtype"] if spec["dtype"] != "int64" else "float64") for c in market.COLS})


# --------------------------------------------------------------------------- labels written by skewed clocks
LABELS = ["ns", "ns", "tz", "sec", "float", "str", "counter", "minute", "date"]
FIXED = ["freq", "period", "delta", "cat", "multi", "desc", "shuffled", "const", "neg", "syms", "nat", "nolabel", "mixed", "interval", "eons", "millis", "uint", "text", "Int64", "bool", "int8", "bytes", "tuples", "dst", "cplx", "inf"]  # labels assigned by something other than a clock


def clock_labels(r, n, fmt):
    """labels a recorder with a faulty clock writes; returns (list, fault counts)"""
    cnt = {}

    def hit(k):
        cnt[k] = cnt.get(k, 0) + 1
    t, out, drift = 1_600_000_000_000_000_000 + r.randrange(10 ** 9) * 10 ** 6, [], r.choice([0, 0, 1e-4, -1e-4, 0.02])
    step = r.choice([60, 60, 1, 3600]) * 10 ** 9
    p_jump, p_stall, p_dup, p_gap = (r.choice([0, 0.02, 0.1]) for _ in range(4))
    seqno = r.choice([0, 0, 1, 7, -3])
    for i in range(n):
        t += int(step * (1 + drift))
        if r.random() < p_jump:
            j = r.choice([-3600, 3600, -7, -86400, 1800, -2 * 60]) * 10 ** 9
            t += j
            hit("clock stepped backward" if j < 0 else "clock stepped forward")
        if r.random() < p_stall and out:
            out.append(out[-1])
            hit("clock stalled (repeated label)")
            seqno += 1
            continue
        if r.random() < p_gap:
            t += step * r.randint(1, 9)
            seqno += r.randint(1, 5)
            hit("dropped bars (label gap)")
        if fmt == "counter":
            if r.random() < p_dup and i:
                seqno = 0
                hit("recorder restarted its counter")
            out.append(seqno)
            seqno += 1
        else:
            out.append(t)
    return out, cnt


def make_index(fmt, lab):
    if fmt in FIXED:
        return market.labels(fmt, len(lab), lab[0] // 10 ** 6 % 1000 if lab else 0)
    if fmt == "ns":
        return pd.DatetimeIndex(np.array(lab, dtype="int64"), name="date")
    if fmt == "tz":
        return pd.DatetimeIndex(np.array(lab, dtype="int64")).tz_localize("UTC").tz_convert("America/New_York")
    if fmt == "sec":
        return pd.Index(np.array(lab, dtype="int64") // 10 ** 9)
    if fmt == "float":
        return pd.Index(np.array(lab, dtype="float64") / 1e9, name="epoch")
    if fmt == "str":
        return pd.Index([str(x // 10 ** 9) for x in lab], dtype=object)
    if fmt == "minute":
        return pd.DatetimeIndex(np.array(lab, dtype="int64") // (3600 * 10 ** 9) * (3600 * 10 ** 9))
    if fmt == "date":
        return pd.Index([pd.Timestamp(x).date() for x in lab], dtype=object)
    if fmt == "counter":
        return pd.Index(np.array(lab, dtype="int64"))
    raise ValueError(fmt)


# --------------------------------------------------------------------------- scenario generators
def gen_c10(r, i):
    wrap = i % 12 == 11
    n = r.choices([r.randint(8, 25), r.randint(26, 60), r.randint(40, 90), r.randint(90, 320)], [4, 4, 4, 1])[0]
    if wrap:
        n = r.randint(30, 75)
    n = guide.size(r, n, lo=8, hi=300 if wrap else 1400)
    spec = market.gen_spec(r, n=n, plain=True)
    spec["dtype"] = r.choice(["float64"] * 5 + ["float32"])
    spec["labels"] = r.choice([None, None, "dt", "dt", "tz", "freq", "gap", "str", "float"])
    if r.random() < 0.15:
        spec["zerovol"] = sorted({r.randrange(1, n) for _ in range(3)})
    if r.random() < 0.2:  # fields the exchange never sent, whole bars too
        cols = r.choice([["close"], ["high"], ["low"], ["volume"], ["high", "low"], market.COLS, market.COLS])
        spec["nancol"] = [[x, c] for a in (r.randrange(1, n) for _ in range(r.choice([1, 2, 4]))) for x in range(a, min(n, a + r.choice([1, 1, 2, 3, 6]))) for c in cols]
    sc = guide.scale(30, n - 1)
    outs = []
    if wrap:
        f = guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)[:5] + ["add_all_ta_features"])
        outs.append({"op": "wrap", "f": f, "kw": {"fillna": r.random() < 0.5, "vectorized": r.random() < 0.3}})
    else:
        c = gen.focus(r, i, 10)
        outs.append(gen_out(r, c, sc, r.random() < 0.5, "cls"))
        outs.append(gen_out(r, c, sc, r.random() < 0.5))
        if r.random() < 0.5:
            outs.append(gen_out(r, r.choice(CLASS_NAMES), sc, r.random() < 0.5))
    cfg = {"drop": r.choice([0, 0.05, 0.2]), "dup": r.choice([0, 0.1, 0.3]), "jitter": r.choice([1, 40, 300]), "flush": r.choice([0.2, 0.6, 1.0]),
           "crashes": r.choice([0, 1, 2]), "partition": r.choice([0, 0.5]), "compute": min(1.0, (8 if wrap else 26) / n / 2)}
    net = Net(r.randrange(1 << 40), n, r.choice([2, 2, 3]), dict(cfg)).run()
    hist = net.hist
    heavy = max(COST.get(cls_of(o), 1) if o["op"] != "wrap" else 12 for o in outs)
    cap = 14 if wrap else (26 if heavy >= 3 else 45)
    if n > 120:
        cap = max(4, cap * 120 // n)
    if len(hist) > cap:
        keep = sorted(r.sample(range(len(hist)), cap))
        hist = [hist[k] for k in keep]
    for h in hist:
        if r.random() < 0.04:
            h["kill"] = r.random()  # the node dies in the middle of this computation
    return {"data": [spec], "outs": outs, "hist": hist, "faults": net.count, "simtime": net.now}


def gen_c11(r, i):
    n = r.choices([r.randint(3, 25), r.randint(26, 70), r.randint(60, 110), r.randint(110, 400)], [6, 6, 6, 1])[0]
    n = guide.size(r, n, lo=3)
    spec = market.gen_spec(r, n=n, plain=True)
    spec["dtype"] = r.choice(["float64"] * 4 + ["float32"])
    sc = guide.scale(30, n - 1)
    outs = []
    c = gen.focus(r, i, 11)
    if i % 10 == 9:
        outs.append({"op": "wrap", "f": r.choice(list(GROUPS)), "kw": {"fillna": r.random() < 0.5, "vectorized": r.random() < 0.3}})
    for k in range(3):
        outs.append(gen_out(r, c if k < 2 else r.choice(CLASS_NAMES), sc, r.random() < 0.5, "cls" if k == 0 else None))
    hist, cnt = [], {}
    for k in range(r.choice([2, 3])):
        fmt = r.choice(LABELS) if r.random() < 0.75 else r.choice(FIXED)
        lab, c1 = clock_labels(r, n, fmt)
        for x, y in c1.items():
            cnt[x] = cnt.get(x, 0) + y
        hist.append({"node": k, "L": n if r.random() < 0.7 else r.randint(2, n), "fmt": fmt, "labels": lab, "layout": r.choice(["frame", "frame", "series"])})
        cnt[f"label format {fmt}"] = cnt.get(f"label format {fmt}", 0) + 1
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": n * BAR * len(hist)}


FINITE = [c for c in CLASS_NAMES if lookback(c, CLASSES[c][3][0], {k: v[1] for k, v in CLASSES[c][2].items()}) is not None]
DECAY = {"EMAIndicator": 1, "MACD": 2, "PercentagePriceOscillator": 2, "PercentageVolumeOscillator": 2, "RSIIndicator": 1, "TSIIndicator": 2, "TRIXIndicator": 3,
         "ForceIndexIndicator": 1, "MassIndex": 2, "AverageTrueRange": 1, "ADXIndicator": 2, "StochRSIIndicator": 1, "KeltnerChannel": 1}
FINITE_ONLY_FAULTS = {"AverageTrueRange", "ADXIndicator", "KeltnerChannel"}  # recursion is not restartable after NaN


def c12_params(r, c, scale):
    p = {}
    for k, s in CLASSES[c][2].items():
        if s[0] == "w":
            p[k] = guide.number(r, r.randint(max(2, s[2]), scale), 2, 90 if scale > 7 else 8, 0.3)
        elif k == "dropnans":
            continue
        else:
            v = r.choice(s[1:])
            if v is not None:
                p[k] = v
    return p


def gen_c12(r, i):
    kind = "finite" if i % 3 else "decay"
    if kind == "finite":
        c = guide.pick(r, FINITE) or FINITE[(i // 3 * 2 + i % 3 - 1) % len(FINITE)]
        p = c12_params(r, c, r.choice([6, 14, 20, 6, 14, 20, 60]))
        n = r.randint(70, 130)
        if max([v for v in p.values() if isinstance(v, int)] or [0]) > 20:
            n = r.randint(380, 480)
        n = guide.size(r, n, lo=70)
        if c == "KeltnerChannel":
            p["original_version"] = True
    else:
        ks = sorted(DECAY)
        c = guide.pick(r, ks) or ks[(i // 3) % len(ks)]
        p = c12_params(r, c, 7)
        if c == "KeltnerChannel":
            p["original_version"] = False
        n = guide.size(r, 420, lo=400)
    spec = market.gen_spec(r, n=n, plain=True)
    spec["kind"] = r.choice(["walk", "walk", "spiky"]) if kind == "finite" else "walk"
    kinds = ["nan", "partial", "zerovol", "spike", "stuck", "hole", "frozen", "crossed"]
    if c in FINITE_ONLY_FAULTS:
        kinds = ["spike", "stuck", "zerovol", "frozen", "crossed"]
    if kind == "decay":
        kinds = [k for k in kinds if k != "spike"] + ["bump"]
    faults, cnt = [], {}
    hi = n // 2 if kind == "finite" else 60
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(kinds)
        faults.append({"kind": k, "pos": guide.number(r, r.randint(3, hi), 3, hi), "len": r.choice([1, 1, 2, 5]) if k != "frozen" else r.choice([2, 6, 12, 25]), "col": r.choice(market.COLS[1:]), "mul": r.choice([10.0, 0.1, 1000.0, 1e7, 1e-4] + ([] if c in RESIDUES else [1e7, 1e12, 1e12])) if k == "spike" else r.choice([1.5, 0.6, 3.0])})
        cnt[k] = cnt.get(k, 0) + 1
    big = [f for f in faults if f["mul"] == 1e12]
    if big:  # more than one would leave residues in compensated sums too
        faults, cnt = [dict(big[0], len=1)], {"spike": 1}
    out = {"op": "cls", "c": c, "p": p, "fillna": r.random() < 0.25, "acc": list(CLASSES[c][3])}
    return {"data": [spec], "outs": [out], "hist": [{"bad": faults}], "faults": cnt, "simtime": n * BAR, "mode": kind}


# variances, and sums of products, in which spikes multiply
RESIDUES = {"BollingerBands", "EaseOfMovementIndicator", "MFIIndicator", "VolumeWeightedAveragePrice", "ChaikinMoneyFlowIndicator"}
OFFSET = ["OnBalanceVolumeIndicator", "AccDistIndexIndicator", "VolumePriceTrendIndicator"]
FACTOR = ["NegativeVolumeIndexIndicator", "CumulativeReturnIndicator"]


def auctions(r, n):
    return [[r.choice([0, 0, 0, 1, r.randrange(n), n - 1]), r.choice([0.01, 8, 8, 64, 1000])] for _ in range(r.choice([1, 1, 2]))]


def gen_c19(r, i):
    """a node with bounded retention: old bars are trimmed, a restart starts with recent bars only"""
    mode = ["finite", "finite", "decay", "finite", "offset", "finite", "decay", "factor"][i % 8]
    cs = {"finite": FINITE, "decay": sorted(DECAY), "offset": OFFSET, "factor": FACTOR}[mode]
    c = guide.pick(r, cs) or cs[(i // 8 * 4 + i % 8) % len(cs)]
    fresh = r.random() < 0.5
    if mode == "finite":
        p = c12_params(r, c, r.choice([6, 14, 20, 6, 14, 20, 60]))
        n = r.randint(40, 130)
        if max([v for v in p.values() if isinstance(v, int)] or [0]) > 20:
            n = r.randint(280, 400)
        n = guide.size(r, n, lo=40)
        keep = None
        if c == "KeltnerChannel":
            p["original_version"] = True
    elif mode == "decay":
        p = c12_params(r, c, 7)
        n = guide.size(r, r.randint(420, 520), lo=400)
        if c == "KeltnerChannel":
            p["original_version"] = False
    else:
        p = c12_params(r, c, 10)
        n = guide.size(r, r.randint(20, 150), lo=20)
    spec = market.gen_spec(r, n=n, plain=True)
    spec["kind"] = r.choice(["walk", "walk", "spiky", "ties"]) if mode in ("finite", "offset") else "walk"
    if r.random() < 0.35:
        spec["auctions"] = auctions(r, n)
    start = max([v for v in p.values() if isinstance(v, int) and not isinstance(v, bool)] or [1]) + 2
    hist, cnt = [], {}
    a, z = 0, r.randint(max(2, n // 3), n)
    cap = r.choice([n, max(40, n // 2), max(40, n - 5)]) if mode != "decay" else r.choice([n, n - 40])
    for _ in range(r.choice([2, 3, 4]) if mode != "decay" else 2):
        why = r.choice(["restart with recent bars", "restart with recent bars", "retention limit", "grow"])
        z = min(n, z + r.choice([1, 1, 2, 7, n // 4]))
        if why == "restart with recent bars":
            a = r.randint(0, max(0, z - 2)) if mode != "decay" else r.randint(0, max(0, z - 310))
        elif why == "retention limit":
            a = max(a, z - cap)
        if mode == "decay":
            z = n
        cnt[why] = cnt.get(why, 0) + 1
        hist.append({"a": a, "b": z, "why": why})
    out = {"op": "cls", "c": c, "p": p, "fillna": r.random() < 0.25, "acc": list(CLASSES[c][3])}
    return {"data": [spec], "outs": [out], "hist": hist, "faults": cnt, "simtime": n * BAR, "mode": mode, "start": start, "fresh_labels": fresh}


def gen_c13(r, i):
    n = r.choices([r.randint(5, 30), r.randint(30, 90), r.randint(90, 600), r.randint(1, 4)], [8, 8, 2, 1])[0]
    n = guide.size(r, n)
    spec = market.gen_spec(r, n=n, plain=True)
    spec["kind"] = r.choice(["walk", "ties", "spiky"])
    rows = []
    cnt = {}
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        k = r.choice(["nan", "zero", "inf", "huge", "nanrow", "none", "extra_zero", "extra_nan", "edge", "extra_na", "mixed"])
        rows.append({"kind": k, "pos": guide.number(r, r.randrange(0, n + 1), 0, n, 0.35), "col": r.choice(market.COLS), "len": r.choice([1, 1, 2, 4])})
        cnt[k] = cnt.get(k, 0) + 1
    keep = []
    for _ in range(r.choice([0, 1, 2])):  # unusual but legitimate bars that must survive
        k = r.choice(["negative", "tiny", "denormal", "big", "almost", "hugeneg", "neginf", "repeat", "repeat"])
        if True:
            keep.append({"kind": k, "pos": guide.number(r, r.randrange(n), 0, n - 1), "col": r.choice(market.COLS[:4])})
            cnt["legit " + k] = cnt.get("legit " + k, 0) + 1
    c = gen.focus(r, i, 13)
    outs = [gen_out(r, c, guide.scale(20, n - 1), r.random() < 0.5) for _ in range(2)]
    return {"data": [spec], "outs": outs, "hist": [{"rows": rows, "keep": keep, "index": r.choice(["range", "dt", "gap", "str", "dup", "float"]), "extra": r.sample(["str", "float", "int", "bool", "flag", "byte", "f32", "time", "cat", "nullable", "obj", "int8", "stamp", "age"], r.choice([0, 0, 1, 2, 3, 5])), "twice": r.random() < 0.5,
                                                    "cols": r.choice([None, None, None, "dup", "front", "mixed", "int", "odd", "multi", "named"]), "iname": r.choice([None, None, "when"]), "layout": r.choice(["own", "slice"]), "only": r.choice([None] * 14 + ["bad", "bad", "none"])}], "faults": cnt, "simtime": n * BAR}


def gen_c14(r, i):
    n = r.choices([r.randint(20, 50), r.randint(50, 110), r.randint(110, 400)], [8, 8, 1])[0]
    n = guide.size(r, n, lo=20)
    spec = market.gen_spec(r, n=n, plain=True)
    sc = guide.scale(30, n - 1)
    c = gen.focus(r, i, 14)
    outs = [gen_out(r, c, sc, True, "cls"), gen_out(r, c, sc, True)]
    if i % 12 == 5:
        outs.append({"op": "wrap", "f": r.choice(list(GROUPS)), "kw": {"fillna": True, "vectorized": r.random() < 0.3}})
    gaps, cnt = [], {}
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.choice(["outage", "outage", "outage", "partial", "partial", "halt", "halt", "zeros", "zerofield", "stalerange"])
        gaps.append({"kind": k, "pos": guide.number(r, r.randint(3, n - 1), 3, n - 1), "len": r.choice([1, 1, 2, 5, 15, 40]), "col": r.choice(market.COLS[1:])})
        cnt[k] = cnt.get(k, 0) + 1
    return {"data": [spec], "outs": outs, "hist": [{"gaps": gaps}], "faults": cnt, "simtime": n * BAR}


GEN = {"C10": gen_c10, "C11": gen_c11, "C12": gen_c12, "C13": gen_c13, "C14": gen_c14, "C19": gen_c19}


# --------------------------------------------------------------------------- execution and oracles
def batch(scn):
    """pristine full-history results, one fork per output: [(outputs|None, exception)]"""
    def job(o):
        def f():
            engine.seams_on(4242)
            inj = core.Injector()
            core.HOOK[0] = inj.hit
            out, exc = safe_compute(o, labelled(scn, base_frame(scn["data"][0])))
            core.HOOK[0] = None
            return out, exc, inj.n
        return f
    return [core.in_fork(job(o)) for o in scn["outs"]]


class FeedSim:
    def __init__(self, scn, refs):
        self.scn, self.refs = scn, refs
        self.viol, self.log, self.fired, self.evals, self.probe = [], [], {}, 0, {}
        self.states = set()

    def violate(self, cls, at, detail):
        if len(self.viol) < 10:
            self.viol.append({"class": cls, "at": at, "detail": detail})

    def hit(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def compute(self, o, df, kill=None):
        """(outputs, exception); `kill` = fault point at which the computing node dies"""
        self.evals += 1
        if kill:
            inj = core.Injector([{"at": kill, "do": "raise", "kind": "SimKill"}])
            core.HOOK[0] = inj.hit
            try:
                compute(o, df)
            except core.SimKill:
                self.hit("node killed while computing")
                return None, "SimKill"
            except Exception:
                pass
            finally:
                core.HOOK[0] = None
        return safe_compute(o, df)

    # C10
    def run_c10(self):
        scn = self.scn
        full = base_frame(scn["data"][0])
        started = {}
        for e, h in enumerate(scn["hist"]):
            L = h["L"]
            rows = full.iloc[:L]
            if h.get("prov"):
                po, ph, pl, pc, pv = h["prov"]
                base = full["close"].iloc[L - 1] if L else full["open"].iloc[0]
                o_, c_ = base * po, base * pc
                rows = pd.concat([rows, pd.DataFrame({"open": [o_], "high": [max(o_, c_) * ph], "low": [min(o_, c_) * pl], "close": [c_], "volume": [np.floor(1 + 2000 * pv)]})], ignore_index=True)
                rows = rows.astype(full.dtypes.to_dict())
            if len(rows) == 0:
                continue
            self.hit("recompute:" + h["why"])
            for k, o in enumerate(scn["outs"]):
                ref, rexc, npts = self.refs[k]
                kill = 1 + int(h["kill"] * npts * 0.8) if h.get("kill") is not None and npts else None
                out, exc = self.compute(o, labelled(scn, rows.reset_index(drop=True).copy()), kill)
                if exc == "SimKill":
                    continue
                self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
                if exc is not None:
                    if started.get(k) is not None and len(rows) >= started[k]:
                        self.violate("stopped-publishing", e, f"{name_of(o)} raised {exc} on {len(rows)} bars after it had worked on {started[k]}")
                    continue
                started.setdefault(k, len(rows))
                started[k] = min(started[k], len(rows))
                if ref is None:
                    self.violate("stopped-publishing", e, f"{name_of(o)} worked on {len(rows)} bars but raises {rexc} on the full history")
                    continue
                for a, (v, _) in out.items():
                    if backfilled(o, a):
                        continue
                    if a not in ref:
                        self.violate("repaint", e, f"output {name_of(o, a)} disappears later")
                        continue
                    b = ref[a][0]
                    if len(v) != len(rows):
                        self.violate("repaint", e, f"{name_of(o, a)} has {len(v)} values for {len(rows)} bars")
                        continue
                    m = min(L, len(v), len(b))
                    ok = close_enough(v[:m], b[:m], scale_of(b))
                    self.states.add((k, a, L, bool(h.get("prov"))))
                    if not ok.all():
                        p = int(np.flatnonzero(~ok)[0])
                        self.violate("repaint", e, f"{name_of(o, a)} of closed bar {p}: published {v[p]!r} when {L} bars were closed" + (" and one was forming" if h.get("prov") else "") + f", but {b[p]!r} from the full history")

    # C11
    def run_c11(self):
        scn = self.scn
        full = base_frame(scn["data"][0])
        base = {}
        for e, h in enumerate(scn["hist"]):
            L = h["L"]
            idx = make_index(h["fmt"], h["labels"][:L])
            df = full.iloc[:L].copy()
            plain = df.reset_index(drop=True)
            df.index = idx
            want = outcome._idx(idx)
            for k, o in enumerate(scn["outs"]):
                if L == scn["data"][0]["n"]:
                    ref, rexc, _ = self.refs[k]
                else:
                    if (L, k) not in base:
                        base[(L, k)] = safe_compute(o, plain)
                    ref, rexc = base[(L, k)]
                out, exc = self.compute(o, df.copy())
                self.log.append((e, k, exc, outcome.sig([sorted((a, v[0], v[1]) for a, v in (out or {}).items())])))
                self.states.add((k, h["fmt"], L))
                if exc != rexc:
                    self.violate("labels-matter", e, f"{name_of(o)} with {h['fmt']} labels: {exc or 'succeeds'} instead of {rexc or 'succeeding'}")
                    continue
                if exc:
                    continue
                for a, (v, ix) in out.items():
                    b = ref[a][0]
                    if ix != want:
                        self.violate("labels-lost", e, f"{name_of(o, a)} does not carry the input's labels ({h['fmt']})")
                        continue
                    if len(v) != len(b):
                        self.violate("labels-matter", e, f"{name_of(o, a)}: {len(v)} values instead of {len(b)}")
                        continue
                    ok = close_enough(v, b, scale_of(b))
                    if not ok.all():
                        p = int(np.flatnonzero(~ok)[0])
                        self.violate("labels-matter", e, f"{name_of(o, a)} at position {p}: {v[p]!r} with {h['fmt']} labels, {b[p]!r} with plain ones")

    # C12
    def run_c12(self):
        scn = self.scn
        full = base_frame(scn["data"][0])
        n = len(full)
        bad, last = apply_faults(full, scn["hist"][0]["bad"])
        o = scn["outs"][0]
        ref, rexc, _ = self.refs[0]
        out, exc = self.compute(o, bad)
        blank = self.blanks(o, full)
        bad_max = max(scale_of(bad[k].values.astype(float)) for k in ("open", "high", "low", "close"))
        self.log.append((exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
        if exc != rexc:
            self.violate("no-recovery", 0, f"{name_of(o)} raises {exc} on the faulty feed")
            return
        if exc or last < 0:
            return
        for a, (v, _) in out.items():
            b = ref[a][0]
            if scn["mode"] == "finite":
                lb = lookback(o["c"], a, o["p"])
                start = last + lb
                if start >= n:
                    self.probe["fault too late"] = self.probe.get("fault too late", 0) + 1
                    continue
                # residues of the online window sums scale with what passed through the window
                bump = max(1.0, max([f["mul"] for f in scn["hist"][0]["bad"] if f["kind"] in ("spike", "bump")] or [1.0]))
                if o["c"] not in RESIDUES:  # compensated sums leave nothing
                    bump = min(bump, 1e3)
                tol = 1e-10 * scale_of(b) * bump
                ok = (np.abs(v - b) <= tol + 1e-9 * np.abs(b)) | (np.isnan(v) & np.isnan(b)) | (v == b)
            else:
                start = last + 300
                tol = 1e-5 * scale_of(b)
                ok = (np.abs(v - b) <= tol) | (np.isnan(v) & np.isnan(b)) | (v == b)
            self.states.add((o["c"], a, tuple(sorted(o["p"].items())), last))
            ok |= self.noise(o, a, full, v, b, bad_max)
            if blank:
                ok |= blank[a]
            ok = ok[start:]
            if not ok.all():
                p = int(np.flatnonzero(~ok)[0]) + start
                self.violate("no-recovery", 0, f"{name_of(o, a)} {o['p']}: last faulty bar {last}, but at bar {p} still {v[p]!r} instead of {b[p]!r}")

    def blanks(self, o, full):
        """with gap filling on: the bars whose own value is undefined, filled from bars long past"""
        if not o.get("fillna"):
            return None
        out, _ = self.compute(dict(o, fillna=False), full)
        return {a: ~np.isfinite(v[0]) for a, v in out.items()} if out else None

    def noise(self, o, a, full, v, b, biggest):
        """where the last bits of the window sums decide"""
        ok = np.zeros(len(v), dtype=bool)
        if o["c"] == "BollingerBands":  # online variances keep a residue of ~eps * price**2: where the true variance is that small the band width is noise
            with np.errstate(all="ignore"):
                std = full["close"].rolling(o["p"].get("window") or 20, min_periods=1).apply(np.std, raw=True).values
                rel = 1e-12 * (biggest * biggest) / (std * std)
                ok |= np.abs(v - b) <= rel * np.maximum(1.0, np.abs(b)) * 10
                ok |= ~(rel < 1e-2) & (a not in ("bollinger_mavg",))
        if a.endswith("band_indicator"):  # a price exactly on the band: the flag hangs on the last bit of the band
            band = compute(dict(o, acc=[a[:-len("_indicator")]]), full)[a[:-len("_indicator")]].values
            ok |= np.abs(full["close"].values - band) <= 1e-6 * scale_of(band)
        return ok

    # C19
    def run_c19(self):
        scn = self.scn
        full = base_frame(scn["data"][0])
        o, mode = scn["outs"][0], scn["mode"]
        ref, rexc, _ = self.refs[0]
        biggest = max(scale_of(full[k].values.astype(float)) for k in ("open", "high", "low", "close"))
        blank = self.blanks(o, full)
        for e, h in enumerate(scn["hist"]):
            a0, z = h["a"], h["b"]
            self.hit("recompute:" + h["why"])
            rows = full.iloc[a0:z]
            if scn["fresh_labels"]:
                rows = rows.reset_index(drop=True)
            out, exc = self.compute(o, rows)
            self.log.append((e, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            if rexc:
                return
            if exc:
                self.violate("recent-bars-fail", e, f"{name_of(o)} {o['p']} raises {exc} on bars {a0}..{z - 1} but not on all bars")
                return
            for a, (v, _) in out.items():
                b = ref[a][0][a0:z]
                if len(v) != len(b):
                    self.violate("recent-bars-differ", e, f"{name_of(o, a)}: {len(v)} values for {len(b)} bars")
                    return
                if mode == "finite":
                    start = lookback(o["c"], a, o["p"]) - 1
                    tol = 1e-6 * scale_of(ref[a][0])
                elif mode == "decay":
                    start, tol = 300, 1e-5 * scale_of(ref[a][0])
                else:
                    start, tol = scn["start"], 1e-7 * scale_of(ref[a][0])
                if a0 == 0:
                    start = 0
                if start >= len(v):
                    self.probe["history too short"] = self.probe.get("history too short", 0) + 1
                    continue
                self.states.add((o["c"], a, tuple(sorted(o["p"].items())), a0, z))
                with np.errstate(all="ignore"):
                    if a0 and mode == "offset":  # equal up to the unknown sum before the first bar
                        b = b - b[start] + v[start]
                    elif a0 and mode == "factor":
                        k = 100.0 if o["c"] == "CumulativeReturnIndicator" else 0.0
                        b = (b + k) * ((v[start] + k) / (b[start] + k)) - k
                        tol = 1e-7 * max(scale_of(v), scale_of(b))
                    ok = (np.abs(v - b) <= tol + 1e-6 * np.abs(b)) | (np.isnan(v) & np.isnan(b)) | (v == b)
                if mode == "finite":
                    ok |= self.noise(o, a, full.iloc[a0:z], v, b, biggest)
                if blank:
                    ok |= blank[a][a0:z]
                if not ok[start:].all():
                    p = int(np.flatnonzero(~ok[start:])[0]) + start
                    self.violate("recent-bars-differ", e, f"{name_of(o, a)} {o['p']}: with bars {a0}..{z - 1} only, bar {a0 + p} gets {v[p]!r} instead of {b[p]!r}")
                    return

    # C13
    def run_c13(self):
        scn = self.scn
        h = scn["hist"][0]
        full = base_frame(scn["data"][0])
        clean, dirty, idx_c = dirty_feed(full, h, scn["data"][0]["seed"])
        parents = []
        order = list(dirty.columns)
        cols = h.get("cols")
        if cols == "front":
            order = order[len(market.COLS):] + order[:len(market.COLS)]
        elif cols == "mixed":
            random.Random(scn["data"][0]["seed"]).shuffle(order)
        clean, dirty = clean[order].copy(), dirty[order].copy()
        where = [order.index(c) for c in market.COLS]
        ex = [i for i, c in enumerate(order) if c not in market.COLS]
        if cols == "dup" and len(ex) > 1:  # two columns of the same name
            order[ex[-1]] = order[ex[0]]
        elif cols == "dup" and ex:
            order[ex[0]] = "volume"
        elif cols == "int":
            order = list(range(len(order)))
        elif cols == "odd" and ex:
            order[ex[0]] = ("a", 1) if len(ex) % 2 else None
        dirty.columns = clean.columns = pd.MultiIndex.from_tuples([("x", c) for c in order]) if cols == "multi" else pd.Index(order, name="field" if cols == "named" else None, dtype=object if cols in ("int", "odd") else None)
        dirty.index.name = clean.index.name = h.get("iname")
        given = dirty
        if h["layout"] == "slice":
            big = pd.concat([dirty.iloc[:1], dirty, dirty.iloc[:1]])
            given = big.iloc[1:len(dirty) + 1]
            parents.append((big, market.digest(big)))
        d0 = market.digest(given)
        self.evals += 1
        try:
            got = engine.mod("utils").dropna(given)
            if h["twice"]:
                got = engine.mod("utils").dropna(got)
        except Exception as e:
            self.violate("dropna-failed", 0, f"dropna raised {type(e).__name__}")
            return
        if market.digest(given) != d0 or any(market.digest(p) != d for p, d in parents):
            self.violate("input-modified", 0, "dropna modified its input")
        self.log.append(outcome.sig(outcome.enc(got)))
        self.states.add((len(clean), len(dirty)))
        if list(got.columns) != list(dirty.columns):
            self.violate("dropna-columns", 0, f"columns {list(got.columns)} instead of {list(dirty.columns)}")
            return
        if len(got) != len(clean) or got.index.tolist() != idx_c:
            x = [p for p in got.index.tolist() if p not in set(idx_c)][:3]
            self.violate("dropna-rows", 0, f"{len(got)} bars kept instead of {len(clean)}" + (f"; wrongly kept {x}" if x else ""))
            return
        if got.index.name != clean.index.name or list(got.columns.names) != list(clean.columns.names):
            self.violate("dropna-rows", 0, "the names of the labels are lost")
            return
        for j, c in enumerate(clean.columns):
            same = got.iloc[:, j].tolist() == clean.iloc[:, j].tolist()
            if not same:
                self.violate("dropna-values", 0, f"values of column {c} changed")
                return
        if not len(clean):
            return
        for k, o in enumerate(scn["outs"]):
            a, e1 = self.compute(o, got.iloc[:, where].set_axis(market.COLS, axis=1))
            b, e2 = safe_compute(o, clean.iloc[:, where].set_axis(market.COLS, axis=1).reset_index(drop=True).astype(float))
            self.log.append((k, e1))
            if e1 != e2:
                self.violate("features-differ", k, f"{name_of(o)}: {e1} after cleaning, {e2} on the clean feed")
                continue
            for x in a or ():
                if len(a[x][0]) != len(b[x][0]) or not close_enough(a[x][0], b[x][0], scale_of(b[x][0])).all():
                    self.violate("features-differ", k, f"{name_of(o, x)} after cleaning differs from a feed that never carried the faulty bars")

    # C14
    def run_c14(self):
        scn = self.scn
        full = base_frame(scn["data"][0])
        df = full.copy()
        for g in scn["hist"][0]["gaps"]:
            a, b = g["pos"], g["pos"] + g["len"]
            if g["kind"] == "outage":
                df.iloc[a:b] = np.nan
            elif g["kind"] == "partial":
                df.iloc[a:b, df.columns.get_loc(g["col"])] = np.nan
            elif g["kind"] == "halt":  # trading halt: price repeats, nothing trades
                for c in ("open", "high", "low", "close"):
                    df.iloc[a:b, df.columns.get_loc(c)] = df["close"].iloc[a - 1]
                df.iloc[a:b, df.columns.get_loc("volume")] = 0.0
            elif g["kind"] == "zeros":  # missing bars delivered as zeros
                df.iloc[a:b] = 0.0
            elif g["kind"] == "zerofield":
                df.iloc[a:b, df.columns.get_loc(g["col"])] = 0.0
            elif g["kind"] == "stalerange":  # high and low stop moving, the last price carries on
                for c in ("high", "low"):
                    df.iloc[a:b, df.columns.get_loc(c)] = df["close"].iloc[a - 1]
        for k, o in enumerate(scn["outs"]):
            ref, rexc, _ = self.refs[k]
            out, exc = self.compute(o, df.copy())
            self.log.append((k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            if exc != rexc:
                self.violate("outage-raises", k, f"{name_of(o)} raises {exc} after an outage")
                continue
            for a, (v, _) in (out or {}).items():
                self.states.add((name_of(o, a), len(v)))
                ok = np.isfinite(v)
                rb = np.isfinite(ref[a][0])
                if not rb.any():
                    continue
                first = int(np.argmax(rb))
                if backfilled(o, a) or first >= min(g["pos"] for g in scn["hist"][0]["gaps"]):
                    if not ok.any():  # nothing was ever defined (e.g. no up-trend in this history)
                        self.probe["never defined"] = self.probe.get("never defined", 0) + 1
                        continue
                    first = int(np.argmax(ok))
                bad = np.flatnonzero(~ok[first:])
                if bad.size:
                    p = int(bad[0]) + first
                    self.violate("undefined-after-outage", k, f"{name_of(o, a)} {o.get('p') or o.get('kw')} with gap filling on is {v[p]!r} at bar {p} (first defined bar {first})")

    def run(self):
        getattr(self, "run_" + self.scn["prop"].lower())()
        h = hashlib.sha1(repr(self.log).encode()).hexdigest()
        return {"viol": self.viol, "fired": self.fired, "events": len(self.log), "switches": 0, "preempt": [], "trace": [], "hash": h, "evals": self.evals,
                "probe": self.probe, "nlog": len(self.log), "reads": core.clock_reads(), "out": {}, "states": len(self.states)}


def apply_faults(full, faults):
    """(faulty frame, position of the last faulty bar)"""
    bad, last, n = full.copy(), -1, len(full)
    J = {c: bad.columns.get_loc(c) for c in market.COLS}
    for f in faults:
        a = f["pos"]
        b = min(n, a + f["len"])
        if a >= n:
            continue
        if f["kind"] == "nan":
            bad.iloc[a:b] = np.nan
        elif f["kind"] == "partial":
            bad.iloc[a:b, J[f["col"]]] = np.nan
        elif f["kind"] == "hole":
            bad.iloc[a:b, [J["high"], J["low"]]] = np.nan
        elif f["kind"] == "zerovol":
            bad.iloc[a:b, J["volume"]] = 0.0
        elif f["kind"] in ("spike", "bump"):
            bad.iloc[a:b, J[f["col"]]] = bad.iloc[a:b, J[f["col"]]] * f["mul"]
        elif f["kind"] == "stuck":
            for c in market.COLS:
                bad.iloc[a:b, J[c]] = bad[c].iloc[a - 1]
        elif f["kind"] == "frozen":  # every price is the last trade
            for c in ("open", "high", "low", "close"):
                bad.iloc[a:b, J[c]] = bad["close"].iloc[a - 1]
        elif f["kind"] == "crossed":  # high and low swapped
            x = bad["high"].iloc[a:b].values.copy()
            bad.iloc[a:b, J["high"]] = bad["low"].iloc[a:b].values
            bad.iloc[a:b, J["low"]] = x
        last = max(last, b - 1)
    return bad, last


BIG = math.exp(709)


def dirty_feed(full, h, seed):
    """(clean frame, feed with faulty bars inserted, labels of the clean bars)"""
    full = full.copy()
    n = len(full)
    same = sorted(k["pos"] for k in h["keep"] if k["kind"] == "repeat" and 0 < k["pos"] < n)
    for k in h["keep"]:
        j = full.columns.get_loc(k["col"])
        if k["kind"] == "repeat":  # nothing moved: a bar equal to the one before
            if 0 < k["pos"] < n:
                full.iloc[k["pos"]] = full.iloc[k["pos"] - 1].values
        elif k["pos"] < n:
            full.iloc[k["pos"], j] = {"negative": -3.5, "tiny": 1e-300, "denormal": 5e-324, "hugeneg": -1e308, "neginf": -np.inf, "big": 1e300, "almost": BIG * 0.999}[k["kind"]]
    for e in h["extra"]:
        if e == "str":
            full["venue"] = ["X"] * n
        elif e == "float":
            full["spread"] = 0.25
        elif e == "int":
            full["trades"] = np.arange(n) + 1
        elif e == "bool":
            full["halted"] = np.arange(n) % 3 == 0
        elif e == "flag":
            full["valid"] = np.ones(n, dtype="int64")
        elif e == "byte":
            full["quality"] = (np.arange(n) % 3 + 1).astype("uint8")
        elif e == "f32":
            full["weight"] = np.full(n, 0.5, dtype="float32")
        elif e == "time":
            full["received"] = pd.to_datetime(np.arange(n), unit="s")
        elif e == "cat":
            full["session"] = pd.Categorical(["am" if i % 2 else "pm" for i in range(n)], categories=["am", "pm"])
        elif e == "nullable":
            full["orders"] = pd.array(np.arange(n) + 1, dtype="Int64")
        elif e == "obj":  # numbers in an object column are not a numeric column
            full["note"] = pd.Series([i % 3 for i in range(n)], dtype=object, index=full.index)
        elif e == "int8":
            full["side"] = np.where(np.arange(n) % 2, 1, -1).astype("int8")
        elif e == "stamp":
            full["stamp"] = 1_600_000_000_000_000_001 + np.arange(n) * 7
        elif e == "age":
            full["age"] = pd.to_timedelta(np.arange(n) % 4, unit="s")
    for i in same:
        for c in full.columns[len(market.COLS):]:
            full[c] = full[c].iloc[[i - 1 if x == i else x for x in range(n)]].set_axis(full.index)
    parts, mark, pos = [], [], 0
    for row in sorted(h["rows"], key=lambda x: x["pos"]):
        p = min(row["pos"], n)
        parts.append(full.iloc[pos:p])
        mark += [True] * (p - pos)
        pos = p
        src = full.iloc[[min(p, n - 1)]].copy()
        c, k = row["col"], row["kind"]
        if k == "nan":
            src[c] = np.nan
        elif k == "zero":
            src[c] = 0.0
        elif k == "inf":
            src[c] = np.inf
        elif k == "huge":
            src[c] = BIG * 1.0000001
        elif k == "edge":
            src[c] = BIG
        elif k == "nanrow":
            for x in market.COLS:
                src[x] = np.nan
        elif k == "none":
            if "venue" in src:
                src["venue"] = None
            else:
                src[c] = np.nan
        elif k == "extra_zero":
            ex = [x for x in ("trades", "valid", "quality", "spread", "weight", "orders", "side", "stamp") if x in src]
            if ex:
                x = ex[row["pos"] % len(ex)]
                src[x] = pd.array([0], dtype=src[x].dtype)
            else:
                src[c] = 0.0
        elif k == "extra_na":
            ex = [x for x in ("received", "session", "orders", "note", "age") if x in src]
            if ex:
                x = ex[row["pos"] % len(ex)]
                src[x] = pd.Series([None], dtype=src[x].dtype, index=src.index)
            else:
                src[c] = np.nan
        elif k == "mixed":
            src[c] = np.nan
            src["close" if c != "close" else "volume"] = 0.0
        elif k == "extra_nan":
            ex = [x for x in ("spread", "weight") if x in src]
            if ex:
                x = ex[row["pos"] % len(ex)]
                src[x] = np.full(1, np.nan, dtype=src[x].dtype)
            else:
                src[c] = np.nan
        for _ in range(row["len"]):
            parts.append(src)
            mark.append(False)
    parts.append(full.iloc[pos:])
    mark += [True] * (n - pos)
    dirty = pd.concat([p for p in parts if len(p)])
    idx = market.labels(h["index"], len(dirty), seed % 1000)
    dirty.index = idx
    keep = [x for x, m in zip(idx.tolist(), mark) if m]
    clean = full.copy()
    clean.index = idx[np.array(mark)]
    if h.get("only") == "bad" and not all(mark):  # not one bar of the feed is sound
        dirty, clean, keep = dirty[~np.array(mark)], clean.iloc[:0], []
    elif h.get("only") == "none":  # nothing was recorded at all
        dirty, clean, keep = dirty.iloc[:0], clean.iloc[:0], []
    return clean, dirty, keep


WHOLE = {"C10", "C11", "C12", "C14", "C19"}  # judged against the whole history


def evaluate(scn):
    refs = batch(scn) if scn["prop"] in WHOLE else []

    def life():
        engine.seams_on(scn["seed"] % 999983)
        return FeedSim(scn, refs).run()
    res = core.in_fork(life, timeout=90)
    for k, v in scn.get("faults", {}).items():
        res["fired"][k] = res["fired"].get(k, 0) + v
    return list(res["viol"]), res


def one(prop, seed, i):
    r = random.Random(seed)
    scn = GEN[prop](r, i)
    scn.update(prop=prop, seed=seed, i=i)
    v, res = evaluate(scn)
    res["simtime"] = scn["simtime"]
    return scn, v, res

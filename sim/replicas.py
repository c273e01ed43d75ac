"""Replicated feeds (C20-C25): nodes that keep the same log but differ in entry point, method, units, gap filling or storage.

The transport, crashes and forming bars come from the same discrete-event simulation as C10; what the nodes publish is judged
against each other, against invariants, and against a bar-by-bar reference model (stream.py)."""
import math
import random

import numpy as np
import pandas as pd

from . import engine, feed, gen, guide, market, outcome, stream
from .catalog import CLASSES, CLASS_NAMES, FUNCS, FUNCS_OF, GROUPS, gen_params, lookback
from .feed import DECAY, close_enough, cls_of, compute, name_of, scale_of

INF = float("inf")

# --------------------------------------------------------------------------- documented entry points
# wrapper column -> (class, accessor, parameters); `slow` columns are left out by vectorized=True
VOLUME = {
    "volume_adi": ("AccDistIndexIndicator", "acc_dist_index", {}), "volume_obv": ("OnBalanceVolumeIndicator", "on_balance_volume", {}),
    "volume_cmf": ("ChaikinMoneyFlowIndicator", "chaikin_money_flow", {"window": 20}), "volume_fi": ("ForceIndexIndicator", "force_index", {"window": 13}),
    "volume_em": ("EaseOfMovementIndicator", "ease_of_movement", {"window": 14}), "volume_sma_em": ("EaseOfMovementIndicator", "sma_ease_of_movement", {"window": 14}),
    "volume_vpt": ("VolumePriceTrendIndicator", "volume_price_trend", {}), "volume_vwap": ("VolumeWeightedAveragePrice", "volume_weighted_average_price", {"window": 14}),
    "volume_mfi": ("MFIIndicator", "money_flow_index", {"window": 14}), "volume_nvi": ("NegativeVolumeIndexIndicator", "negative_volume_index", {})}
_B, _K, _D = {"window": 20, "window_dev": 2}, {"window": 10, "window_atr": 10, "original_version": True, "multiplier": 2}, {"window": 20, "offset": 0}
VOLATILITY = dict(
    [(f"volatility_bb{x}", ("BollingerBands", f"bollinger_{y}", _B)) for x, y in (("m", "mavg"), ("h", "hband"), ("l", "lband"), ("w", "wband"), ("p", "pband"), ("hi", "hband_indicator"), ("li", "lband_indicator"))]
    + [(f"volatility_kc{x}", ("KeltnerChannel", f"keltner_channel_{y}", _K)) for x, y in (("c", "mband"), ("h", "hband"), ("l", "lband"), ("w", "wband"), ("p", "pband"), ("hi", "hband_indicator"), ("li", "lband_indicator"))]
    + [(f"volatility_dc{x}", ("DonchianChannel", f"donchian_channel_{y}", _D)) for x, y in (("l", "lband"), ("h", "hband"), ("m", "mband"), ("w", "wband"), ("p", "pband"))]
    + [("volatility_atr", ("AverageTrueRange", "average_true_range", {"window": 10})), ("volatility_ui", ("UlcerIndex", "ulcer_index", {"window": 14}))])
_M, _I, _P = {"window_slow": 26, "window_fast": 12, "window_sign": 9}, {"window1": 9, "window2": 26, "window3": 52, "visual": False}, {"step": 0.02, "max_step": 0.20}
_S = {"roc1": 10, "roc2": 15, "roc3": 20, "roc4": 30, "window1": 10, "window2": 10, "window3": 10, "window4": 15, "nsig": 9}
TREND = dict(
    [("trend_" + a, ("MACD", a, _M)) for a in ("macd", "macd_signal", "macd_diff")]
    + [("trend_sma_fast", ("SMAIndicator", "sma_indicator", {"window": 12})), ("trend_sma_slow", ("SMAIndicator", "sma_indicator", {"window": 26})),
       ("trend_ema_fast", ("EMAIndicator", "ema_indicator", {"window": 12})), ("trend_ema_slow", ("EMAIndicator", "ema_indicator", {"window": 26}))]
    + [(f"trend_vortex_ind_{x}", ("VortexIndicator", f"vortex_indicator_{x}", {"window": 14})) for x in ("pos", "neg", "diff")]
    + [("trend_trix", ("TRIXIndicator", "trix", {"window": 15})), ("trend_mass_index", ("MassIndex", "mass_index", {"window_fast": 9, "window_slow": 25})), ("trend_dpo", ("DPOIndicator", "dpo", {"window": 20}))]
    + [("trend_" + a, ("KSTIndicator", a, _S)) for a in ("kst", "kst_sig", "kst_diff")]
    + [("trend_ichimoku_conv", ("IchimokuIndicator", "ichimoku_conversion_line", _I)), ("trend_ichimoku_base", ("IchimokuIndicator", "ichimoku_base_line", _I))]
    + [("trend_" + a, ("IchimokuIndicator", a, _I)) for a in ("ichimoku_a", "ichimoku_b")]
    + [("trend_stc", ("STCIndicator", "stc", {"window_slow": 50, "window_fast": 23, "cycle": 10, "smooth1": 3, "smooth2": 3}))]
    + [("trend_" + a, ("ADXIndicator", a, {"window": 14})) for a in ("adx", "adx_pos", "adx_neg")]
    + [("trend_cci", ("CCIIndicator", "cci", {"window": 20, "constant": 0.015}))]
    + [("trend_visual_" + a, ("IchimokuIndicator", a, dict(_I, visual=True))) for a in ("ichimoku_a", "ichimoku_b")]
    + [("trend_aroon_" + x, ("AroonIndicator", "aroon_" + y, {"window": 25})) for x, y in (("up", "up"), ("down", "down"), ("ind", "indicator"))]
    + [("trend_" + a, ("PSARIndicator", a, _P)) for a in ("psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator")])
_R = {"window": 14, "smooth1": 3, "smooth2": 3}
MOMENTUM = dict(
    [("momentum_rsi", ("RSIIndicator", "rsi", {"window": 14})), ("momentum_stoch_rsi", ("StochRSIIndicator", "stochrsi", _R)), ("momentum_stoch_rsi_k", ("StochRSIIndicator", "stochrsi_k", _R)),
     ("momentum_stoch_rsi_d", ("StochRSIIndicator", "stochrsi_d", _R)), ("momentum_tsi", ("TSIIndicator", "tsi", {"window_slow": 25, "window_fast": 13})),
     ("momentum_uo", ("UltimateOscillator", "ultimate_oscillator", {"window1": 7, "window2": 14, "window3": 28, "weight1": 4.0, "weight2": 2.0, "weight3": 1.0})),
     ("momentum_stoch", ("StochasticOscillator", "stoch", {"window": 14, "smooth_window": 3})), ("momentum_stoch_signal", ("StochasticOscillator", "stoch_signal", {"window": 14, "smooth_window": 3})),
     ("momentum_wr", ("WilliamsRIndicator", "williams_r", {"lbp": 14})), ("momentum_ao", ("AwesomeOscillatorIndicator", "awesome_oscillator", {"window1": 5, "window2": 34})),
     ("momentum_roc", ("ROCIndicator", "roc", {"window": 12}))]
    + [("momentum_" + a, ("PercentagePriceOscillator", a, _M)) for a in ("ppo", "ppo_signal", "ppo_hist")]
    + [("momentum_" + a, ("PercentageVolumeOscillator", a, _M)) for a in ("pvo", "pvo_signal", "pvo_hist")]
    + [("momentum_kama", ("KAMAIndicator", "kama", {"window": 10, "pow1": 2, "pow2": 30}))])
OTHERS = {"others_dr": ("DailyReturnIndicator", "daily_return", {}), "others_dlr": ("DailyLogReturnIndicator", "daily_log_return", {}), "others_cr": ("CumulativeReturnIndicator", "cumulative_return", {})}
COLUMNS = {"add_volume_ta": VOLUME, "add_volatility_ta": VOLATILITY, "add_trend_ta": TREND, "add_momentum_ta": MOMENTUM, "add_others_ta": OTHERS}
COLUMNS["add_all_ta_features"] = {k: v for d in (VOLUME, VOLATILITY, TREND, MOMENTUM, OTHERS) for k, v in d.items()}
SLOW = {"volume_mfi", "volume_nvi", "volatility_atr", "volatility_ui", "trend_adx", "trend_adx_pos", "trend_adx_neg", "trend_cci", "trend_visual_ichimoku_a", "trend_visual_ichimoku_b", "trend_aroon_up",
        "trend_aroon_down", "trend_aroon_ind", "trend_psar_up", "trend_psar_down", "trend_psar_up_indicator", "trend_psar_down_indicator", "momentum_kama"}
# documented defaults of functions where they are not the class's
DEFAULTS = {"donchian_channel_mband": {"window": 10}, "donchian_channel_wband": {"window": 10}, "donchian_channel_pband": {"window": 10}, "ema_indicator": {"window": 12}}
# documented positions: data, parameters, fillna - except where older signatures were extended at the end
ORDER = {"volume_price_trend": ["fillna", "smoothing_factor", "dropnans"]}
for _f, (_m, _c, _a, _p) in FUNCS.items():
    if _c == "KeltnerChannel":
        ORDER[_f] = ["window", "window_atr", "fillna", "original_version"]


def class_params(f, p):
    """what a function call means: parameters of the class behind it"""
    c = FUNCS[f][1]
    d = {k: s[1] for k, s in CLASSES[c][2].items() if k in FUNCS[f][3]}
    d.update(DEFAULTS.get(f, {}))
    d.update(p)
    return {k: v for k, v in d.items() if v is not None}


def call_fn(o, df):
    """a function, called by keyword, by position, or both"""
    m, c, a, ps = FUNCS[o["f"]]
    fn = getattr(engine.mod(m), o["f"])
    p = dict(o["p"])
    if o.get("fillna") is not None:
        p["fillna"] = o["fillna"]
    data = [df[x] for x in CLASSES[c][1]]
    style = o.get("style", "kw")
    if style == "kw":
        return fn(**dict(zip(CLASSES[c][1], data)), **p)
    order = ORDER.get(o["f"]) or list(ps) + ["fillna"]
    pos = []
    if style == "pos":
        for k in order:
            if k not in p:
                break
            pos.append(p.pop(k))
    return fn(*data, *pos, **p)


# --------------------------------------------------------------------------- histories
def history(r, n, nodes, cap, ticks=True):
    cfg = {"drop": r.choice([0, 0.05, 0.2]), "dup": r.choice([0, 0.1, 0.3]), "jitter": r.choice([1, 40, 300]), "flush": r.choice([0.2, 0.6, 1.0]),
           "crashes": r.choice([0, 1, 2]), "partition": r.choice([0, 0.5]), "compute": min(1.0, 2.0 * cap / max(4, n * nodes))}
    net = feed.Net(r.randrange(1 << 40), n, nodes, cfg).run()
    hist = net.hist
    if len(hist) > cap:
        keep = sorted(r.sample(range(len(hist)), cap))
        hist = [hist[k] for k in keep]
    hist = hist + [{"t": round(net.now, 3), "node": r.randrange(nodes), "L": n, "prov": None, "why": "catch-up"}]
    return hist, net.count, net.now


def cap_of(c, n, most=12):
    k = {"PSARIndicator": 5, "ADXIndicator": 8, "WMAIndicator": 7}.get(c, most)
    return max(2, min(k, k * 120 // n)) if n > 120 else k


def rows_of(full, h):
    L = h["L"]
    rows = full.iloc[:L]
    if h.get("prov"):
        po, ph, pl, pc, pv = h["prov"]
        base = full["close"].iloc[L - 1] if L else full["open"].iloc[0]
        if not base > 0:
            return rows
        o_, c_ = base * po, base * pc
        rows = pd.concat([rows, pd.DataFrame({"open": [o_], "high": [max(o_, c_) * max(1.0, ph)], "low": [min(o_, c_) * pl], "close": [c_], "volume": [np.floor(1 + 2000 * pv)]})], ignore_index=True)
        rows = rows.astype(full.dtypes.to_dict())
    return rows


def stamped(scn, rows):
    s = scn["data"][0]
    rows = rows.reset_index(drop=True)
    rows.index = market.labels(s.get("labels", "range"), len(rows), s["seed"] % 1000)
    return rows


def params(r, c, scale, style=None):
    """parameters with distinct windows (equal ones make differences vanish)"""
    p = gen_params(r, c, scale=scale, style=style or r.choice(["default", "small", "any", "any", "odd"]), safe=True)
    if c in ("MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator", "STCIndicator"):
        for _ in range(4):
            if p.get("window_slow", 26) != p.get("window_fast", 12):
                break
            p["window_slow"] = p.get("window_slow", 26) + r.randint(1, 9)
    if r.random() < 0.1:
        ws = [k for k, s in CLASSES[c][2].items() if s[0] == "w"]
        if ws:
            p[r.choice(ws)] = 1
    return p


def data_of(r, n, odd=("frozen", "same", "crossed"), p=0.35, dtypes=("float64",), spread=0.08):
    spec = market.gen_spec(r, n=n, plain=True)
    if r.random() < spread:
        spec["kind"] = "spread"
    spec["labels"] = r.choice(["range", "range", "range", "dt", "str", "gap", "dup", "shuffled", "float", "desc"])
    spec["dtype"] = r.choice(dtypes)
    if r.random() < p:
        spec["odd"] = [[r.randrange(n), r.choice(odd), r.choice(market.COLS), r.choice([1, 1, 2, 8])] for _ in range(r.randint(1, 3))]
    if r.random() < 0.2:
        spec["zerovol"] = sorted({r.randrange(n) for _ in range(r.choice([1, 3, n // 3 + 1]))})
    if r.random() < 0.12:
        spec["auctions"] = feed.auctions(r, n)
    return spec


def length(r, lo=1, long=0.12):
    n = r.choices([r.randint(lo, 12 + lo), r.randint(12, 45), r.randint(40, 110), r.randint(100, 260)], [2, 4, 5, 10 * long])[0]
    return guide.size(r, max(lo, n), lo=lo)


# --------------------------------------------------------------------------- C20: entry points
def gen_c20(r, i):
    wrap = i % 5 == 4
    n = length(r)
    if wrap:
        n = guide.size(r, r.randint(28, 90), lo=28, hi=400)
    spec = data_of(r, n, dtypes=("float64",) * 5 + ("float32", "int64"))
    if r.random() < 0.25 and spec["dtype"] != "int64":
        spec["nan"] = sorted({r.randrange(n) for _ in range(2)})
    sc = guide.scale(30, max(2, n - 1))
    outs = []
    if wrap:
        g = guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS))
        fl = r.random() < 0.5
        outs.append({"op": "wrap", "f": g, "kw": {"fillna": fl, "vectorized": r.random() < 0.35, "colprefix": r.choice(["", "", "x_", "volume_", ".", "{}", r.choice(sorted(COLUMNS[g]))[:r.randint(1, 14)], r.choice(sorted(COLUMNS[g]))])}, "style": r.choice(["kw", "pos"])})
        hist, cnt, now = history(r, n, 2, 2)
    else:
        c = gen.focus(r, i, 20)
        fs = FUNCS_OF.get(c) or r.choice([FUNCS_OF["RSIIndicator"], FUNCS_OF["EMAIndicator"]])
        for f in r.sample(fs, min(len(fs), 3)):
            p = {k: v for k, v in params(r, FUNCS[f][1], sc).items() if k in FUNCS[f][3]}
            if r.random() < 0.3:
                p = {}
            outs.append({"op": "fn", "f": f, "p": p, "fillna": r.choice([True, False, None]), "style": r.choice(["kw", "mixed", "pos", "pos"])})
        hist, cnt, now = history(r, n, 2, cap_of(c, n, 6))
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now}


def frame20(scn, dirty=True):
    s = scn["data"][0]
    full = feed.base_frame(s)
    if s["dtype"] == "int64":
        full = full.astype("int64")
    for k in s.get("nan") or ():
        full.iloc[k] = np.nan
    return full


def wrapped(o, df):
    names, vec = GROUPS[o["f"]]
    kw = dict(o["kw"])
    if not vec:
        kw.pop("vectorized", None)
    work = df.copy()
    fn = getattr(engine.mod("wrapper"), o["f"])
    if o["style"] == "pos":
        out = fn(work, *names, *([kw["fillna"], kw["colprefix"]] + ([kw["vectorized"]] if vec else [])))
    else:
        out = fn(df=work, **{k: k for k in names}, **kw)
    return out


def run_c20(self):
    scn = self.scn
    full = frame20(scn)
    for e, h in enumerate(scn["hist"]):
        rows = stamped(scn, rows_of(full, h))
        if not len(rows):
            continue
        self.hit("recompute:" + h["why"])
        for k, o in enumerate(scn["outs"]):
            if o["op"] == "fn":
                m, c, a, _ = FUNCS[o["f"]]
                ref, rexc = published({"op": "cls", "c": c, "p": class_params(o["f"], o["p"]), "fillna": o["fillna"], "acc": [a]}, rows)
                got, exc = attempt(lambda: {a: call_fn(o, rows)})
                self.evals += 1
                self.log.append((e, k, exc, sig(got)))
                self.states.add((o["f"], repr(sorted(o["p"].items())), len(rows)))
                if exc != rexc:
                    self.violate("entry-points-differ", e, f"{o['f']}() {o['p']} on {len(rows)} bars: {exc or 'succeeds'}, class {c}: {rexc or 'succeeds'}")
                    continue
                if not exc:
                    differ(self, "entry-points-differ", e, f"{o['f']}({o['style']}) {o['p']} fillna={o['fillna']}", got[a], ref[a], f"{c}.{a}()", name=True)
                continue
            fl = o["kw"]["fillna"]
            vec = o["kw"]["vectorized"] and GROUPS[o["f"]][1]
            want = {o["kw"]["colprefix"] + x: t for x, t in COLUMNS[o["f"]].items() if not (vec and x in SLOW)}
            got, exc = attempt(lambda: wrapped(o, rows))
            self.evals += 1
            self.log.append((e, k, exc, outcome.sig(outcome.enc(got)) if got is not None else None))
            self.states.add((o["f"], fl, vec, len(rows)))
            memo, rexc = {}, None
            for x, (c, a, p) in want.items():
                key = (c, repr(p))
                if key not in memo:
                    memo[key] = published({"op": "cls", "c": c, "p": p, "fillna": fl, "acc": list(CLASSES[c][3])}, rows)
                    rexc = rexc or memo[key][1]
            if (exc is None) != (rexc is None):
                self.violate("entry-points-differ", e, f"{o['f']} {o['kw']} on {len(rows)} bars: {exc or 'succeeds'}, single indicators: {rexc or 'succeed'}")
                continue
            if exc:
                continue
            new = [x for x in got.columns if x not in rows.columns]
            if set(new) != set(want) or len(new) != len(set(new)):
                self.violate("wrong-columns", e, f"{o['f']} {o['kw']}: missing {sorted(set(want) - set(new))[:4]}, unexpected {sorted(map(str, set(new) - set(want)))[:4]}")
                continue
            for x, (c, a, p) in want.items():
                differ(self, "entry-points-differ", e, f"column {x} of {o['f']} {o['kw']}", got[x], memo[(c, repr(p))][0][a], f"{c}({p}).{a}()")


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, type(e).__name__


def published(o, df):
    return attempt(lambda: compute(o, df))


def sig(out):
    return outcome.sig([sorted((a, feed.raw(v)) for a, v in (out or {}).items())])


def differ(self, cls, e, what, s, ref, than, name=False):
    v, ix = feed.raw(s)
    b, ixb = feed.raw(ref)
    if len(v) != len(b) or ix != ixb:
        self.violate(cls, e, f"{what}: {len(v)} values, other labels or length than {than}")
        return
    if name and s.name != ref.name:
        self.violate(cls, e, f"{what}: named {s.name!r}, {than} {ref.name!r}")
        return
    ok = close_enough(v, b, scale_of(b) * 1e-3)
    if not ok.all():
        p = int(np.flatnonzero(~ok)[0])
        self.violate(cls, e, f"{what} at bar {p} of {len(v)}: {v[p]!r}, {than}: {b[p]!r}")


# --------------------------------------------------------------------------- C21: a bar-by-bar replica
NEEDS = {"ADXIndicator": lambda p: 2 * p.get("window", 14), "AverageTrueRange": lambda p: p.get("window", 14), "KeltnerChannel": lambda p: 0 if p.get("original_version", True) else p.get("window_atr", 10)}


def gen_c21(r, i):
    n = length(r, long=0.2)
    spec = data_of(r, n)
    sc = guide.scale(r.choice([5, 14, 30]), max(2, n))
    c = gen.focus(r, i, 21)
    outs = []
    for k in range(2):
        fl = r.random() < 0.5
        if k and FUNCS_OF.get(c) and r.random() < 0.5:
            f = r.choice(FUNCS_OF[c])
            p = {q: v for q, v in params(r, c, sc).items() if q in FUNCS[f][3]}
            outs.append({"op": "fn", "f": f, "p": p, "fillna": fl})
        else:
            outs.append({"op": "cls", "c": c, "p": params(r, c, sc), "fillna": fl, "acc": list(CLASSES[c][3])})
    if spec["kind"] == "spread" and c == "MFIIndicator":  # money flow below zero has no meaning
        spec["kind"] = "walk"
    hist, cnt, now = history(r, n, r.choice([2, 3]), cap_of(c, n, 6))
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now}


def model_of(o):
    c = cls_of(o)
    p = class_params(o["f"], o["p"]) if o["op"] == "fn" else dict(o["p"])
    if c == "SMAIndicator":
        p.setdefault("window", 12)
    p.pop("dropnans", None)
    return c, p


def run_c21(self):
    scn = self.scn
    full = feed.base_frame(scn["data"][0])
    bars = full[market.COLS].values.tolist()
    stops = {}
    for e, h in enumerate(scn["hist"]):
        stops.setdefault(h["L"], []).append(e)
    for k, o in enumerate(scn["outs"]):
        c, p = model_of(o)
        need = NEEDS.get(c, lambda p: 0)(p)
        m = stream.build(c, p, bool(o.get("fillna")))
        vals, forming = [], {}
        top = max(stops)
        for L in range(top + 1):  # the streaming replica: one bar at a time; a forming bar goes to a copy of its state
            for e in stops.get(L, ()):
                h = scn["hist"][e]
                rows = rows_of(full, h)
                if len(rows) > L:
                    forming[e] = stream.snapshot(m).push(tuple(rows.iloc[L][market.COLS].values.tolist()))
            if L < top:
                vals.append(m.push(tuple(bars[L])))
        for e, h in enumerate(scn["hist"]):
            rows = stamped(scn, rows_of(full, h))
            if not len(rows):
                continue
            if k == 0:
                self.hit("recompute:" + h["why"])
            want = vals[:h["L"]] + ([forming[e]] if e in forming else [])
            out, exc = self.compute(o, rows)
            self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            self.states.add((c, repr(sorted(p.items())), len(rows)))
            if exc:
                if len(rows) >= need:
                    self.violate("replica-differs", e, f"{name_of(o)} {o['p']} raises {exc} on {len(rows)} bars")
                continue
            for a, (v, _) in out.items():
                if len(v) != len(want):
                    self.violate("replica-differs", e, f"{name_of(o, a)} {o['p']}: {len(v)} values for {len(want)} bars")
                    continue
                big = 0.0
                for j, w in enumerate(want):
                    x, err = w[a]
                    if err == INF:
                        self.probe["left open"] = self.probe.get("left open", 0) + 1
                        continue
                    y = float(v[j])
                    if x != x:
                        ok = y != y
                    elif math.isinf(x):
                        ok = y == x
                    else:
                        big = max(big, abs(x))
                        ok = abs(y - x) <= 50 * err + 1e-9 * abs(x) + 1e-10 * big
                    self.probe["values compared"] = self.probe.get("values compared", 0) + 1
                    if not ok:
                        self.violate("replica-differs", e, f"{name_of(o, a)} {o['p']} fillna={bool(o.get('fillna'))} at bar {j} of {len(want)}: library {y!r}, bar-by-bar replica {x!r}")
                        break


# --------------------------------------------------------------------------- C22: sanity of everything published
def near(tol, *xs):
    return tol * max([1e-300] + [float(np.nanmax(np.abs(x[np.isfinite(x)]))) for x in xs if np.isfinite(x).any()])


def rng(lo, hi):
    def f(v, d):
        t = 1e-7 * max([abs(x) for x in (lo, hi) if x is not None] + [1e-9])
        if lo == 0 and hi is None:
            t = near(1e-9, v)
        with np.errstate(all="ignore"):
            bad = np.zeros(len(v), dtype=bool)
            if lo is not None:
                bad |= v < lo - t
            if hi is not None:
                bad |= v > hi + t
        return bad
    return f


FLAG = lambda v, d: ~np.isnan(v) & (v != 0) & (v != 1)
RANGE = {
    "rsi": rng(0, 100), "stoch": rng(0, 100), "stoch_signal": rng(0, 100), "williams_r": rng(-100, 0), "money_flow_index": rng(0, 100), "aroon_up": rng(0, 100), "aroon_down": rng(0, 100),
    "aroon_indicator": rng(-100, 100), "adx": rng(0, 100), "adx_pos": rng(0, 100), "adx_neg": rng(0, 100), "ultimate_oscillator": rng(0, 100), "stochrsi": rng(0, 1), "stochrsi_k": rng(0, 1),
    "stochrsi_d": rng(0, 1), "stc": rng(0, 100), "tsi": rng(-100, 100), "chaikin_money_flow": rng(-1, 1), "ulcer_index": rng(0, 100), "average_true_range": rng(0, None), "bollinger_wband": rng(0, None),
    "donchian_channel_wband": rng(0, None), "keltner_channel_wband": rng(0, None), "vortex_indicator_pos": rng(0, None), "vortex_indicator_neg": rng(0, None), "mass_index": rng(0, None),
    "bollinger_hband_indicator": FLAG, "bollinger_lband_indicator": FLAG, "keltner_channel_hband_indicator": FLAG, "keltner_channel_lband_indicator": FLAG, "psar_up_indicator": FLAG, "psar_down_indicator": FLAG,
    "roc": rng(-100, None), "daily_return": rng(-100, None), "cumulative_return": rng(-100, None), "negative_volume_index": rng(0, None)}
DIFF = {"macd_diff": ("macd", "macd_signal"), "ppo_hist": ("ppo", "ppo_signal"), "pvo_hist": ("pvo", "pvo_signal"), "kst_diff": ("kst", "kst_sig"), "aroon_indicator": ("aroon_up", "aroon_down"),
        "vortex_indicator_diff": ("vortex_indicator_pos", "vortex_indicator_neg")}


def above(a, b, tol):
    with np.errstate(all="ignore"):
        return a < b - tol


def relations(c, p, fl, v, df):
    """(what, bad positions) for one publication of all outputs of a class"""
    out = []
    hi, lo, cl, vol = (df[x].values.astype(float) for x in ("high", "low", "close", "volume"))
    for a, x in v.items():
        if a in RANGE:
            out.append((f"{a} out of range", RANGE[a](x, df), a))
    for a, (x, y) in DIFF.items():
        if a in v and not fl:
            with np.errstate(all="ignore"):
                t = near(1e-9, v[x], v[y])
                out.append((f"{a} is not {x} - {y}", (np.abs(v[a] - (v[x] - v[y])) > t) | (np.isnan(v[a]) != np.isnan(v[x] - v[y])), a))
    if c in ("BollingerBands", "DonchianChannel", "KeltnerChannel"):
        s = {"BollingerBands": "bollinger_", "DonchianChannel": "donchian_channel_", "KeltnerChannel": "keltner_channel_"}[c]
        h, l, m = v[s + "hband"], v[s + "lband"], v[s + ("mavg" if c[0] == "B" else "mband")]
        t = near(1e-9, h, l)
        out += [("upper band below the middle", above(h, m, t), s + "hband"), ("middle below the lower band", above(m, l, t), s + "lband")]
        if s + "hband_indicator" in v and not fl:
            with np.errstate(all="ignore"):
                for q, inside, outside in (("hband", cl < h - t, cl > h + t), ("lband", cl > l + t, cl < l - t)):
                    f = v[s + q + "_indicator"]
                    out.append((f"{q} flag disagrees with the price", (inside & (f == 1)) | (outside & (f == 0)), s + q + "_indicator"))
                    out.append((f"{q} flag without a band or a price", (np.isnan(v[s + q]) | np.isnan(cl)) & (f != 0), s + q + "_indicator"))
                    out.append((f"{q} flag although the price lies on both bands", (h == l) & (cl == h) & (f == 1), s + q + "_indicator"))
        with np.errstate(all="ignore"):
            w = v[s + "wband"]
            if c == "BollingerBands" or not fl:
                base = m
                if c == "BollingerBands":
                    out.append(("band width is not the distance of the bands", np.isfinite(w) & np.isfinite(h - l) & (np.abs(w * np.abs(m) / 100 - (h - l)) > 100 * t) & ~np.isnan(m), s + "wband"))
            pb = v[s + "pband"]
            if not fl and not p.get("offset"):
                d = h - l
                out.append(("position in the band disagrees with the bands", np.isfinite(pb) & (d > 1e-5 * np.abs(h)) & (np.abs(pb * d - (cl - l)) > 1e-7 * np.abs(h)), s + "pband"))
        if c == "DonchianChannel" and not p.get("offset"):
            out += [("high above the channel", above(h, hi, t), s + "hband"), ("low below the channel", above(lo, l, t), s + "lband")]
    if c == "PSARIndicator" and not fl:
        u, d, x = v["psar_up"], v["psar_down"], v["psar"]
        out += [("up and down at once", ~np.isnan(u) & ~np.isnan(d), "psar_up"),
                ("stop value is neither the up nor the down value", ~(np.isnan(u) & np.isnan(d)) & ~((x == u) | (x == d)), "psar"),
                ("flag without a turn", ((v["psar_up_indicator"] == 1) & np.isnan(u)) | ((v["psar_down_indicator"] == 1) & np.isnan(d)), "psar_up_indicator"),
                ("up stop above the bar it protects", above(lo, u, near(1e-9, hi)) & (v["psar_up_indicator"] == 0) & (np.arange(len(u)) > 1), "psar_up"),
                ("down stop below the bar it protects", above(d, hi, near(1e-9, hi)) & (v["psar_down_indicator"] == 0) & (np.arange(len(u)) > 1), "psar_down")]
        turn = np.zeros(len(u), dtype=bool)
        turn[1:] = ~np.isnan(u[1:]) & np.isnan(u[:-1])
        out.append(("up flag missing at a turn", turn & (v["psar_up_indicator"] != 1), "psar_up_indicator"))
        turn = np.zeros(len(u), dtype=bool)
        turn[1:] = ~np.isnan(d[1:]) & np.isnan(d[:-1])
        out.append(("down flag missing at a turn", turn & (v["psar_down_indicator"] != 1), "psar_down_indicator"))
    if c in ("SMAIndicator", "EMAIndicator", "WMAIndicator", "KAMAIndicator") and not fl:
        x = v[CLASSES[c][3][0]]
        mx, mn = np.fmax.accumulate(cl), np.fmin.accumulate(cl)
        t = near(1e-9, cl)
        out.append(("average outside the prices seen so far", above(mx, x, t) | above(x, mn, t), CLASSES[c][3][0]))
    if c == "VolumeWeightedAveragePrice" and not fl:
        x = v["volume_weighted_average_price"]
        mx, mn = np.fmax.accumulate(hi), np.fmin.accumulate(lo)
        out.append(("average outside the prices seen so far", above(mx, x, near(1e-7, hi)) | above(x, mn, near(1e-7, hi)), "volume_weighted_average_price"))
    if c == "IchimokuIndicator" and not fl:
        mx, mn, t = np.fmax.accumulate(hi), np.fmin.accumulate(lo), near(1e-9, hi)
        for a in v:
            out.append(("line outside the prices seen so far", above(mx, v[a], t) | above(v[a], mn, t), a))
    if c == "OnBalanceVolumeIndicator" and not fl:
        x = v["on_balance_volume"]
        d = np.diff(x)
        t = near(1e-9, np.nancumsum(vol))
        bad = np.zeros(len(x), dtype=bool)
        with np.errstate(all="ignore"):
            bad[1:] = (np.abs(np.abs(d) - vol[1:]) > t) | ((cl[1:] < cl[:-1]) & (d > t)) | ((cl[1:] > cl[:-1]) & (d < -t))
        out.append(("step is not the bar's volume", bad, "on_balance_volume"))
    if c == "AccDistIndexIndicator" and not fl:
        x = v["acc_dist_index"]
        bad = np.zeros(len(x), dtype=bool)
        with np.errstate(all="ignore"):
            bad[1:] = np.abs(np.diff(x)) > vol[1:] + near(1e-9, np.nancumsum(vol))
        out.append(("step larger than the bar's volume", bad, "acc_dist_index"))
    if c == "NegativeVolumeIndexIndicator" and not fl:
        x = v["negative_volume_index"]
        bad = np.zeros(len(x), dtype=bool)
        with np.errstate(all="ignore"):
            bad[1:] = ((vol[1:] >= vol[:-1]) & (x[1:] != x[:-1])) | ((vol[1:] < vol[:-1]) & (((cl[1:] > cl[:-1]) & (x[1:] <= x[:-1])) | ((cl[1:] < cl[:-1]) & (x[1:] >= x[:-1]))))
        out.append(("moves although the volume did not fall, or the wrong way", bad, "negative_volume_index"))
    if c in ("RSIIndicator",) and not fl:
        pass
    return [(w, np.flatnonzero(b), a) for w, b, a in out if b.any()]


def gen_c22(r, i):
    n = length(r, lo=2)
    spec = data_of(r, n, odd=("frozen", "frozen", "same0"), p=0.0, spread=0.0)
    c = gen.focus(r, i, 22)
    sc = guide.scale(r.choice([5, 14, 30]), max(2, n - 1))
    outs = [{"op": "cls", "c": c, "p": params(r, c, sc), "fillna": r.random() < 0.4, "acc": list(CLASSES[c][3])} for _ in range(2)]
    bad = []
    kinds = ["halt", "halt", "frozen", "zerovol", "stuck", "gapup", "outage", "limit"]
    if c in ("PSARIndicator", "AverageTrueRange", "ADXIndicator", "KeltnerChannel", "NegativeVolumeIndexIndicator", "OnBalanceVolumeIndicator", "AccDistIndexIndicator"):
        kinds.remove("outage")
    cnt = {}
    for _ in range(r.choice([0, 1, 2, 3])):
        k = r.choice(kinds)
        bad.append({"kind": k, "pos": guide.number(r, r.randrange(1, n), 1, n - 1), "len": r.choice([1, 2, 3, 8, 20]), "mul": r.choice([0.5, 0.9, 1.2, 3.0])})
        cnt[k] = cnt.get(k, 0) + 1
    hist, c2, now = history(r, n, 2, cap_of(c, n, 5))
    cnt.update(c2)
    hist[0]["bad"] = bad
    return {"data": [spec], "outs": outs, "hist": [dict(h, bad=bad) for h in hist], "faults": cnt, "simtime": now}


def damage(full, bad):
    """valid but unusual trading: halts, gaps, limit moves, missing bars"""
    df = full.copy()
    n = len(df)
    J = {c: df.columns.get_loc(c) for c in market.COLS}
    px = [J[c] for c in ("open", "high", "low", "close")]
    for f in bad:
        a, b = f["pos"], min(n, f["pos"] + f["len"])
        if a >= n:
            continue
        last = df["close"].iloc[a - 1]
        if f["kind"] == "halt":
            df.iloc[a:b, px] = last
            df.iloc[a:b, J["volume"]] = 0.0
        elif f["kind"] == "frozen":
            df.iloc[a:b, px] = last
        elif f["kind"] == "zerovol":
            df.iloc[a:b, J["volume"]] = 0.0
        elif f["kind"] == "stuck":
            for c in market.COLS:
                df.iloc[a:b, J[c]] = df[c].iloc[a - 1]
        elif f["kind"] == "gapup":
            df.iloc[a:, px] = df.iloc[a:, px].values * f["mul"]
        elif f["kind"] == "limit":  # the bar closes at its high or low
            df.iloc[a:b, J["close"]] = df[["high", "low"][f["mul"] < 1]].iloc[a:b].values
        elif f["kind"] == "outage":
            df.iloc[a:b] = np.nan
    return df


def run_c22(self):
    scn = self.scn
    full = damage(feed.base_frame(scn["data"][0]), scn["hist"][0]["bad"])
    for e, h in enumerate(scn["hist"]):
        rows = stamped(scn, rows_of(full, h))
        if not len(rows):
            continue
        self.hit("recompute:" + h["why"])
        for k, o in enumerate(scn["outs"]):
            out, exc = self.compute(o, rows)
            self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            self.states.add((o["c"], repr(sorted(o["p"].items())), len(rows)))
            if exc:
                continue
            short = [a for a, (v, _) in out.items() if len(v) != len(rows)]
            if short:
                self.violate("insane-value", e, f"{name_of(o, short[0])}: {len(out[short[0]][0])} values for {len(rows)} bars")
                continue
            for what, pos, a in relations(o["c"], dict(o["p"]), o["fillna"], {a: v for a, (v, _) in out.items()}, rows):
                p = int(pos[0])
                self.violate("insane-value", e, f"{name_of(o, a)} {o['p']} fillna={o['fillna']}: {what} at bar {p} of {len(rows)} ({out[a][0][p]!r})")


# --------------------------------------------------------------------------- C23: other units
DEG = {a: (0, 0) for c in CLASSES for a in CLASSES[c][3]}
for _a in ("volume_weighted_average_price", "average_true_range", "bollinger_mavg", "bollinger_hband", "bollinger_lband", "donchian_channel_hband", "donchian_channel_lband", "donchian_channel_mband",
           "keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband", "dpo", "ema_indicator", "sma_indicator", "wma", "ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b",
           "macd", "macd_signal", "macd_diff", "psar", "psar_up", "psar_down", "awesome_oscillator", "kama"):
    DEG[_a] = (1, 0)
for _a in ("acc_dist_index", "on_balance_volume", "volume_price_trend"):
    DEG[_a] = (0, 1)
DEG["force_index"] = (1, 1)
DEG["ease_of_movement"] = DEG["sma_ease_of_movement"] = (2, -1)


def gen_c23(r, i):
    n = length(r, lo=2)
    spec = data_of(r, n, dtypes=("float64",) * 6 + ("float32",))
    spec["kind"] = r.choice(["walk", "trend", "flat", "ties", "spiky", "saw", "calm", "ticks", "spread"])
    if spec["kind"] == "calm":
        spec["dtype"] = "float64"
    if r.random() < 0.2:
        spec["nan"] = sorted({r.randrange(n) for _ in range(2)})
    c = gen.focus(r, i, 23)
    sc = guide.scale(r.choice([5, 14, 30]), max(2, n - 1))
    fl = r.random() < 0.5
    outs = [{"op": "cls", "c": c, "p": params(r, c, sc), "fillna": fl, "acc": list(CLASSES[c][3])}]
    if i % 9 == 8:
        outs = [{"op": "wrap", "f": guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)), "kw": {"fillna": fl, "vectorized": r.random() < 0.5}}]
    hist, cnt, now = history(r, n, 2, 3 if i % 9 == 8 else cap_of(c, n, 6))
    small = spec["dtype"] == "float32"
    ks = [0, 1, -1, 2, -3, 7, -7, -20, 20, -40, 40]
    for h in hist:
        a, b = r.choice(ks), r.choice(ks)
        if small:
            a, b = max(-8, min(8, a)), max(-4, min(4, b))
        u = r.choice(["split", "price unit", "volume unit", "both"])
        h["unit"] = {"split": [a, -a], "price unit": [a, 0], "volume unit": [0, b], "both": [a, b]}[u]
        cnt["restated: " + u] = cnt.get("restated: " + u, 0) + 1
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now}


def restate(rows, a, b):
    out = rows.copy()
    for x in ("open", "high", "low", "close"):
        out[x] = (rows[x] * 2.0 ** a).astype(rows[x].dtype)
    out["volume"] = (rows["volume"] * 2.0 ** b).astype(rows["volume"].dtype)
    return out


def degree(o, a):
    if o["op"] == "wrap":
        a = COLUMNS[o["f"]].get(a, (None, None))[1]
    return DEG.get(a, (0, 0))


def run_c23(self):
    scn = self.scn
    full = feed.base_frame(scn["data"][0])
    for k in scn["data"][0].get("nan") or ():
        full.iloc[k] = np.nan
    for e, h in enumerate(scn["hist"]):
        rows = stamped(scn, rows_of(full, h))
        if not len(rows):
            continue
        self.hit("recompute:" + h["why"])
        pa, pb = h["unit"]
        other = restate(rows, pa, pb)
        for k, o in enumerate(scn["outs"]):
            ref, rexc = feed.safe_compute(o, rows)
            out, exc = self.compute(o, other)
            self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            self.states.add((name_of(o), len(rows), pa, pb))
            if exc != rexc:
                self.violate("units-matter", e, f"{name_of(o)} {o.get('p') or o.get('kw')}: {exc or 'succeeds'} after restating prices by 2^{pa} and volumes by 2^{pb}, {rexc or 'succeeds'} before")
                continue
            for a, (v, _) in (out or {}).items():
                d = degree(o, a)
                f = 2.0 ** (d[0] * pa + d[1] * pb)
                b = ref[a][0] * f
                tol = 1e-3 if full["close"].dtype == np.float32 else 1e-9
                log = (2e-2 if tol == 1e-3 else 1e-11) if a.endswith(("daily_log_return", "_dlr")) else 0.0  # logarithms of other numbers round differently
                with np.errstate(all="ignore"):
                    ok = (v == b) | (np.isnan(v) & np.isnan(b)) | (np.abs(v - b) <= tol * scale_of(b) + tol * np.abs(b) + log) if len(v) == len(b) else np.zeros(1, dtype=bool)
                if not ok.all():
                    p = int(np.flatnonzero(~ok)[0])
                    self.violate("units-matter", e, f"{name_of(o, a)} {o.get('p') or o.get('kw')} at bar {p} of {len(rows)}: {v[p]!r} with prices in units of 2^{-pa} and volumes in units of 2^{-pb}, expected {b[p]!r}")


# --------------------------------------------------------------------------- C24: gap filling on and off
CUM = {"OnBalanceVolumeIndicator", "AccDistIndexIndicator", "NegativeVolumeIndexIndicator", "CumulativeReturnIndicator", "AverageTrueRange", "ADXIndicator", "PSARIndicator", "RSIIndicator", "EMAIndicator", "TSIIndicator"}


def settled(c, a, p):
    """first bar (0-based) from which gap filling must make no difference; None: not claimed"""
    if c in ("EMAIndicator", "RSIIndicator", "ForceIndexIndicator"):
        return p.get("window", {"EMAIndicator": 14, "RSIIndicator": 14, "ForceIndexIndicator": 13}[c]) - 1
    if c in CUM and c != "TSIIndicator":
        return 0
    if c == "VolumePriceTrendIndicator":
        return (p.get("smoothing_factor") or 1) - 1
    if c == "KeltnerChannel" and not p.get("original_version", True):
        return max(p.get("window", 20), p.get("window_atr", 10)) - 1
    if c == "MACD" and a == "macd" or c == "PercentagePriceOscillator" and a == "ppo" or c == "PercentageVolumeOscillator" and a == "pvo":
        return max(p.get("window_slow", 26), p.get("window_fast", 12)) - 1
    lb = lookback(c, a, p)
    return None if lb is None else lb - 1


def gen_c24(r, i):
    ok = [c for c in CLASS_NAMES if any(settled(c, a, {}) is not None for a in CLASSES[c][3])]
    c = guide.pick(r, ok) or ok[i % len(ok)]
    n = length(r, lo=2, long=0.2)
    spec = data_of(r, n)
    sc = guide.scale(r.choice([5, 14, 30]), max(2, n - 1))
    p = params(r, c, sc)
    outs = [{"op": "cls", "c": c, "p": p, "fillna": True, "acc": list(CLASSES[c][3])}]
    if i % 11 == 10:
        outs.append({"op": "wrap", "f": guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)), "kw": {"fillna": True, "vectorized": r.random() < 0.5}})
    hist, cnt, now = history(r, n, 2, 3 if len(outs) > 1 else cap_of(c, n, 6))
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now}


def run_c24(self):
    scn = self.scn
    full = feed.base_frame(scn["data"][0])
    for e, h in enumerate(scn["hist"]):
        rows = stamped(scn, rows_of(full, h))
        if not len(rows):
            continue
        self.hit("recompute:" + h["why"])
        for k, o in enumerate(scn["outs"]):
            off = dict(o, kw=dict(o["kw"], fillna=False)) if o["op"] == "wrap" else dict(o, fillna=False)
            ref, rexc = feed.safe_compute(off, rows)
            out, exc = self.compute(o, rows)
            self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            self.states.add((name_of(o), len(rows)))
            if exc != rexc:
                self.violate("filling-changes-values", e, f"{name_of(o)}: {exc or 'succeeds'} with gap filling, {rexc or 'succeeds'} without")
                continue
            if exc:
                continue
            if set(out) != set(ref):
                self.violate("filling-changes-values", e, f"{name_of(o)}: other outputs with gap filling")
                continue
            for a, (v, _) in out.items():
                c, acc, p = (o["c"], a, o["p"]) if o["op"] == "cls" else COLUMNS[o["f"]][a]
                b = ref[a][0]
                if len(v) != len(b):
                    self.violate("filling-changes-values", e, f"{name_of(o, a)}: {len(v)} values with gap filling, {len(b)} without")
                    continue
                bad = ~np.isnan(b) & np.isnan(v)
                if (full["close"] == 0).any():  # a ratio to a price of zero is no value
                    bad &= np.isfinite(b)
                s = settled(c, acc, p)
                if c == "KSTIndicator" and (full["close"] == 0).any():  # no rate of change against a price of zero: its warm-up starts over
                    s = None
                if s is not None:
                    with np.errstate(all="ignore"):
                        bad[s:] |= (np.isfinite(b) & ~(np.abs(v - b) <= 1e-11 * scale_of(b) + 1e-9 * np.abs(b)))[s:]
                if bad.any():
                    q = int(np.flatnonzero(bad)[0])
                    self.violate("filling-changes-values", e, f"{name_of(o, a)} {p} at bar {q} of {len(rows)}: {v[q]!r} with gap filling on, {b[q]!r} with it off")


# --------------------------------------------------------------------------- C25: other storage
# how many bits the log needs -> column types that hold it, middle price, largest price, largest volume
WIDTHS = {8: (["int8", "uint8", "int16", "uint16", "int64", "uint32", "float64"], 45.0, 127, 127), 16: (["int16", "int16", "uint16", "int32", "uint64", "float64"], 18000.0, 32767, 32767),
          32: (["int32", "int32", "uint32", "int64", "uint64", "float64"], 9e8, 2 ** 31 - 1, 2 ** 31 - 1), 64: (["int64", "int64", "int32", "uint64", "float64"], 900.0, 20000, 30000)}
LAYOUTS = ["own", "own", "read-only", "rows", "columns", "backwards", "every other", "own backwards", "own every other", "records"]


def gen_c25(r, i):
    n = length(r)
    spec = data_of(r, n, odd=("frozen",) if i % 2 else ("frozen", "same", "crossed"), spread=0.0)
    spec["width"] = width = r.choice([8, 16, 32, 64, 64, 64])
    types = [t for t in WIDTHS[width][0] if i % 2 or t[0] != "u"]  # only proper bars fit unsigned differences
    vtypes = WIDTHS[width][0] + [t for t in WIDTHS[width][0] if t[0] == "u"]
    c = gen.focus(r, i, 25)
    sc = guide.scale(r.choice([5, 14, 30]), max(2, n - 1))
    fl = r.random() < 0.5
    outs = [{"op": "cls", "c": c, "p": params(r, c, sc), "fillna": fl, "acc": list(CLASSES[c][3])}]
    if i % 9 == 8:
        outs = [{"op": "wrap", "f": guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)), "kw": {"fillna": fl, "vectorized": r.random() < 0.5}}]
    elif FUNCS_OF.get(c) and r.random() < 0.3:
        f = r.choice(FUNCS_OF[c])
        outs = [{"op": "fn", "f": f, "p": {q: v for q, v in params(r, c, sc).items() if q in FUNCS[f][3]}, "fillna": fl}]
    hist, cnt, now = history(r, n, 2, 3 if i % 9 == 8 else cap_of(c, n, 5))
    for h in hist:
        p = r.choice(types)
        t = {x: p for x in ("open", "high", "low", "close")}
        if r.random() < 0.25:
            t = {x: r.choice(types) for x in ("open", "high", "low", "close")}
        t["volume"] = r.choice(vtypes)
        lay = r.choice(LAYOUTS)
        if lay in ("rows", "columns", "backwards", "every other"):  # one block: one type
            t = dict.fromkeys(t, p)
        h["store"] = [t, lay, r.choice([None, None, "int64", "int32"])]
        for k in {t["close"] + " prices", t["volume"] + " volumes", lay + " memory"}:
            cnt[k] = cnt.get(k, 0) + 1
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now}


def whole(full, width=64):
    """the same feed in whole units (exact in every number type that is wide enough)"""
    out = full.copy()
    _, mid, top, vtop = WIDTHS[width]
    m = float(np.nanmedian(full["close"].values))
    for x in ("open", "high", "low", "close"):
        out[x] = np.clip(np.round(full[x].values * (mid / m if m > 0 else 1.0)), 1, top)
    v = full["volume"].values
    w = float(np.nanmedian(v))
    if not 100 <= w <= 3000:  # another unit of trade
        v = v * (1500.0 / w if w > 0 else 1.0)
    out["volume"] = np.clip(np.round(v if width == 64 else v * (vtop / 3000.0)), 0, vtop)
    return out


def store(rows, types, layout):
    if layout == "records":  # one structured array, a field per column
        rec = np.zeros(len(rows), dtype=[("id", "i1")] + [(c, types[c]) for c in rows.columns])
        for c in rows.columns:
            rec[c] = rows[c].values
        return {c: pd.Series(rec[c] if rec[c].flags.aligned else rec[c].copy(), index=rows.index, copy=False) for c in rows.columns}
    if layout in ("own", "read-only", "own backwards", "own every other"):
        d = {}
        for c in rows.columns:
            a = rows[c].values.astype(types[c])
            if layout == "own backwards":
                a = a[::-1].copy()[::-1]
            elif layout == "own every other":  # a column of a table somebody else fills
                t = np.full((len(a), 2), 3, dtype=a.dtype).ravel()
                t[::2] = a
                a = t[::2]
            if layout == "read-only":
                a.flags.writeable = False
            d[c] = pd.Series(a, index=rows.index, copy=False)
        return pd.concat(d, axis=1) if layout == "own" else d
    t = types["close"]
    a = rows.values.astype(t)
    if layout == "rows":
        a = np.ascontiguousarray(a)
    elif layout == "columns":
        a = np.asfortranarray(a)
    elif layout == "backwards":
        a = a[::-1].copy()[::-1]
    else:
        a = np.repeat(a, 2, axis=0)[::2]
    return pd.DataFrame(a, index=rows.index, columns=rows.columns, copy=False)


def run_c25(self):
    scn = self.scn
    width = scn["data"][0].get("width", 64)
    full = whole(feed.base_frame(scn["data"][0]), width)
    for e, h in enumerate(scn["hist"]):
        rows = stamped(scn, rows_of(full, h))
        if not len(rows):
            continue
        rows = whole(rows, width) if h.get("prov") else rows
        self.hit("recompute:" + h["why"])
        types, lay, num = h["store"]
        for k, o in enumerate(scn["outs"]):
            kept = store(rows, types, lay)
            if isinstance(kept, dict) and o["op"] == "wrap":
                kept = pd.DataFrame(kept, copy=False)
            ref, rexc = feed.safe_compute(o, rows)
            q = dict(o, p={x: np.dtype(num).type(y) if type(y) is int else y for x, y in o["p"].items()}) if num and o.get("p") else o
            out, exc = self.compute(q, kept)
            self.log.append((e, k, exc, outcome.sig([sorted((a, v[0]) for a, v in (out or {}).items())])))
            self.states.add((name_of(o), len(rows), lay, types["close"], types["volume"]))
            if exc != rexc:
                self.violate("storage-matters", e, f"{name_of(o)} {o.get('p') or o.get('kw')}: {exc or 'succeeds'} on {types['close']} prices, {types['volume']} volumes, {lay} memory, {num or 'Python int'} parameters; {rexc or 'succeeds'} on float64")
                continue
            for a, (v, _) in (out or {}).items():
                b = ref[a][0]
                ok = close_enough(v, b, scale_of(b)) if len(v) == len(b) else np.zeros(1, dtype=bool)
                if not ok.all():
                    p = int(np.flatnonzero(~ok)[0])
                    self.violate("storage-matters", e, f"{name_of(o, a)} {o.get('p') or o.get('kw')} at bar {p} of {len(rows)}: {v[p]!r} from {types['close']} prices, {types['volume']} volumes, {lay} memory, {num or 'Python int'} parameters; {b[p]!r} from float64")


GEN = {"C20": gen_c20, "C21": gen_c21, "C22": gen_c22, "C23": gen_c23, "C24": gen_c24, "C25": gen_c25}
RUN = {"C20": run_c20, "C21": run_c21, "C22": run_c22, "C23": run_c23, "C24": run_c24, "C25": run_c25}


def attach():
    feed.GEN.update(GEN)
    for k, f in RUN.items():
        setattr(feed.FeedSim, "run_" + k.lower(), f)

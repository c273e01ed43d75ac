"""A small executable reference model: every indicator as a bar-by-bar state machine (no pandas, no arrays).

Each value is a pair (v, e): v is the value, e bounds the rounding error that any sensible way of computing it may add;
e = inf means that the value hangs on the last bits (a tie, a division by a vanishing number) and is left open.
"""
import copy
import math
from collections import deque

NAN, INF = float("nan"), float("inf")
U = 1e-15
UNDEF = (NAN, 0.0)
OPEN = (0.0, INF)
ZERO = (0.0, 0.0)


def c(x):
    return (float(x), 0.0)


def isnan(a):
    return a[0] != a[0]


def isopen(a):
    return a[1] == INF


def add(a, b):
    if isnan(a) or isnan(b):
        return UNDEF
    if isopen(a) or isopen(b):
        return OPEN
    if b == ZERO:
        return a
    if a == ZERO:
        return b
    v = a[0] + b[0]
    if v != v:
        return UNDEF
    if math.isinf(v):
        return (v, 0.0)
    if a[1] == 0 and b[1] == 0:
        t = v - a[0]
        if (a[0] - (v - t)) + (b[0] - t) == 0:  # the sum is exact
            return (v, 0.0)
    return (v, a[1] + b[1] + U * max(abs(v), abs(a[0]), abs(b[0])))


def neg(a):
    return (-a[0], a[1])


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isnan(a) or isnan(b):
        return UNDEF
    if isopen(a) or isopen(b):
        return OPEN if not (a == ZERO or b == ZERO) else OPEN
    if math.isinf(a[0]) or math.isinf(b[0]):
        o = b if math.isinf(a[0]) else a
        if not math.isinf(o[0]) and abs(o[0]) <= o[1] and o[1] > 0:
            return OPEN
        v = a[0] * b[0]
        return UNDEF if v != v else (v, 0.0)
    if a == ZERO or b == ZERO:
        return ZERO
    v = a[0] * b[0]
    return (v, abs(a[0]) * b[1] + abs(b[0]) * a[1] + a[1] * b[1] + U * abs(v))


def div(a, b):
    if isnan(a) or isnan(b):
        return UNDEF
    if isopen(a) or isopen(b):
        return OPEN
    if math.isinf(b[0]):
        return UNDEF if math.isinf(a[0]) else ZERO
    if b[0] == 0 and b[1] == 0:
        if a[0] == 0 and a[1] == 0:
            return UNDEF
        if abs(a[0]) <= a[1]:
            return OPEN
        return (math.copysign(INF, a[0]), 0.0)
    if abs(b[0]) <= 4 * b[1]:
        return OPEN
    if math.isinf(a[0]):
        return (a[0] if b[0] > 0 else -a[0], 0.0)
    if a == ZERO:
        return ZERO
    v = a[0] / b[0]
    return (v, (a[1] + abs(v) * b[1]) / (abs(b[0]) - b[1]) + U * abs(v))


def k(x, a):
    return mul(c(x), a)


def absv(a):
    return (abs(a[0]), a[1])


def sqrt(a):
    if isnan(a) or isopen(a):
        return a
    v = max(a[0], 0.0)
    s = math.sqrt(v)
    e = math.sqrt(a[1])
    if v > 2 * a[1]:
        e = min(e, a[1] / s)
    return (s, e + U * s)


def gt(a, b):
    """True/False, or None when rounding decides"""
    if isnan(a) or isnan(b):
        return False
    if isopen(a) or isopen(b):
        return None
    if math.isinf(a[0]) or math.isinf(b[0]):
        return a[0] > b[0]
    e = 8 * (a[1] + b[1])
    if e > 0 and abs(a[0] - b[0]) <= e:
        return None
    return a[0] > b[0]


def flag(t):
    return OPEN if t is None else c(1.0 if t else 0.0)


def fade(s, w):
    """s - s / w (rounding errors fade too)"""
    if isnan(s) or isopen(s) or s == ZERO or w == 1:
        return ZERO if w == 1 and s[1] != INF else s
    return (s[0] - s[0] / w, s[1] * (1 - 1 / w) + 2 * U * abs(s[0]))


def toward(x, s, y):
    """x + s * (y - x) for 0 <= s <= 1 (rounding errors in x fade)"""
    if isopen(x) or isopen(s) or isopen(y):
        return OPEN
    return (x[0] + s[0] * (y[0] - x[0]), abs(1 - s[0]) * x[1] + abs(s[0]) * y[1] + s[1] * abs(y[0] - x[0]) + 2 * U * (abs(x[0]) + abs(y[0])))


# --------------------------------------------------------------------------- operators with a memory
class Shift:
    def __init__(self, n, fill=UNDEF):
        self.n, self.q, self.fill = n, deque([fill] * n), fill

    def push(self, x):
        self.q.append(x)
        return self.q.popleft()


class Roll:
    """sum, mean, min, max, std (population) over the last w bars; NaN and inf do not count"""

    def __init__(self, kind, w, minp):
        self.kind, self.w, self.minp, self.q, self.big, self.bigm, self.worst = kind, w, minp, deque(), 0.0, 0.0, 0.0

    def push(self, x):
        if math.isinf(x[0]):
            x = UNDEF
        self.q.append(x)
        if len(self.q) > self.w:
            self.q.popleft()
        obs = [y for y in self.q if y[0] == y[0]]
        kind = self.kind
        if any(isopen(y) for y in obs):
            self.worst = max(self.worst, 1.0)
            return OPEN
        for y in (x,):
            if y[0] == y[0]:
                self.bigm = max(self.bigm, abs(y[0]))
        n = len(obs)
        if kind == "sum" and n == 0 and self.minp == 0:
            return ZERO
        if n < max(self.minp, 1):
            return UNDEF
        if kind in ("min", "max"):
            y = (min if kind == "min" else max)(obs, key=lambda t: t[0])
            return (y[0], max(t[1] for t in obs))
        tot = math.fsum(t[0] for t in obs)
        mag = math.fsum(abs(t[0]) for t in obs)
        self.big = max(self.big, mag)
        if kind in ("sum", "mean"):
            e = math.fsum(t[1] for t in obs) + 4e-15 * self.big * (1 if self.exact(obs) else 1)
            if all(t == ZERO for t in obs) and self.big == 0:
                e = 0.0
            return (tot, e) if kind == "sum" else (tot / n, e / n)
        m = tot / n
        v = math.fsum((t[0] - m) ** 2 for t in obs) / n
        e = 2e-14 * (self.bigm ** 2) + 4 * self.bigm * max(t[1] for t in obs)
        return sqrt((v, e))

    def exact(self, obs):
        return True


class Ewm:
    def __init__(self, alpha, minp, within=None):
        self.a, self.minp, self.w, self.old, self.n, self.sure, self.within = alpha, max(minp, 1), None, 1.0, 0, 0, within

    def push(self, x):
        if math.isinf(x[0]):
            x = UNDEF
        obs = x[0] == x[0]
        self.n += obs
        self.sure += obs and not isopen(x)
        if isopen(x) and self.within:  # unknown (perhaps not even there), but its effect is bounded and fades
            lo, hi = self.within
            x = ((lo + hi) / 2, 1.0 * (hi - lo))
        if self.w is not None:
            self.old *= 1 - self.a
            if obs:
                if isopen(self.w) or isopen(x):
                    self.w = OPEN
                elif self.w != x:
                    t = self.old + self.a
                    v = (self.old * self.w[0] + self.a * x[0]) / t
                    self.w = (v, (self.old * self.w[1] + self.a * x[1]) / t + 2 * U * (self.old * abs(self.w[0]) + self.a * abs(x[0])) / t)
                self.old = 1.0
        elif obs:
            self.w = x
        if self.n < self.minp or self.w is None:
            return UNDEF
        return self.w if self.sure >= self.minp else OPEN


class Cum:
    def __init__(self):
        self.t, self.big = ZERO, 0.0

    def push(self, x):
        if isnan(x):
            return UNDEF
        self.t = add(self.t, x)
        return self.t


class Fill:
    """what gap filling does, bar by bar; leading gaps of back-filled outputs are left open"""

    def __init__(self, on, value):
        self.on, self.value, self.last = on, value, None

    def push(self, x, value=None):
        if not self.on:
            return x
        if isopen(x):
            self.last = OPEN
            return OPEN
        if x[0] == x[0] and not math.isinf(x[0]):
            self.last = x
            return x
        if self.last is not None:
            return self.last
        v = self.value if value is None else value
        return OPEN if v == -1 else (c(v) if not isinstance(v, tuple) else v)


def ema(span, on, minp=None, within=None):
    return Ewm(2.0 / (span + 1.0), (0 if on else span) if minp is None else minp, within)


class TrueRange:
    def __init__(self):
        self.prev = Shift(1)

    def push(self, h, l, cl):
        p = self.prev.push(cl)
        r = sub(h, l)
        if not isnan(p):
            for x in (absv(sub(h, p)), absv(sub(l, p))):
                if x[0] > r[0]:
                    r = (x[0], max(x[1], r[1]))
        return r


# --------------------------------------------------------------------------- indicators
MODELS = {}


class Model:
    DEF = {}
    FILL = {}

    def __init__(self, p, on):
        self.p = dict(self.DEF, **p)
        self.on = on
        self.fill = {a: Fill(on, v) for a, v in self.FILL.items()}
        self.k = -1
        self.init(**self.p)

    def mp(self, w):
        return 0 if self.on else w

    def push(self, bar):
        """bar: open, high, low, close, volume -> {output: value}"""
        self.k += 1
        out = self.step(*(c(x) for x in bar))
        return {a: self.post(a, self.fill[a].push(v) if a in self.fill else v) for a, v in out.items()}

    def post(self, a, v):
        return v

    def __init_subclass__(cls):
        MODELS[cls.__name__] = cls


class AccDistIndexIndicator(Model):
    FILL = {"acc_dist_index": 0}

    def init(self):
        self.cum = Cum()

    def step(self, o, h, l, cl, v):
        return {"acc_dist_index": self.cum.push(mul(clv(h, l, cl), v))}


def clv(h, l, cl):
    x = div(sub(sub(cl, l), sub(h, cl)), sub(h, l))
    return ZERO if isnan(x) else x


class OnBalanceVolumeIndicator(Model):
    FILL = {"on_balance_volume": 0}

    def init(self):
        self.prev, self.cum = Shift(1), Cum()

    def step(self, o, h, l, cl, v):
        return {"on_balance_volume": self.cum.push(neg(v) if gt(self.prev.push(cl), cl) else v)}


class ChaikinMoneyFlowIndicator(Model):
    DEF, FILL = {"window": 20}, {"chaikin_money_flow": 0}

    def init(self, window):
        self.a, self.b = (Roll("sum", window, self.mp(window)) for _ in "ab")

    def step(self, o, h, l, cl, v):
        return {"chaikin_money_flow": div(self.a.push(mul(clv(h, l, cl), v)), self.b.push(v))}


class ForceIndexIndicator(Model):
    DEF, FILL = {"window": 13}, {"force_index": 0}

    def init(self, window):
        self.prev, self.e = Shift(1), ema(window, self.on)

    def step(self, o, h, l, cl, v):
        return {"force_index": self.e.push(mul(sub(cl, self.prev.push(cl)), v))}


class EaseOfMovementIndicator(Model):
    DEF, FILL = {"window": 14}, {"ease_of_movement": 0, "sma_ease_of_movement": 0}

    def init(self, window):
        self.h, self.l, self.r = Shift(1), Shift(1), Roll("mean", window, self.mp(window))

    def step(self, o, h, l, cl, v):
        x = mul(add(sub(h, self.h.push(h)), sub(l, self.l.push(l))), sub(h, l))
        x = k(1e8, div(x, k(2, v)))
        return {"ease_of_movement": x, "sma_ease_of_movement": self.r.push(x)}


class VolumePriceTrendIndicator(Model):
    DEF, FILL = {"smoothing_factor": None}, {"volume_price_trend": 0}

    def init(self, smoothing_factor):
        self.prev, self.cum = Shift(1), Cum()
        self.r = Roll("mean", smoothing_factor, self.mp(smoothing_factor)) if smoothing_factor else None

    def step(self, o, h, l, cl, v):
        x = self.cum.push(mul(sub(div(cl, self.prev.push(cl)), c(1)), v))
        return {"volume_price_trend": self.r.push(x) if self.r else x}


class NegativeVolumeIndexIndicator(Model):
    FILL = {"negative_volume_index": 1000}

    def init(self):
        self.pc, self.pv, self.x = Shift(1), Shift(1), c(1000)

    def step(self, o, h, l, cl, v):
        pc, pv = self.pc.push(cl), self.pv.push(v)
        if self.k and gt(pv, v):
            self.x = mul(self.x, add(c(1), sub(div(cl, pc), c(1))))
        return {"negative_volume_index": self.x}


class MFIIndicator(Model):
    DEF, FILL = {"window": 14}, {"money_flow_index": 50}

    def init(self, window):
        self.q, self.prev, self.w = deque(), None, window

    def step(self, o, h, l, cl, v):
        tp = div(add(add(h, l), cl), c(3))
        s = 0
        if self.prev is not None and self.prev[0] != (h, l, cl):
            t = gt(tp, self.prev[1])
            s = None if t is None else 1 if t else -1
            if t is not None and tp[0] == self.prev[1][0]:
                s = 0
        self.prev = ((h, l, cl), tp)
        self.q.append((s, mul(tp, v)))
        if len(self.q) > self.w:
            self.q.popleft()
        if len(self.q) < self.mp(self.w):
            return {"money_flow_index": UNDEF}
        if any(s is None for s, _ in self.q):
            return {"money_flow_index": OPEN}
        pos = neg_ = ZERO
        for s, f in self.q:
            if s > 0:
                pos = add(pos, f)
            elif s < 0:
                neg_ = add(neg_, f)
        x = div(pos, neg_)
        return {"money_flow_index": sub(c(100), div(c(100), add(c(1), x)))}


class VolumeWeightedAveragePrice(Model):
    DEF, FILL = {"window": 14}, {"volume_weighted_average_price": 0}

    def init(self, window):
        self.a, self.b = (Roll("sum", window, self.mp(window)) for _ in "ab")

    def step(self, o, h, l, cl, v):
        return {"volume_weighted_average_price": div(self.a.push(mul(div(add(add(h, l), cl), c(3)), v)), self.b.push(v))}


class AverageTrueRange(Model):
    DEF, FILL = {"window": 14}, {"average_true_range": 0}

    def init(self, window):
        self.tr, self.first, self.x = TrueRange(), [], None

    def step(self, o, h, l, cl, v):
        w = self.p["window"]
        r = self.tr.push(h, l, cl)
        if self.k < w:
            self.first.append(r)
        if self.k < w - 1:
            return {"average_true_range": ZERO}
        if self.k == w - 1:
            self.x = ZERO
            for y in self.first:
                self.x = add(self.x, y)
            self.x = div(self.x, c(w))
        else:
            self.x = div(add(k(w - 1, self.x), r), c(w))
        return {"average_true_range": self.x}


class BollingerBands(Model):
    DEF = {"window": 20, "window_dev": 2}
    FILL = {"bollinger_mavg": -1, "bollinger_hband": -1, "bollinger_lband": -1, "bollinger_wband": 0, "bollinger_pband": 0, "bollinger_hband_indicator": 0, "bollinger_lband_indicator": 0}

    def init(self, window, window_dev):
        self.m, self.s = Roll("mean", window, self.mp(window)), Roll("std", window, self.mp(window))

    def step(self, o, h, l, cl, v):
        m, s = self.m.push(cl), self.s.push(cl)
        d = k(self.p["window_dev"], s)
        hi, lo = add(m, d), sub(m, d)
        w = k(2, d)
        return {"bollinger_mavg": m, "bollinger_hband": hi, "bollinger_lband": lo, "bollinger_wband": k(100, div(w, m)), "bollinger_pband": div(sub(cl, lo), w),
                "bollinger_hband_indicator": flag(gt(cl, hi)), "bollinger_lband_indicator": flag(gt(lo, cl))}


class DonchianChannel(Model):
    DEF = {"window": 20, "offset": 0}
    FILL = {"donchian_channel_hband": -1, "donchian_channel_lband": -1, "donchian_channel_mband": -1, "donchian_channel_wband": 0, "donchian_channel_pband": 0}

    def init(self, window, offset):
        mp = 1 if self.on else window
        self.h, self.l, self.m = Roll("max", window, mp), Roll("min", window, mp), Roll("mean", window, mp)
        self.late = {a: Shift(offset) for a in self.FILL}

    def step(self, o, h, l, cl, v):
        hi, lo, m = self.h.push(h), self.l.push(l), self.m.push(cl)
        r = sub(hi, lo)
        return {"donchian_channel_hband": hi, "donchian_channel_lband": lo, "donchian_channel_mband": add(div(r, c(2)), lo), "donchian_channel_wband": k(100, div(r, m)),
                "donchian_channel_pband": div(sub(cl, lo), r)}

    def post(self, a, v):
        return self.late[a].push(v)


class KeltnerChannel(Model):
    DEF = {"window": 20, "window_atr": 10, "original_version": True, "multiplier": 2}
    FILL = {"keltner_channel_mband": -1, "keltner_channel_hband": -1, "keltner_channel_lband": -1, "keltner_channel_wband": 0, "keltner_channel_pband": 0, "keltner_channel_hband_indicator": 0,
            "keltner_channel_lband_indicator": 0}

    def init(self, window, window_atr, original_version, multiplier):
        mp = 1 if self.on else window
        if original_version:
            self.m, self.h, self.l = Roll("mean", window, mp), Roll("mean", window, 0), Roll("mean", window, 0)
        else:
            self.m, self.atr = ema(window, self.on, mp), AverageTrueRange({"window": window_atr}, self.on)

    def step(self, o, h, l, cl, v):
        if self.p["original_version"]:
            m = self.m.push(div(add(add(h, l), cl), c(3)))
            hi = self.h.push(div(add(sub(k(4, h), k(2, l)), cl), c(3)))
            lo = self.l.push(div(add(add(k(-2, h), k(4, l)), cl), c(3)))
        else:
            m = self.m.push(cl)
            d = k(self.p["multiplier"], self.atr.push((o[0], h[0], l[0], cl[0], v[0]))["average_true_range"])
            hi, lo = add(m, d), sub(m, d)
        r = sub(hi, lo)
        return {"keltner_channel_mband": m, "keltner_channel_hband": hi, "keltner_channel_lband": lo, "keltner_channel_wband": k(100, div(r, m)), "keltner_channel_pband": div(sub(cl, lo), r),
                "keltner_channel_hband_indicator": flag(gt(cl, hi)), "keltner_channel_lband_indicator": flag(gt(lo, cl))}


class UlcerIndex(Model):
    DEF, FILL = {"window": 14}, {"ulcer_index": 0}

    def init(self, window):
        self.m, self.q = Roll("max", window, 1), deque()

    def step(self, o, h, l, cl, v):
        m = self.m.push(cl)
        x = k(100, div(sub(cl, m), m))
        w = self.p["window"]
        self.q.append(x)
        if len(self.q) > w:
            self.q.popleft()
        if len(self.q) < w:
            return {"ulcer_index": UNDEF}
        s = ZERO
        for y in self.q:
            s = add(s, div(mul(y, y), c(w)))
        return {"ulcer_index": sqrt(s)}


class ADXIndicator(Model):
    DEF, FILL = {"window": 14}, {"adx": 20, "adx_pos": 20, "adx_neg": 20}

    def init(self, window):
        self.h, self.l, self.cl = Shift(1), Shift(1), Shift(1)
        self.t = self.p_ = self.n_ = ZERO
        self.dx, self.x = [], ZERO

    def step(self, o, h, l, cl, v):
        w, b = self.p["window"], self.k
        ph, pl, pc = self.h.push(h), self.l.push(l), self.cl.push(cl)
        z = {"adx": ZERO, "adx_pos": ZERO, "adx_neg": ZERO}
        if b == 0:
            return z
        d = sub(c(max(h[0], pc[0])), c(min(l[0], pc[0])))
        up, dn = sub(h, ph), sub(pl, l)
        g = gt(up, dn)
        pos = neg_ = ZERO
        if up[0] > 0 and g:
            pos = up
        g2 = gt(dn, up)
        if dn[0] > 0 and g2:
            neg_ = dn
        if (g is None or g2 is None) and (up[0] > 0 or dn[0] > 0) and up != dn:
            pos = neg_ = OPEN
        if b <= w:
            self.t, self.p_, self.n_ = add(self.t, d), add(self.p_, pos), add(self.n_, neg_)
        else:
            self.t, self.p_, self.n_ = (add(fade(s, w), y) for s, y in ((self.t, d), (self.p_, pos), (self.n_, neg_)))
        if b < w:
            return z
        zero = self.t == ZERO
        pdi, ndi = (ZERO if zero else k(100, div(y, self.t)) for y in (self.p_, self.n_))
        tot = add(pdi, ndi)
        dx = ZERO if tot == ZERO else k(100, absv(div(sub(pdi, ndi), tot)))
        if isopen(dx) or isnan(dx):
            dx = OPEN
        if b >= w + 1:
            z["adx_pos"], z["adx_neg"] = pdi, ndi
        if b < 2 * w:
            self.dx.append(dx)
            if b == 2 * w - 1:
                x = ZERO
                for y in self.dx:
                    x = add(x, y)
                self.x = div(x, c(w))
        else:
            self.x = div(add(k(w - 1, self.x), dx), c(w))
        z["adx"] = self.x
        return z


class AroonIndicator(Model):
    DEF, FILL = {"window": 25}, {"aroon_up": 0, "aroon_down": 0, "aroon_indicator": 0}

    def init(self, window):
        self.h, self.l = deque(), deque()

    def step(self, o, h, l, cl, v):
        w = self.p["window"]
        for q, x in ((self.h, h[0]), (self.l, l[0])):
            q.append(x)
            if len(q) > w + 1:
                q.popleft()
        if len(self.h) < (1 if self.on else w + 1):
            return {a: UNDEF for a in self.FILL}
        hs, ls = list(self.h), list(self.l)
        up, dn = k(100, div(c(hs.index(max(hs))), c(w))), k(100, div(c(ls.index(min(ls))), c(w)))
        return {"aroon_up": up, "aroon_down": dn, "aroon_indicator": sub(up, dn)}


class CCIIndicator(Model):
    DEF, FILL = {"window": 20, "constant": 0.015}, {"cci": 0}

    def init(self, window, constant):
        self.q, self.r = deque(), Roll("mean", window, self.mp(window))

    def step(self, o, h, l, cl, v):
        tp = div(add(add(h, l), cl), c(3))
        m = self.r.push(tp)
        self.q.append(tp)
        if len(self.q) > self.p["window"]:
            self.q.popleft()
        if len(self.q) < self.mp(self.p["window"]):
            return {"cci": UNDEF}
        n = len(self.q)
        mean = math.fsum(x[0] for x in self.q) / n
        mad = (math.fsum(abs(x[0] - mean) for x in self.q) / n, 3 * max(x[1] for x in self.q) + 4 * U * abs(mean))
        return {"cci": div(sub(tp, m), k(self.p["constant"], mad))}


class DPOIndicator(Model):
    DEF, FILL = {"window": 20}, {"dpo": 0}

    def init(self, window):
        self.s, self.r = Shift(int(0.5 * window + 1)), Roll("mean", window, self.mp(window))

    def step(self, o, h, l, cl, v):
        return {"dpo": sub(self.s.push(cl), self.r.push(cl))}


class EMAIndicator(Model):
    DEF, FILL = {"window": 14}, {"ema_indicator": 0}

    def init(self, window):
        self.e = ema(window, self.on)

    def step(self, o, h, l, cl, v):
        return {"ema_indicator": self.e.push(cl)}


class SMAIndicator(Model):
    DEF, FILL = {"window": 12}, {"sma_indicator": 0}

    def init(self, window):
        self.r = Roll("mean", window, self.mp(window))

    def step(self, o, h, l, cl, v):
        return {"sma_indicator": self.r.push(cl)}


class WMAIndicator(Model):
    DEF, FILL = {"window": 9}, {"wma": 0}

    def init(self, window):
        self.q = deque()

    def step(self, o, h, l, cl, v):
        w = self.p["window"]
        self.q.append(cl)
        if len(self.q) > w:
            self.q.popleft()
        if len(self.q) < w:
            return {"wma": UNDEF}
        s = math.fsum((i + 1) * x[0] for i, x in enumerate(self.q)) * 2 / (w * (w + 1))
        return {"wma": (s, 8 * U * max(abs(x[0]) for x in self.q))}


class TRIXIndicator(Model):
    DEF, FILL = {"window": 15}, {"trix": 0}

    def init(self, window):
        self.e, self.s = [ema(window, self.on) for _ in range(3)], Shift(1)

    def step(self, o, h, l, x, v):
        for e in self.e:
            x = e.push(x)
        p = self.s.push(x)
        return {"trix": k(100, div(sub(x, p), p))}


class MassIndex(Model):
    DEF, FILL = {"window_fast": 9, "window_slow": 25}, {"mass_index": 0}

    def init(self, window_fast, window_slow):
        self.a, self.b, self.r = ema(window_fast, self.on), ema(window_fast, self.on), Roll("sum", window_slow, self.mp(window_slow))

    def step(self, o, h, l, cl, v):
        a = self.a.push(sub(h, l))
        return {"mass_index": self.r.push(div(a, self.b.push(a)))}


class IchimokuIndicator(Model):
    DEF = {"window1": 9, "window2": 26, "window3": 52, "visual": False}
    FILL = {"ichimoku_conversion_line": -1, "ichimoku_base_line": -1, "ichimoku_a": -1, "ichimoku_b": -1}

    def init(self, window1, window2, window3, visual):
        self.r = [(Roll("max", w, mp), Roll("min", w, mp)) for w, mp in ((window1, self.mp(window1)), (window2, self.mp(window2)), (window3, 0))]
        self.sa, self.sb = Shift(window2 if visual else 0), Shift(window2 if visual else 0)

    def step(self, o, h, l, cl, v):
        a, b, d = (k(0.5, add(x.push(h), y.push(l))) for x, y in self.r)
        return {"ichimoku_conversion_line": a, "ichimoku_base_line": b, "ichimoku_a": self.sa.push(k(0.5, add(a, b))), "ichimoku_b": self.sb.push(d)}


class KSTIndicator(Model):
    DEF = {"roc1": 10, "roc2": 15, "roc3": 20, "roc4": 30, "window1": 10, "window2": 10, "window3": 10, "window4": 15, "nsig": 9}
    FILL = {"kst": 0, "kst_sig": 0, "kst_diff": 0}

    def init(self, nsig, **p):
        self.s = [Shift(p[f"roc{i}"]) for i in (1, 2, 3, 4)]
        self.r = [Roll("mean", p[f"window{i}"], self.mp(p[f"window{i}"])) for i in (1, 2, 3, 4)]
        self.g = Roll("mean", nsig, 0)

    def step(self, o, h, l, cl, v):
        t = ZERO
        for i, (s, r) in enumerate(zip(self.s, self.r)):
            p = s.push(cl)
            t = add(t, k(i + 1, r.push(div(sub(cl, p), p))))
        t = k(100, t)
        g = self.g.push(t)
        return {"kst": t, "kst_sig": g, "kst_diff": sub(t, g)}


class MACD(Model):
    DEF, FILL = {"window_slow": 26, "window_fast": 12, "window_sign": 9}, {"macd": 0, "macd_signal": 0, "macd_diff": 0}

    def init(self, window_slow, window_fast, window_sign):
        self.f, self.s, self.g = ema(window_fast, self.on), ema(window_slow, self.on), ema(window_sign, self.on)

    def step(self, o, h, l, cl, v):
        m = sub(self.f.push(cl), self.s.push(cl))
        g = self.g.push(m)
        return {"macd": m, "macd_signal": g, "macd_diff": sub(m, g)}


class _Percentage(Model):
    DEF = {"window_slow": 26, "window_fast": 12, "window_sign": 9}
    X = None

    def init(self, window_slow, window_fast, window_sign):
        self.f, self.s, self.g = ema(window_fast, self.on), ema(window_slow, self.on), ema(window_sign, self.on)

    def step(self, o, h, l, cl, v):
        x = v if self.X == "pvo" else cl
        s = self.s.push(x)
        m = k(100, div(sub(self.f.push(x), s), s))
        g = self.g.push(m)
        return {self.X: m, self.X + "_signal": g, self.X + "_hist": sub(m, g)}


class PercentagePriceOscillator(_Percentage):
    X, FILL = "ppo", {"ppo": 0, "ppo_signal": 0, "ppo_hist": 0}


class PercentageVolumeOscillator(_Percentage):
    X, FILL = "pvo", {"pvo": 0, "pvo_signal": 0, "pvo_hist": 0}


class PSARIndicator(Model):
    DEF = {"step": 0.02, "max_step": 0.2}
    FILL = {"psar": -1, "psar_up": -1, "psar_down": -1}

    def init(self, step, max_step):
        self.up, self.lost, self.pu, self.pd = True, False, UNDEF, UNDEF
        self.bars = []

    def step(self, o, h, l, cl, v):
        step, top = c(self.p["step"]), c(self.p["max_step"])
        pu, pd = self.pu, self.pd
        self.bars = (self.bars + [(h, l)])[-3:]
        if self.k == 0:
            self.af, self.hi, self.lo = step, h, l
        if self.k < 2:
            self.x, self.pu, self.pd = cl, UNDEF, UNDEF
            return self.out(cl, UNDEF, UNDEF, pu, pd)
        if self.lost:
            return {a: OPEN for a in ("psar", "psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator")}
        faster = add(self.af, step)
        if faster[0] > top[0]:
            faster = top
        if self.up:
            x = add(self.x, mul(self.af, sub(self.hi, self.x)))
            rev = gt(x, l)
            if rev:
                x, self.lo, self.af = self.hi, l, step
            else:
                if h[0] > self.hi[0]:
                    self.hi, self.af = h, faster
                for b in (self.bars[-3], self.bars[-2]):
                    t = gt(x, b[1])
                    self.lost |= t is None
                    if t:
                        x = b[1]
                        break
        else:
            x = sub(self.x, mul(self.af, sub(self.x, self.lo)))
            rev = gt(h, x)
            if rev:
                x, self.hi, self.af = self.lo, h, step
            else:
                if l[0] < self.lo[0]:
                    self.lo, self.af = l, faster
                for b in (self.bars[-3], self.bars[-2]):
                    t = gt(b[0], x)
                    self.lost |= t is None
                    if t:
                        x = b[0]
                        break
        self.lost |= rev is None
        if self.lost:
            return {a: OPEN for a in ("psar", "psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator")}
        self.up = self.up != rev
        self.x = x
        self.pu, self.pd = (x, UNDEF) if self.up else (UNDEF, x)
        return self.out(x, self.pu, self.pd, pu, pd)

    def out(self, x, u, d, pu, pd):
        iu = c(1.0 if not isnan(u) and isnan(pu) else 0.0)
        # the down indicator is published through the up series: 1 needs an undefined up value, which is turned into 1
        idn = c(1.0 if not isnan(d) and isnan(pd) else 0.0)
        return {"psar": x, "psar_up": u, "psar_down": d, "psar_up_indicator": iu, "psar_down_indicator": idn}


class STCIndicator(Model):
    DEF, FILL = {"window_slow": 50, "window_fast": 23, "cycle": 10, "smooth1": 3, "smooth2": 3}, {"stc": 0}

    def init(self, window_slow, window_fast, cycle, smooth1, smooth2):
        self.f, self.s = ema(window_fast, self.on), ema(window_slow, self.on)
        self.r = [Roll(x, cycle, cycle) for x in ("min", "max", "min", "max")]
        self.d, self.e = ema(smooth1, self.on, within=(0, 100)), ema(smooth2, self.on, within=(0, 100))

    def step(self, o, h, l, cl, v):
        x = sub(self.f.push(cl), self.s.push(cl))
        for i, sm in ((0, self.d), (2, self.e)):
            lo, hi = self.r[i].push(x), self.r[i + 1].push(x)
            x = sm.push(div(k(100, sub(x, lo)), sub(hi, lo)))
        return {"stc": x}


class VortexIndicator(Model):
    DEF, FILL = {"window": 14}, {"vortex_indicator_pos": 1, "vortex_indicator_neg": 1, "vortex_indicator_diff": 0}

    def init(self, window):
        self.tr, self.h, self.l = TrueRange(), Shift(1), Shift(1)
        self.r = [Roll("sum", window, self.mp(window)) for _ in range(3)]

    def step(self, o, h, l, cl, v):
        t = self.r[0].push(self.tr.push(h, l, cl))
        ph, pl = self.h.push(h), self.l.push(l)
        a = div(self.r[1].push(absv(sub(h, pl))), t)
        b = div(self.r[2].push(absv(sub(l, ph))), t)
        return {"vortex_indicator_pos": a, "vortex_indicator_neg": b, "vortex_indicator_diff": sub(a, b)}


class AwesomeOscillatorIndicator(Model):
    DEF, FILL = {"window1": 5, "window2": 34}, {"awesome_oscillator": 0}

    def init(self, window1, window2):
        self.a, self.b = Roll("mean", window1, self.mp(window1)), Roll("mean", window2, self.mp(window2))

    def step(self, o, h, l, cl, v):
        m = k(0.5, add(h, l))
        return {"awesome_oscillator": sub(self.a.push(m), self.b.push(m))}


class KAMAIndicator(Model):
    DEF, FILL = {"window": 10, "pow1": 2, "pow2": 30}, {"kama": 0}

    def init(self, window, pow1, pow2):
        self.q, self.r, self.x = None, Roll("sum", window, self.mp(window)), None

    def step(self, o, h, l, cl, v):
        w, p1, p2 = self.p["window"], self.p["pow1"], self.p["pow2"]
        if self.q is None:
            self.q, self.prev = Shift(w, cl), cl
        num = absv(sub(cl, self.q.push(cl)))
        den = self.r.push(absv(sub(cl, self.prev)))
        self.prev = cl
        self.fill["kama"].value = cl
        if isnan(den):
            return {"kama": UNDEF}
        er = ZERO if num == ZERO or den == ZERO else div(num, den)
        s = add(mul(er, c(2.0 / (p1 + 1) - 2.0 / (p2 + 1.0))), c(2 / (p2 + 1.0)))
        self.x = cl if self.x is None else toward(self.x, mul(s, s), cl)
        return {"kama": self.x}


class ROCIndicator(Model):
    DEF, FILL = {"window": 12}, {"roc": 0}

    def init(self, window):
        self.s = Shift(window)

    def step(self, o, h, l, cl, v):
        p = self.s.push(cl)
        return {"roc": k(100, div(sub(cl, p), p))}


class RSIIndicator(Model):
    DEF, FILL = {"window": 14}, {"rsi": 50}

    def init(self, window):
        self.prev = Shift(1)
        self.u, self.d = (Ewm(1.0 / window, self.mp(window)) for _ in "ud")

    def step(self, o, h, l, cl, v):
        x = sub(cl, self.prev.push(cl))
        u = self.u.push(x if x[0] > 0 else ZERO)
        d = self.d.push(neg(x) if x[0] < 0 else ZERO)
        if isnan(d):
            return {"rsi": UNDEF}
        if d == ZERO:
            return {"rsi": c(100)}
        return {"rsi": sub(c(100), div(c(100), add(c(1), div(u, d))))}


class StochRSIIndicator(Model):
    DEF, FILL = {"window": 14, "smooth1": 3, "smooth2": 3}, {"stochrsi": 0, "stochrsi_k": 0, "stochrsi_d": 0}

    def init(self, window, smooth1, smooth2):
        self.rsi = RSIIndicator({"window": window}, self.on)
        self.lo, self.hi = Roll("min", window, window), Roll("max", window, window)
        self.a, self.b = Roll("mean", smooth1, smooth1), Roll("mean", smooth2, smooth2)

    def step(self, o, h, l, cl, v):
        r = self.rsi.push((o[0], h[0], l[0], cl[0], v[0]))["rsi"]
        lo = self.lo.push(r)
        x = div(sub(r, lo), sub(self.hi.push(r), lo))
        y = self.a.push(x)
        return {"stochrsi": x, "stochrsi_k": y, "stochrsi_d": self.b.push(y)}


class StochasticOscillator(Model):
    DEF, FILL = {"window": 14, "smooth_window": 3}, {"stoch": 50, "stoch_signal": 50}

    def init(self, window, smooth_window):
        self.lo, self.hi = Roll("min", window, self.mp(window)), Roll("max", window, self.mp(window))
        self.r = Roll("mean", smooth_window, self.mp(smooth_window))

    def step(self, o, h, l, cl, v):
        lo = self.lo.push(l)
        x = div(k(100, sub(cl, lo)), sub(self.hi.push(h), lo))
        return {"stoch": x, "stoch_signal": self.r.push(x)}


class TSIIndicator(Model):
    DEF, FILL = {"window_slow": 25, "window_fast": 13}, {"tsi": 0}

    def init(self, window_slow, window_fast):
        self.prev = Shift(1)
        self.a, self.b = ([ema(window_slow, self.on), ema(window_fast, self.on)] for _ in "ab")

    def step(self, o, h, l, cl, v):
        x = sub(cl, self.prev.push(cl))
        y = absv(x)
        for e, f in zip(self.a, self.b):
            x, y = e.push(x), f.push(y)
        return {"tsi": k(100, div(x, y))}


class UltimateOscillator(Model):
    DEF, FILL = {"window1": 7, "window2": 14, "window3": 28, "weight1": 4.0, "weight2": 2.0, "weight3": 1.0}, {"ultimate_oscillator": 50}

    def init(self, window1, window2, window3, weight1, weight2, weight3):
        self.prev, self.tr = Shift(1), TrueRange()
        self.r = [(wt, Roll("sum", w, self.mp(w)), Roll("sum", w, self.mp(w))) for wt, w in ((weight1, window1), (weight2, window2), (weight3, window3))]

    def step(self, o, h, l, cl, v):
        p, t = self.prev.push(cl), self.tr.push(h, l, cl)
        bp = UNDEF if isnan(p) else sub(cl, c(min(l[0], p[0])))
        s, tot = ZERO, 0.0
        for wt, a, b in self.r:
            s = add(s, k(wt, div(a.push(bp), b.push(t))))
            tot += wt
        return {"ultimate_oscillator": div(k(100, s), c(tot))}


class WilliamsRIndicator(Model):
    DEF, FILL = {"lbp": 14}, {"williams_r": -50}

    def init(self, lbp):
        self.lo, self.hi = Roll("min", lbp, self.mp(lbp)), Roll("max", lbp, self.mp(lbp))

    def step(self, o, h, l, cl, v):
        hi, lo = self.hi.push(h), self.lo.push(l)
        return {"williams_r": k(-100, div(sub(hi, cl), sub(hi, lo)))}


class CumulativeReturnIndicator(Model):
    FILL = {"cumulative_return": -1}

    def init(self):
        self.first = None

    def step(self, o, h, l, cl, v):
        self.first = self.first or cl
        return {"cumulative_return": k(100, sub(div(cl, self.first), c(1)))}


class DailyReturnIndicator(Model):
    FILL = {"daily_return": 0}

    def init(self):
        self.s = Shift(1)

    def step(self, o, h, l, cl, v):
        return {"daily_return": k(100, sub(div(cl, self.s.push(cl)), c(1)))}


class DailyLogReturnIndicator(Model):
    FILL = {"daily_log_return": 0}

    def init(self):
        self.s = Shift(1)

    def step(self, o, h, l, cl, v):
        x = math.log(cl[0]) if cl[0] > 0 else NAN
        x = (x, U * max(1.0, abs(x))) if x == x else (-INF, 0.0) if cl[0] == 0 else UNDEF
        return {"daily_log_return": k(100, sub(x, self.s.push(x)))}


def build(name, p, on):
    return MODELS[name](p, on)


def snapshot(m):
    return copy.deepcopy(m)

"""C26: liveness - every computation ends within a number of library steps proportional to bars x windows.

Steps are the line and call events of ta's own code, so the count is exact and repeatable; a computation that passes the bound is
stopped there (it would otherwise never return)."""
import pandas as pd

from . import core, engine, feed, gen, guide, market, outcome, replicas
from .catalog import CLASSES, FUNCS, FUNCS_OF, GROUPS

STOP = ("RecursionError", "MemoryError", "TimeoutError")


class Meter:
    __slots__ = ("n", "cap", "over")

    def __init__(self, cap):
        self.n, self.cap, self.over = 0, cap, None

    def hit(self, ev, code, pos):
        self.n += 1
        if self.n > self.cap:
            self.over = code.co_qualname
            raise core.SimKill(f"step {self.n} in {code.co_qualname}:{pos}")


def windows(o):
    c = feed.cls_of(o)
    p = replicas.class_params(o["f"], o["p"]) if o["op"] == "fn" else o["p"]
    return sum(int(p.get(k, s[1]) or 0) for k, s in CLASSES[c][2].items() if s[0] == "w" or k in ("offset", "smoothing_factor"))


TIMES = 8  # a feed eight times as long ...
GROWTH = 24  # ... takes at most this many times the steps (a feed whose trend restarts eight times may cost more per bar)


def bound(o, n):
    if o["op"] == "wrap":
        return 200_000 + n * 20_000
    if o["op"] == "dropna":
        return 20_000 + 200 * n
    return 20_000 + n * (300 + 25 * windows(o)) * (len(o["acc"]) if o["op"] == "cls" else 2)


def gen_c26(r, i):
    c = gen.focus(r, i, 26)
    n = replicas.length(r, long=0.2)
    wrap = i % 13 == 12
    if not wrap and r.random() < 0.12:
        n = r.randint(900, 1600 if c in ("PSARIndicator", "ADXIndicator", "WMAIndicator") else 3200)
    grow = not wrap and r.random() < 0.2
    if grow:
        n = r.randint(150, 250 if c in ("PSARIndicator", "ADXIndicator", "WMAIndicator") else 400)
    spec = market.gen_spec(r, n=n)
    spec.pop("layout", None)
    spec["dtype"] = "float64"
    if r.random() < 0.5:
        spec["odd"] = [[r.randrange(n), r.choice(market.ODD), r.choice(market.COLS), r.choice([1, 2, 8, n])] for _ in range(r.randint(1, 4))]
    if r.random() < 0.15:
        spec["nan"] = sorted({r.randrange(n) for _ in range(r.choice([1, 3, n]))})
    sc = guide.scale(r.choice([5, 14, 30]) if not grow else r.choice([4, 8, 12]), max(2, n - 1))
    fl = r.random() < 0.5
    outs = [{"op": "cls", "c": c, "p": replicas.params(r, c, sc), "fillna": fl, "acc": list(CLASSES[c][3])}]
    if wrap:
        outs = [{"op": "wrap", "f": guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)), "kw": {"fillna": fl, "vectorized": r.random() < 0.5}}]
    elif r.random() < 0.05 or guide.UTIL[0] and r.random() < 0.5:
        outs = [{"op": "dropna"}]
    elif FUNCS_OF.get(c) and r.random() < 0.3:
        f = r.choice(FUNCS_OF[c])
        outs = [{"op": "fn", "f": f, "p": {q: v for q, v in replicas.params(r, c, sc).items() if q in FUNCS[f][3]}, "fillna": fl}]
    hist, cnt, now = replicas.history(r, n, 2, 1 if n > 400 or wrap else replicas.cap_of(c, n, 5))
    for _, k, _, _ in spec.get("odd") or ():
        cnt["bars: " + k] = cnt.get("bars: " + k, 0) + 1
    return {"data": [spec], "outs": outs, "hist": hist, "faults": cnt, "simtime": now, "grow": grow}


def measure(o, rows, cap):
    m = Meter(cap)
    core.HOOK[0] = m.hit
    exc = None
    try:
        if o["op"] == "dropna":
            engine.mod("utils").dropna(rows)
        else:
            feed.compute(o, rows)
    except core.SimKill:
        exc = "SimKill"
    except Exception as x:
        exc = type(x).__name__
    finally:
        core.HOOK[0] = None
    return m, exc


def run_c26(self):
    scn = self.scn
    s = scn["data"][0]
    full = feed.base_frame(s)
    for k in s.get("nan") or ():
        full.iloc[k] = float("nan")
    for e, h in enumerate(scn["hist"]):
        rows = replicas.rows_of(full, h).reset_index(drop=True)
        if not len(rows):
            continue
        rows.index = market.labels(s.get("index", "range"), len(rows), s["seed"] % 1000)
        self.hit("recompute:" + h["why"])
        for k, o in enumerate(scn["outs"]):
            self.evals += 1
            name = "dropna" if o["op"] == "dropna" else feed.name_of(o)
            m, exc = measure(o, rows, bound(o, len(rows)))
            self.log.append((e, k, exc))
            self.states.add((name, repr(o.get("p")), len(rows)))
            self.probe["library steps"] = self.probe.get("library steps", 0) + m.n
            self.probe["bars"] = self.probe.get("bars", 0) + len(rows)
            if m.over:
                self.violate("no-end", e, f"{name} {o.get('p') or o.get('kw') or ''} on {len(rows)} bars still runs after {m.cap} steps (in {m.over})")
            elif exc in STOP:
                self.violate("no-end", e, f"{name} {o.get('p') or o.get('kw') or ''} on {len(rows)} bars fails with {exc}")
            elif scn.get("grow") and o["op"] != "dropna" and len(rows) >= max(140, 4 * windows(o)):
                # the same bars again and again: a computation linear in the number of bars does not take much more per bar
                more = pd.concat([rows] * TIMES, ignore_index=True)
                more.index = market.labels(s.get("index", "range"), len(more), s["seed"] % 1000)
                g, exc = measure(o, more, GROWTH * m.n + 20_000)
                self.log.append((e, k, "grow", exc))
                self.hit("feed made longer")
                if g.over:
                    self.violate("no-end", e, f"{name} {o.get('p') or ''} takes {m.n} steps on {len(rows)} bars but still runs after {g.cap} on {TIMES} times as many (in {g.over})")


def attach():
    feed.GEN["C26"] = gen_c26
    feed.FeedSim.run_c26 = run_c26

"""Scenario generators (one PRNG per run decides everything)."""
import random

from . import core, engine, guide, market, outcome, settings
from .catalog import CLASSES, CLASS_NAMES, COST, FUNCS, FUNCS_OF, GROUPS, gen_params

STYLES = ["fine", "mid", "coarse", "mixed", "pct", "pct"]
KINDS = ["MemoryError", "MemoryError", "KeyboardInterrupt", "KeyboardInterrupt", "TimeoutError", "OSError", "SimKill"]


def focus(r, i, salt=0):
    """stratified choice of the classes a run concentrates on: every 43 consecutive runs visit every class"""
    g = guide.pick(r, CLASS_NAMES)
    if g:
        return g
    perm = list(CLASS_NAMES)
    random.Random(f"{salt}:{i // len(perm)}").shuffle(perm)
    return perm[i % len(perm)]


def fill(r):
    return r.choice([None, None, False, True, True])


def cls_op(r, c, ds, scale=40, p=None, accs=None):
    names = CLASSES[c][3]
    if accs is None:
        accs = r.sample(names, r.randint(1, len(names)))
    return {"op": "cls", "c": c, "ds": ds, "p": gen_params(r, c, scale=scale) if p is None else p, "fillna": fill(r), "acc": accs}


def fn_op(r, c, ds, scale=40, p=None, f=None):
    fs = FUNCS_OF.get(c)
    if not fs:
        return cls_op(r, c, ds, scale, p)
    f = f or r.choice(fs)
    pn = FUNCS[f][3]
    return {"op": "fn", "f": f, "ds": ds, "p": gen_params(r, c, pn, scale) if p is None else {k: v for k, v in p.items() if k in pn}, "fillna": fill(r)}


def wrap_op(r, ds, small=False):
    f = guide.pick_group(r, list(GROUPS)) or r.choice(list(GROUPS)[:5] if small or r.random() < 0.6 else list(GROUPS))
    kw = {}
    if r.random() < 0.5:
        kw["fillna"] = r.random() < 0.6
    if r.random() < 0.4:
        kw["colprefix"] = r.choice(["x_", "", "feat "])
    if r.random() < 0.4:
        kw["vectorized"] = r.random() < 0.6
    return {"op": "wrap", "f": f, "ds": ds, "kw": kw}


def lib_op(r, c, ds, scale=40, mix=(5, 5, 1, 0.5)):
    if guide.UTIL[0] and mix[3] and r.random() < 0.5:
        return {"op": "util", "f": "dropna", "ds": ds}
    k = r.choices(["cls", "fn", "wrap", "util"], mix)[0]
    if k == "cls":
        return cls_op(r, c, ds, scale)
    if k == "fn":
        return fn_op(r, c, ds, scale)
    if k == "wrap":
        return wrap_op(r, ds)
    return {"op": "util", "f": "dropna", "ds": ds}


def variant(r, op):
    """the same call with something changed: what a too-coarse cache key or shared buffer would confuse"""
    o = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in op.items() if k != "points"}
    if op["op"] in ("cls", "fn", "make"):
        c = op["c"] if op["op"] != "fn" else FUNCS[op["f"]][1]
        what = r.choice(["p", "p", "fillna", "acc", "same"])
        if what == "p" and CLASSES[c][2]:
            names = FUNCS[op["f"]][3] if op["op"] == "fn" else list(CLASSES[c][2])
            spec = {k: CLASSES[c][2][k] for k in names}
            ws = [k for k in spec if spec[k][0] == "w"]
            ks = [k for k in spec if spec[k][0] == "k"]
            if ws and (not ks or r.random() < 0.7):
                k = r.choice(ws)
                o["p"][k] = max(1, o["p"].get(k, spec[k][1]) + r.choice([-1, 1, 2, 5]))
            elif ks:
                k = r.choice(ks)
                v = r.choice(spec[k][1:])
                if v is None:
                    o["p"].pop(k, None)
                else:
                    o["p"][k] = v
        elif what == "fillna":
            o["fillna"] = not op.get("fillna")
        elif what == "acc" and op["op"] == "cls":
            o["acc"] = r.sample(CLASSES[c][3], r.randint(1, len(CLASSES[c][3])))
    elif op["op"] == "wrap":
        o["kw"]["fillna"] = not op["kw"].get("fillna", False)
    return o


def datasets(r, k, nmax=110, n=None):
    base = market.gen_spec(r, n=n, nmax=nmax)
    out = [base]
    while len(out) < k:
        out.append(market.twin(r, base) if r.random() < 0.7 else market.gen_spec(r, n=base["n"] if r.random() < 0.5 else None, nmax=nmax))
    return out


def sched(r):
    return {"style": r.choice(STYLES), "seed": r.randrange(1 << 40)}


def scale_of(data):
    return guide.scale(40, min(d["n"] for d in data))


def often(r, op, p=0.1, hi=40):
    """the same call several times in a row; the last one counts"""
    if r.random() < p and COST.get(op.get("c") or (FUNCS[op["f"]][1] if op.get("f") in FUNCS else ""), 1) <= 5:
        op["times"] = guide.size(r, r.choice([2, 2, 3, 3, 5, 9, r.randint(4, hi)]), hi=600)
    return op


def warm_op(r, c, scale):
    """a longer past: many calls of one kind on other data or with other parameters"""
    u = r.random()
    call = cls_op(r, c, 0, scale) if u < 0.5 else fn_op(r, c, 0, scale)
    k = r.choice([3, 6, 10, 20, 35]) if COST.get(c, 1) <= 5 else r.choice([3, 6])
    return {"op": "warm", "call": call, "times": guide.size(r, k, lo=2, hi=600 if COST.get(c, 1) <= 5 else 60), "vary": r.choice(["ds", "p", "p", "n"]), "n": r.randint(12, 45), "seed": r.randrange(1 << 30)}


def arm_faults(r, scn, counts, k, kinds=KINDS):
    """place k faults inside operations, at points that exist (counted in the fault-free reference)"""
    keys = [(key, op) for key, op, _, _ in engine.all_ops(scn) if counts.get(key, 0) > 0 and op["op"] in ("fn", "cls", "make", "use", "wrap", "util") and not key.endswith("r")]
    r.shuffle(keys)
    if r.random() < 0.7:
        keys.sort(key=lambda x: -guide.interesting(counts, x[0]))
    for key, op in keys[:k]:
        n = counts[key]
        at = guide.choose(r, counts, key)
        op.setdefault("points", []).append({"at": min(n, at), "do": "raise", "kind": r.choice(kinds)})


# ------------------------------------------------------------------ C01 concurrent callers
def c01(r, i):
    data = datasets(r, r.choice([1, 2, 2, 3]), nmax=90)
    sc = scale_of(data)
    c1 = focus(r, i, 1)
    heavy = COST.get(c1, 1) > 5
    nt = r.choice([2, 2, 2, 3, 4])
    proto = lib_op(r, c1, 0, sc, (5, 5, 0.7, 0))
    threads = []
    for t in range(nt):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3] if not heavy else [1, 1, 2])):
            u = r.random()
            if u < 0.6:
                o = variant(r, proto)
                o["ds"] = r.randrange(len(data))
            elif u < 0.85:
                o = lib_op(r, c1, r.randrange(len(data)), sc, (5, 5, 0.3, 0.3))
            else:
                o = lib_op(r, r.choice(CLASS_NAMES), r.randrange(len(data)), sc)
            ops.append(often(r, o, 0.06))
        threads.append(ops)
    out = {"data": data, "threads": threads, "sched": sched(r), "opcodes": r.random() < 0.15}
    if r.random() < 0.1:
        out["setup"] = [warm_op(r, c1, sc)]
    if proto["op"] in ("cls", "fn") and r.random() < (0.25 if c1 in guide.AFFECTED else 0.08):  # a slow caller and a busy one
        busy = []
        for _ in range(r.choice([1, 1, 2])):
            o = dict(proto) if r.random() < 0.6 else variant(r, proto)
            o["ds"], o["times"] = r.randrange(len(data)), guide.number(r, r.choice([2, 3, 4, 5, 7, 8, 12, 16, 17, 32] if not heavy else [2, 3, 4, 5]), 2, 64)
            busy.append(o)
        out["threads"] = [[dict(proto)], busy]
        out["sched"]["style"] = r.choice(["pct", "pct", "coarse", "mixed"])
    return out


# ------------------------------------------------------------------ C02 one object, many hands
def c02(r, i):
    data = datasets(r, r.choice([1, 1, 2]), nmax=90)
    sc = scale_of(data)
    c = focus(r, i, 2)
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A"}
    setup = [mk]
    names = ["A"]
    if r.random() < 0.3:
        b = variant(r, mk)
        b["as"], b["ds"] = "B", r.randrange(len(data))
        setup.append(b)
        names.append("B")
    acc = CLASSES[c][3]
    nt = r.choice([1, 2, 2, 3])
    threads = []
    for t in range(nt):
        threads.append([often(r, {"op": "use", "o": r.choice(names), "acc": r.choice(acc)}, 0.15 if nt > 1 else 0.3) for _ in range(r.randint(1, 4) if nt > 1 else r.randint(2, 6))])
    if r.random() < 0.3:
        for _ in range(r.choice([1, 1, 2, 3])):
            ops = r.choice(threads)
            ops.insert(r.randint(0, len(ops)), {"op": "look", "o": r.choice(names), "how": r.choice(engine.LOOKS)})
    post = [{"op": "use", "o": "A", "acc": a} for a in r.sample(acc, min(len(acc), 2))]
    return {"data": data, "setup": setup, "threads": threads, "post": post, "sched": sched(r), "opcodes": r.random() < 0.2}


# ------------------------------------------------------------------ C03 ownership of results
HOWS = ["fill", "pos", "values", "iadd", "imul", "fillna", "clip", "update", "rename", "attrs", "drop"]


def c03(r, i):
    data = datasets(r, r.choice([1, 1, 2]), nmax=90)
    sc = scale_of(data)
    c = focus(r, i, 3)
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": r.choice([None, False, True]), "as": "A"}
    acc = CLASSES[c][3]
    nt = r.choice([1, 1, 1, 2])
    threads = []
    for t in range(nt):
        ops = []
        produced = []

        def prod(o):
            produced.append(f"{t}.{len(ops)}")
            ops.append(o)
        for _ in range(r.randint(1, 2)):
            prod({"op": "use", "o": "A", "acc": r.choice(acc)})
        if r.random() < 0.5:
            prod(fn_op(r, c, 0, sc, p=mk["p"]))
        for _ in range(r.randint(1, 4)):
            u = r.random()
            if u < 0.6:
                ops.append({"op": "scribble", "res": r.choice(produced), "how": r.choice(HOWS), "which": r.randrange(3), "pos": r.randrange(100)})
            elif u < 0.85:
                ops.append({"op": "part", "res": r.choice(produced), "how": r.choice(["tail", "values", "view", "shallow", "index"]), "which": r.randrange(3)})
            if r.random() < 0.8:
                u = r.random()
                if u < 0.5:
                    prod({"op": "use", "o": "A", "acc": r.choice(acc)})
                elif u < 0.75:
                    o = variant(r, {"op": "cls", "c": c, "ds": 0, "p": dict(mk["p"]), "fillna": mk["fillna"], "acc": [r.choice(acc)]})
                    o["ds"] = r.randrange(len(data))
                    prod(o)
                elif u < 0.9:
                    prod(fn_op(r, c, r.randrange(len(data)), sc, p=mk["p"]))
                else:
                    prod(lib_op(r, r.choice(CLASS_NAMES), 0, sc))
        # the caller's own data changes afterwards; held results must not
        if nt == 1 and r.random() < 0.35 and data[0]["n"] > 1:
            ops.append({"op": "amend", "ds": 0, "pos": r.randrange(data[0]["n"]), "col": r.choice(["close", "high", "low", "volume"]), "mul": r.choice([2, 3])})
        threads.append(ops)
    return {"data": data, "setup": [mk], "threads": threads, "sched": sched(r), "mon": {"results": True, "inputs_end": False}, "opcodes": False}


# ------------------------------------------------------------------ C04 inputs
def c04(r, i):
    data = datasets(r, r.choice([1, 1, 2]), nmax=70)
    for s in data:  # what might be mended in place: bars no healthy exchange sends, at the ends above all
        if r.random() < 0.35 and s["dtype"] != "int64":
            s["odd"] = (s.get("odd") or []) + [[r.choice([0, 1, s["n"] - 1, s["n"] - 1, r.randrange(s["n"])]), r.choice(market.ODD + ["negzero", "negzero", "denormal", "nan", "one"]), r.choice(market.COLS), r.choice([1, 1, 2, 8])]
                                               for _ in range(r.randint(1, 4))]
    sc = scale_of(data)
    c = focus(r, i, 4)
    nt = r.choice([1, 1, 2, 3])
    threads = []
    for t in range(nt):
        ops = [lib_op(r, c, r.randrange(len(data)), sc, (6, 4, 0.2, 0.6))]
        if r.random() < 0.5:
            ops.append(lib_op(r, r.choice(CLASS_NAMES), r.randrange(len(data)), sc, (5, 5, 0.2, 0.6)))
        if r.random() < 0.3:
            ops.append({"op": "scribble", "res": f"{t}.0", "how": r.choice(HOWS), "which": 0, "pos": 3})
        threads.append(ops)
    return {"data": data, "threads": threads, "sched": sched(r), "mon": {"inputs": r.choice([1, 1, 2, 3])}, "nfaults": r.choice([0, 0, 1, 1, 2])}


# ------------------------------------------------------------------ C05 failure containment
def c05(r, i):
    data = datasets(r, r.choice([1, 2, 2]), nmax=80)
    sc = scale_of(data)
    c = focus(r, i, 5)
    acc = CLASSES[c][3]
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A"}
    nt = r.choice([1, 1, 2, 2, 3])
    threads, setup = [], [mk]
    proto = lib_op(r, c, 0, sc, (5, 5, 0.5, 0.2))
    for t in range(nt):
        ops = []
        for _ in range(r.randint(2, 4) if nt == 1 else r.randint(1, 3)):
            u = r.random()
            if u < 0.45:
                ops.append(often(r, {"op": "use", "o": "A", "acc": r.choice(acc)}, 0.06))
            elif u < 0.85:
                o = variant(r, proto) if r.random() < 0.6 else dict(proto)
                ops.append(often(r, o, 0.04))
            else:
                ops.append(lib_op(r, r.choice(CLASS_NAMES), r.randrange(len(data)), sc, (5, 5, 0.2, 0.2)))
        threads.append(ops)
    post = [{"op": "use", "o": "A", "acc": r.choice(acc)}, {k: v for k, v in proto.items()}]
    if r.random() < 0.4:
        post.append(cls_op(r, c, 0, sc, p=dict(mk["p"])))
    return {"data": data, "setup": setup, "threads": threads, "post": post, "sched": sched(r), "nfaults": r.choice([1, 1, 1, 2, 3]), "mon": {}}


# ------------------------------------------------------------------ C08 process-wide settings
ERR = ["ignore", "warn"]


def c08(r, i):
    data = datasets(r, r.choice([1, 2]), nmax=60)
    sc = scale_of(data)
    c = focus(r, i, 8)
    nt = r.choice([1, 1, 2])
    threads = []
    for t in range(nt):
        ops = [lib_op(r, c, r.randrange(len(data)), sc, (5, 5, 0, 0))]
        if r.random() < 0.4:
            ops.append(lib_op(r, r.choice(CLASS_NAMES), 0, sc, (3, 3, 1.5, 1.5)))
        threads.append(ops)
    return {"data": data, "threads": threads, "sched": sched(r), "nfaults": r.choice([0, 0, 1, 1]),
            "mon": {"settings": r.choice([3, 5, 9]), "settings_end": True},
            "errstate": {k: r.choice(ERR) for k in ("divide", "over", "under", "invalid")},
            "preset": {"display.precision": r.randint(3, 9), "display.max_rows": r.randint(20, 90), "recursion": 1000 + r.randint(1, 400), "copy_on_write": r.random() < 0.25,
                       "chained": r.choice([None, "warn"]), "warn": r.choice(["ignore", "default", "always"]), "np_precision": r.randint(4, 10), "gc": r.random() < 0.5}}


# ------------------------------------------------------------------ C09 environment independence
def env_op(r, scn_data, nds):
    k = r.choice(["clock", "clock", "reseed", "reseed", "gc", "churn", "gcmode", "forget", "app"])
    if k == "clock":
        if r.random() < 0.4:
            return {"op": "clock", "near": [r.randrange(nds), r.choice([0.0, 0.5, r.random(), 1.0, 1.0, 1.0]), r.choice([-86400, -1, 0.5, 5, 30, 70, 4000])]}
        return {"op": "clock", "wall": r.choice([-86400 * 400, -3600, 3600, 86400, 86400 * 3650, 0.5]), "mono": r.choice([0, 0.001, 61, 3601, 86400 * 30])}
    if k == "app":
        return dict(op=k, **settings.gen_app(r, guide.WORDS, guide.APPS))
    if k == "gcmode":
        return {"op": k, "on": r.random() < 0.7}
    return {"op": k, "seed": r.randrange(1 << 30)}


def c09(r, i):
    nds = r.choice([1, 2, 3])
    n = r.choice([None, None, r.randint(5, 60)])
    data = datasets(r, nds, nmax=80, n=n)
    for d in data:
        if d["dtype"] == "int64":
            d["dtype"] = "float64"
        if d["layout"] in ("readonly", "alias"):
            d["layout"] = "series"
    sc = scale_of(data)
    c = focus(r, i, 9)
    proto = cls_op(r, c, 0, sc)
    ops = []
    for _ in range(r.randint(2, 6)):
        u = r.random()
        if u < 0.35:
            o = dict(proto)
        elif u < 0.6:
            o = variant(r, proto)
        elif u < 0.85:
            o = fn_op(r, c, 0, sc, p=dict(proto["p"]))
        else:
            o = lib_op(r, r.choice(CLASS_NAMES), 0, sc)
        o["ds"] = r.randrange(nds)
        if r.random() < 0.12:
            ops.append(warm_op(r, c, sc))
        often(r, o, 0.08)
        if r.random() < 0.2:
            o["points"] = [{"at": r.randint(1, 40), "do": r.choice(["gc", "clock", "reseed"]), "wall": 7200, "mono": 7200, "seed": r.randrange(1 << 20)}]
        ops.append(o)
        for _ in range(r.choice([0, 1, 1, 2])):
            ops.append(env_op(r, data, nds))
        if r.random() < 0.35:
            d = r.randrange(nds)
            ops.append({"op": "amend", "ds": d, "pos": r.choice([0, data[d]["n"] - 1, r.randrange(data[d]["n"])]), "col": r.choice(["close", "close", "high", "low", "volume"]), "mul": r.choice([1.5, 0.7, 2.0])})
        if r.random() < 0.15:
            d = r.randrange(nds)
            s = dict(market.twin(r, data[d])) if r.random() < 0.5 else dict(data[d], seed=r.randrange(1 << 30), twin=None)
            ops.append({"op": "newdata", "ds": d, "spec": s})
    return {"data": data, "threads": [ops], "sched": sched(r), "refseed": r.randrange(1 << 20), "simseed": r.randrange(1 << 20), "mon": {}}


# ------------------------------------------------------------------ C15 checkpoints
def c15(r, i):
    data = datasets(r, 1, nmax=80)
    data[0]["layout"] = r.choice(["frame", "series", "view"])
    sc = scale_of(data)
    c = focus(r, i, 15)
    acc = CLASSES[c][3]
    ops = [{"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A0"}]
    names = ["A0"]
    persisted = []
    for _ in range(r.randint(2, 5)):
        u = r.random()
        if u < 0.5:
            ops.append(often(r, {"op": "use", "o": r.choice(names), "acc": r.choice(acc)}, 0.12))
        elif u < 0.8:
            nn = f"A{len(names)}"
            ops.append({"op": "ckpt", "o": r.choice(names), "how": r.choice(["copy", "deepcopy", "pickle2", "pickle4", "pickle5"]), "as": nn})
            names.append(nn)
        else:
            ops.append({"op": "persist", "o": r.choice(names), "protocol": r.choice([2, 4, 5])})
    ops.append({"op": "persist", "o": r.choice(names), "protocol": r.choice([2, 4, 5])})
    k = r.choice([0, 0, 1])
    after = []
    for o in sorted({o["o"] for o in ops if o["op"] == "persist"}):
        for a in r.sample(acc, r.randint(1, len(acc))):
            after.append({"op": "use", "o": o, "acc": a})
    for n in names:
        for a in r.sample(acc, r.randint(1, len(acc))):
            ops.append({"op": "use", "o": n, "acc": a})
    return {"data": data, "threads": [ops], "restart": after, "sched": sched(r), "nfaults": k, "mon": {}}


# ------------------------------------------------------------------ C16 re-entrancy
def c16(r, i):
    data = datasets(r, r.choice([1, 2]), nmax=60)
    sc = scale_of(data)
    c = focus(r, i, 16)
    acc = CLASSES[c][3]
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A"}
    proto = cls_op(r, c, 0, sc, p=dict(mk["p"])) if r.random() < 0.6 else fn_op(r, c, 0, sc, p=dict(mk["p"]))
    ops = []
    for k in range(r.randint(1, 3)):
        o = {"op": "use", "o": "A", "acc": r.choice(acc)} if r.random() < 0.4 else (variant(r, proto) if r.random() < 0.5 else dict(proto))
        ops.append(o)
    ops.append(dict(proto))
    nested = []
    for k, o in enumerate(ops):
        if r.random() < 0.75:
            u = r.random()
            if u < 0.3:
                no = {"op": "use", "o": "A", "acc": r.choice(acc)}
            elif u < 0.9:
                no = variant(r, proto)
                no["ds"] = r.randrange(len(data))
            else:
                no = lib_op(r, r.choice(CLASS_NAMES), 0, sc, (5, 5, 0, 1))
            if no["op"] in ("cls", "fn") and COST.get(c, 1) <= 5 and r.random() < 0.1:
                no["times"] = guide.number(r, r.choice([2, 3, 4, 5, 8, 16]), 2, 64)
            nested.append([k, no, r.random()])
    setup = [mk] if r.random() < 0.93 else [warm_op(r, c, sc), mk]
    return {"data": data, "setup": setup, "threads": [ops], "sched": sched(r), "nested": nested, "mon": {}}


# ------------------------------------------------------------------ C17 forked children
def c17(r, i):
    data = datasets(r, r.choice([1, 1, 2]), nmax=70)
    sc = scale_of(data)
    c = focus(r, i, 17)
    acc = CLASSES[c][3]
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A"}
    proto = cls_op(r, c, 0, sc, p=dict(mk["p"])) if r.random() < 0.5 else fn_op(r, c, 0, sc, p=dict(mk["p"]))

    def work():
        u = r.random()
        if u < 0.4:
            return {"op": "use", "o": "A", "acc": r.choice(acc)}
        if u < 0.9:
            o = variant(r, proto) if r.random() < 0.5 else dict(proto)
            o["ds"] = r.randrange(len(data))
            return o
        return lib_op(r, r.choice(CLASS_NAMES), 0, sc, (5, 5, 0.3, 1))
    threads = [[work() for _ in range(r.randint(1, 3))] for _ in range(r.choice([1, 1, 2]))]
    forker = []
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.3:
            forker.append(work())
        forker.append({"op": "fork", "ops": [work() for _ in range(r.randint(1, 3))], **({"thread": 1} if r.random() < 0.35 else {})})
    threads.append(forker)
    setup = [mk] if r.random() < 0.93 else [warm_op(r, c, sc), mk]
    return {"data": data, "setup": setup, "threads": threads, "post": [{"op": "use", "o": "A", "acc": r.choice(acc)}], "sched": sched(r), "nfaults": r.choice([0, 0, 0, 1])}


# ------------------------------------------------------------------ C18 nothing is kept alive
def c18(r, i):
    data = datasets(r, r.choice([1, 2]), nmax=60)
    sc = scale_of(data)
    c = focus(r, i, 18)
    acc = CLASSES[c][3]
    if i % 9 == 8:
        n = r.randint(6, 16) if r.random() < 0.75 else r.randint(1, 5)
        o = cls_op(r, c, 0, n, accs=list(acc)) if r.random() < 0.5 else fn_op(r, c, 0, n)
        times = 240 if COST.get(c, 1) > 2 else 480
        f = {"op": "flood", "n": n, "seed": r.randrange(1 << 30), "times": guide.size(r, times, lo=240, hi=1400) // 3 * 3, "call": o}
        f["vary"] = r.choice(["", "", "n", "p"])
        if r.random() < 0.4:
            f["warn"] = r.choice(["default", "default", "module", "once"])
        if r.random() < (0.6 if guide.GROUPS_AFFECTED else 0.05):
            f["call"] = wrap_op(r, 0, small=True)
            f["times"], f["vary"] = 120 if f["call"]["f"] in ("add_volume_ta", "add_volatility_ta", "add_others_ta", "add_momentum_ta") else 60, r.choice(["", "n"])
        elif r.random() < (0.6 if guide.UTIL[0] else 0.01):
            f["call"], f["times"], f["vary"] = {"op": "util", "f": "dropna", "ds": 0}, 480, r.choice(["", "n"])
        if r.random() < 0.4:
            f.update(fail=r.choice([1, 2, 5]), span=r.choice([10, 40, 100]))
        return {"data": data[:1], "threads": [[f]], "sched": sched(r), "mon": {"retain": True}}
    mk = {"op": "make", "c": c, "ds": 0, "p": gen_params(r, c, scale=sc), "fillna": fill(r), "as": "A"}
    threads = []
    for t in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randint(1, 4)):
            u = r.random()
            if u < 0.4:
                ops.append({"op": "use", "o": "A", "acc": r.choice(acc)})
            elif u < 0.85:
                ops.append(lib_op(r, c, r.randrange(len(data)), sc, (5, 5, 0.3, 0.3)))
            else:
                ops.append(lib_op(r, r.choice(CLASS_NAMES), r.randrange(len(data)), sc, (4, 4, 1, 1)))
        if r.random() < 0.25:
            ops.append({"op": "ckpt", "o": "A", "how": r.choice(["copy", "deepcopy", "pickle4"]), "as": f"B{t}"})
            ops.append({"op": "use", "o": f"B{t}", "acc": r.choice(acc)})
        threads.append(ops)
    return {"data": data, "setup": [mk], "threads": threads, "sched": sched(r), "mon": {"retain": True}, "nfaults": r.choice([0, 0, 1, 1, 2])}


GEN = {"C17": c17, "C18": c18, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C08": c08, "C09": c09, "C15": c15, "C16": c16}

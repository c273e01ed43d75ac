"""One simulated run of a thread-history property: generate, compute pristine references, simulate, judge."""
import copy
import os
import pickle
import random

import numpy as np
import pandas as pd

from . import core, engine, gen, guide, outcome, settings
from .catalog import CLASSES

YIELDS = {"C01", "C02", "C03", "C04", "C05", "C08", "C17"}
LIVENESS = {"C01", "C02", "C05", "C16"}


def build(prop, seed, i):
    r = random.Random(seed)
    scn = gen.GEN[prop](r, i)
    scn["prop"], scn["seed"], scn["i"] = prop, seed, i
    longest = max([d["n"] for d in scn["data"]] + [o["spec"]["n"] for t in scn.get("threads") or () for o in t if o["op"] == "newdata"])
    for ops in [scn.get("setup", ()), scn.get("post", ())] + list(scn.get("threads") or ()):
        for o in ops:  # keep the work of one run bounded
            if o.get("times", 1) > 20:
                if o["op"] != "flood":
                    scn["opcodes"] = False
                if o["op"] not in ("flood", "warm"):
                    o["times"] = max(20, min(o["times"], 60000 // max(1, longest)))
    return scn, r


def place(scn, r, refs, counts):
    """turn the planned faults/re-entries into concrete instants"""
    if scn.pop("nfaults_planned", None):
        pass
    k = scn.pop("nfaults", 0)
    if k:
        gen.arm_faults(r, scn, counts, k)
    for j, (pos, no, u) in enumerate(scn.pop("nested", [])):
        key = f"0.{pos}"
        n = counts.get(key, 0)
        if n:
            scn["threads"][0][pos].setdefault("points", []).append({"at": guide.choose(r, counts, key) if r.random() < 0.6 else 1 + int(u * n), "do": "call", "key": key + f"r{j}", "op": no})
    if len(scn.get("threads") or ()) > 1 and scn["prop"] in YIELDS:
        ops = [(f"{t}.{k}", op) for t, o in enumerate(scn["threads"]) for k, op in enumerate(o) if counts.get(f"{t}.{k}", 0) > 1]
        keen = [x for x in ops if guide.interesting(counts, x[0])]
        if ops and r.random() < (0.8 if keen else 0.6 if scn["prop"] == "C17" else 0.3):
            for key, op in r.sample(keen or ops, min(len(keen or ops), r.choice([1, 1, 2]))):
                op.setdefault("points", []).append({"at": guide.choose(r, counts, key), "do": "yield", "long": r.random() < 0.7})
            if keen or r.random() < 0.5:
                scn["sched"]["style"] = r.choice(["pct", "coarse", "mixed"])


def step_bound(scn, counts):
    """generous: 40 times the events of the same calls made alone (an event may be a line or a single bytecode)"""
    if not counts:
        return 12_000_000
    total = 0
    for key, op, _, _ in engine.all_ops(scn):
        total += counts.get(key, 0) * op.get("times", 1)
        if op["op"] == "warm":
            total += 4000 * op["times"]
    return 50_000 + 40 * total


def simulate(scn, counts=None, opcodes=None):
    """run the scenario in a fresh fork; returns the engine's result"""
    cap = step_bound(scn, counts)

    def life1():
        seed = scn.get("simseed", scn.get("seed", 0) % 999983)
        if scn.get("opcodes"):
            core.instrument(True)
        engine.seams_on(seed)
        pre = scn.get("preset")
        if pre:
            preset(pre)
        s = engine.Sim(scn)
        return s.run(max_events=cap)
    res = core.in_fork(life1, timeout=scn.get("timeout", 60))
    if scn.get("restart"):
        def life2():  # the process crashed; only what was persisted survives, in a new process life
            engine.seams_on(scn.get("seed", 0) % 999979 + 5)
            s = engine.Sim(dict(scn, threads=None, setup=[], post=[]))
            for k, b in res["ckpts"].items():
                s.objs[k] = pickle.loads(b)
            s.seq([o for o in scn["restart"] if o["o"] in s.objs], "R")
            return s.out
        r2 = core.in_fork(life2, timeout=60)
        res["out"].update(r2)
        res["fired"]["restart"] = 1
        res["restart_ops"] = [o for o in scn["restart"] if o["o"] in res["ckpts"]]
    return res


def preset(p):
    """the embedding application's own, unusual settings, which the library must leave alone"""
    import gc
    import sys
    import warnings
    pd.set_option("display.precision", p["display.precision"])
    pd.set_option("display.max_rows", p["display.max_rows"])
    if p.get("copy_on_write"):
        pd.set_option("mode.copy_on_write", True)
    pd.set_option("mode.chained_assignment", p["chained"])
    sys.setrecursionlimit(p["recursion"])
    warnings.resetwarnings()
    warnings.simplefilter(p["warn"])
    warnings.showwarning = lambda *a, **k: None
    np.set_printoptions(precision=p["np_precision"])
    if p["gc"]:
        gc.enable()


def restart_refs(scn, res, refs):
    v = []
    for k, op in enumerate(res.get("restart_ops", ())):
        got = res["out"].get(f"R{k}")
        m = engine.make_def(scn, op["o"])
        if got is None or m is None:
            continue
        ref, _, _ = core.in_fork(lambda: engine.reference_use(scn, m, op["acc"]))
        d = outcome.diff(got, ref)
        if d:
            v.append({"class": "wrong-answer", "at": f"R{k}", "detail": f"{m['c']}.{op['acc']} after restart from a checkpoint: {d}"})
    for t, ops in enumerate(scn["threads"]):
        for k, op in enumerate(ops):
            if op["op"] in ("ckpt", "persist"):
                o = res["out"].get(f"{t}.{k}")
                if o is not None and o[0] == "E":
                    v.append({"class": "checkpoint-failed", "at": f"{t}.{k}", "detail": f"{op.get('how', 'pickle')} of the object raised {o[1]}"})
    return v


def evaluate(scn, want_refs=None):
    """(violations, result) of a fully concrete scenario"""
    refs, counts = want_refs or engine.references(scn)
    try:
        res = simulate(scn, counts)
    except core.Hung:
        try:
            res = simulate(dict(scn, timeout=120), counts)
        except core.Hung:
            if scn["prop"] in LIVENESS:
                return [{"class": "no-progress", "at": "run", "detail": "the simulated process stopped making progress (twice)"}], {
                    "hash": "hung", "trace": [], "fired": {}, "events": 0, "switches": 0, "preempt": [], "nlog": 0, "viol": [], "out": {}, "reads": (0, 0), "probe": {}}
            raise
    v = engine.judge(scn, refs, res)
    if scn["prop"] == "C15":
        v += restart_refs(scn, res, refs)
    if scn["prop"] in ("C04", "C08", "C18"):  # these checks decide only their own property
        own = {"C04": {"input-modified"}, "C08": {"settings-changed", "settings-visible"}, "C18": {"kept-alive", "memory-grows"}}[scn["prop"]]
        v = [x for x in v if x["class"] in own]
    elif scn["prop"] == "C03":
        pass
    return v, res


def one(prop, seed, i):
    """a complete simulated run"""
    scn, r = build(prop, seed, i)
    if prop in ("C04", "C08", "C18"):
        need = bool(scn.get("nfaults"))
        refs, counts = engine.references(scn) if need else ({}, {})
    else:
        refs, counts = engine.references(scn)
    place(scn, r, refs, counts)
    if prop == "C16":
        refs, counts = engine.references(scn)  # nested calls now have keys
    v, res = evaluate(scn, (refs, counts))
    return scn, v, res


# --------------------------------------------------------------------------- fresh interpreters (C08, C09)
def spawn(job, env, seed):
    import shutil
    import subprocess
    import sys
    import tempfile
    e = {k: v for k, v in core.ENV0.items() if k not in ("PYTHONHASHSEED", "TZ", "LC_ALL", "PYTHONOPTIMIZE")}
    if job["mode"] == "import":  # an environment in which nothing is decided yet
        e = {k: v for k, v in e.items() if k in ("PATH", "LANG", "LD_PRELOAD", "VIRTUAL_ENV", "PYTHONDONTWRITEBYTECODE")}
    e.update(env)
    e["PYTHONPATH"] = core.VERIF
    e["VERIF_REPO"] = core.REPO
    tmp = tempfile.mkdtemp(prefix="verif-dst-")
    try:
        p = subprocess.run([sys.executable, "-m", "sim.child"], input=pickle.dumps(dict(job, cwd=tmp)), env=e, cwd=core.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode != 0:
        raise RuntimeError("fresh interpreter failed: " + p.stderr.decode()[-1500:])
    return pickle.loads(p.stdout)


def gen_env(r):
    return {"PYTHONHASHSEED": str(r.randrange(1, 4000000)), "TZ": r.choice(["UTC", "Asia/Kolkata", "America/New_York"]), "LC_ALL": r.choice(["C", "C.UTF-8", "en_US.UTF-8"]),
            "PYTHONOPTIMIZE": r.choice(["0", "0", "1"]), "HOME": "/nonexistent", "COLUMNS": str(r.randint(40, 200)), "PYTHONDEVMODE": r.choice(["", "", "1"]),
            "USER": r.choice(["root", "ta", "nobody"]), **({} if r.random() < 0.5 else {"OMP_NUM_THREADS": r.choice(["1", "4"])}), **{w: r.choice(["1", "0", "true", "4"]) for w in guide.WORDS if r.random() < 0.7}}


def evaluate_fresh(scn):
    fr = scn["fresh"]
    if scn["prop"] == "C08":
        bad = spawn({"mode": "import", "first": fr["first"]}, fr["env"], 0)
        v = [{"class": "settings-changed", "at": "import", "detail": "importing the library changed " + b} for b in bad]
        return v, {"hash": f"import{bad}", "trace": [], "fired": {"fresh interpreter": 1}, "events": 0, "switches": 0, "preempt": [], "nlog": 1, "out": {}, "reads": (0, 0), "probe": {}, "viol": []}
    refs, _ = engine.references(scn)
    out = spawn({"mode": "ops", "scn": scn, "first": fr["first"], "seams": fr["seams"], "seed": fr["seed"]}, fr["env"], 0)
    res = {"out": out, "viol": [], "hash": outcome.sig(repr(sorted((k, outcome.sig(o)) for k, o in out.items()))), "trace": [], "fired": {"fresh interpreter": 1}, "events": 0, "switches": 0,
           "preempt": [], "nlog": len(out), "reads": (0, 0), "probe": {}}
    return engine.judge(scn, refs, res), res


def one_fresh(prop, seed, i):
    scn, r = build(prop, seed, i)
    for k in ("nfaults", "nested", "restart"):
        scn.pop(k, None)
    mods = ["trend", "momentum", "volume", "volatility", "others", "wrapper", "utils"]
    r.shuffle(mods)
    scn["fresh"] = {"env": gen_env(r), "first": mods[:r.randint(0, 3)], "seams": r.random() < 0.5, "seed": r.randrange(1 << 30)}
    if prop == "C09":  # several clients of one fresh process, plenty of calls
        for o in scn["threads"][0]:
            o.pop("points", None)
    v, res = evaluate_fresh(scn)
    return scn, v, res

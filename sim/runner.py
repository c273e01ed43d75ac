"""Runs a property's batch of simulations on several worker processes; evidence; minimisation; replay."""
import collections
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

from . import core

core.load_ta()
core.instrument()

from . import guide, minimise, props

CAP = {"quick": 330.0, "thorough": 3000.0}


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def worker(prop, seed, w, nw, start, runs, wfd, deadline, cfg):
    def send(msg):
        b = pickle.dumps(msg, protocol=4)
        b = struct.pack("<I", len(b)) + b
        mv = memoryview(b)
        while mv:
            mv = mv[os.write(wfd, mv):]
    for i in range(start + w, start + runs, nw):
        if time.monotonic() > deadline:
            send(("late", i))
            break
        rs = core.seed_of(seed, prop, i)
        try:
            scn, v, res = props.one(prop, rs, i)
        except Exception as e:
            import traceback
            send(("error", i, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-700:]}"))
            continue
        kinds = collections.Counter(o[0] for o in res.get("out", {}).values())
        msg = {"i": i, "seed": rs, "hash": res["hash"], "events": res["events"], "switches": res["switches"], "fired": res["fired"], "preempt": res["preempt"][:400], "nlog": res["nlog"],
               "kinds": dict(kinds), "probe": res.get("probe", {}), "simtime": res.get("simtime", 0), "reads": res.get("reads", (0, 0)), "states": res.get("states", 0), "evals": res.get("evals", 0), "seg": len(res.get("trace") or ())}
        if not v and (i < 2 or i % 400 == 0):
            msg["sample"] = scn
        if i % 97 == 5:  # determinism spot check: the same seed again
            try:
                _, v2, res2 = props.one(prop, rs, i)
                msg["again"] = (res2["hash"] == res["hash"] and [x["class"] for x in v] == [x["class"] for x in v2])
            except Exception:
                msg["again"] = False
        if v:
            msg["viol"], msg["scn"] = v, scn
        send(("run", msg))
    send(("end", w))


def known(prop):
    out = []
    try:
        with open(os.path.join(core.VERIF, "KNOWN_FINDINGS")) as f:
            for ln in f:
                m = re.match(r"known: (\{.*\})\s*$", ln)
                if m:
                    k = json.loads(m.group(1))
                    if k["property"] == prop:
                        out.append(k)
    except OSError:
        pass
    return out


def is_known(v, ks):
    for k in ks:
        if v["class"] == k["class"] and re.search(k["detail"], v["detail"]):
            return k
    return None


def check(a):
    t0 = time.monotonic()
    prop, tier = a.property, a.tier
    if prop not in props.PLAN:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    runs = a.runs or props.PLAN[prop][tier]
    scratch = tempfile.mkdtemp(prefix="verif-dst-")
    os.chdir(scratch)
    try:
        return _check(a, prop, tier, runs, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _check(a, prop, tier, runs, t0):
    deadline = time.monotonic() + float(os.environ.get("VERIF_CAP", CAP[tier]))
    guide.survey()
    print(f"property={prop} tier={tier} VERIF_SEED={a.seed} runs={runs} workers={a.workers} repo={core.REPO} changed code objects={guide.NCHANGED[0]} reached from {len(guide.AFFECTED)} classes, {len(guide.GROUPS_AFFECTED)} wrappers", flush=True)
    pipes, pids = [], []
    for w in range(a.workers):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            code = 0
            try:
                worker(prop, a.seed, w, a.workers, a.start, runs, wf, deadline, {})
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wf)
        pipes.append(r)
        pids.append(pid)
    bufs = {r: b"" for r in pipes}
    live = set(pipes)
    st = {"runs": 0, "events": 0, "switches": 0, "simtime": 0.0, "evals": 0, "states": 0, "seg": 0, "nlog": 0}
    fired, kinds, probe = collections.Counter(), collections.Counter(), collections.Counter()
    hashes, nontriv, preempt, samples, errors, again = set(), set(), set(), [], [], [0, 0]
    viol, late, lines, seen_known, reads = [], 0, [], {}, [0, 0]
    ks = known(prop)
    ended = 0
    while live:
        rd, _, _ = select.select(list(live), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                n = struct.unpack("<I", bufs[r][:4])[0]
                if len(bufs[r]) < 4 + n:
                    break
                msg = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                if msg[0] == "error":
                    errors.append(msg[1:])
                elif msg[0] == "late":
                    late += 1
                elif msg[0] == "end":
                    ended += 1
                else:
                    m = msg[1]
                    st["runs"] += 1
                    for k in ("events", "switches", "simtime", "evals", "states", "seg", "nlog"):
                        st[k] += m[k]
                    fired.update(m["fired"])
                    kinds.update(m["kinds"])
                    probe.update(m["probe"])
                    preempt.update(map(tuple, m["preempt"]))
                    hashes.add(m["hash"])
                    for j in (0, 1):
                        reads[j] += max(0, m["reads"][j])
                    if m["switches"] > 0 or sum(m["fired"].values()) > 0 or m["nlog"] > 1:
                        nontriv.add(m["hash"])
                    if "again" in m:
                        again[0] += 1
                        again[1] += not m["again"]
                    if "sample" in m and len(samples) < 2:
                        samples.append(m["sample"])
                    if a.hashes:
                        lines.append(f"{m['i']} {m['hash']} {m['events']} {m['switches']} {sorted(m['fired'].items())}")
                    if m.get("viol"):
                        new = []
                        for v in m["viol"]:
                            k = is_known(v, ks)
                            if k:
                                seen_known[k["id"]] = k
                            else:
                                new.append(v)
                        if new:
                            viol.append((m["i"], m["seed"], m["scn"], new))
        if viol and not a.hashes:
            # let concurrently finishing runs report, then prefer the simplest failing run
            if len(viol) >= 4 or time.monotonic() - t0 > 5:
                break
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for k in ks:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(viol),
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation = one simulated run (seed = sha256(VERIF_SEED, property, run index)) in its own process life; distinct by the hash of its event log and schedule; non-trivial if it had at least one preemption, one fired fault/environment event or two library calls",
            "samples": json.loads(json.dumps(samples[:2], default=_default)),
            "runs_per_hour": round(st["runs"] / max(wall, 1e-3) * 3600), "seeds_per_hour": round(st["runs"] / max(wall, 1e-3) * 3600),
            "simulated_time_s": round(st["simtime"], 1), "library_calls_or_recomputations": st["nlog"] + st["evals"],
            "scheduling_points": st["events"], "preemptions": st["switches"], "distinct_preemption_pairs": len(preempt), "distinct_event_logs": len(hashes),
            "distinct_states": st["states"], "fault_kinds_fired": dict(sorted(fired.items())), "outcomes": {"S": "series", "T": "accessor lists", "D": "frames", "E": "exceptions equal to the lone call's", "F": "calls ended by an injected fault", "V": "constructions"} and dict(kinds),
            "probes": dict(probe), "clock_reads_by_library_or_runtime": reads[0], "entropy_reads": reads[1],
            "determinism_rechecks": again[0], "determinism_mismatches": again[1], "runs_planned": runs, "runs_cut_by_time_cap": max(0, runs - st["runs"]) if not viol else 0, "harness_errors": len(errors),
            "real_components": ["ta (all modules, from the working tree)", "pandas", "numpy", "CPython 3.12 threads (one released at a time)"],
            "stubbed_components": {"C10": ["exchange, network and node storage are simulated"], "C11": ["recorder clocks are simulated"], "C12": ["feed faults are simulated"], "C13": ["feed faults are simulated"], "C14": ["feed outages are simulated"], "C19": ["feed, node restarts and retention are simulated"], **{k: ["exchange, network and node storage are simulated"] for k in ("C20", "C21", "C22", "C23", "C24", "C25", "C26")}}.get(
                prop, ["thread scheduler, threading.Lock/RLock and time.sleep as seen by ta", "clocks and kernel entropy (LD_PRELOAD seam)" if core._SHIM else "clock seam unavailable"]),
        },
        "assumptions": ["pandas/numpy calls are atomic steps: preemption and faults happen at every line and call boundary of ta's own code, not inside pandas", "sampling, not enumeration: a clean batch is evidence, not proof"],
    }
    if a.hashes:
        with open(a.hashes, "w") as f:
            f.write("\n".join(sorted(lines, key=lambda x: int(x.split()[0]))) + "\n")
        print(f"{len(lines)} runs, {len(errors)} errors, {len(viol)} violations")
        for e in errors[:3]:
            print(e)
        return 0
    rc = 0
    if viol:
        rc = report(a, prop, viol, ev)
    elif errors:
        print(f"harness errors in {len(errors)} runs, first: run {errors[0][0]}: {errors[0][1]}", file=sys.stderr)
        rc = 2
    elif st["runs"] == 0 or ended < a.workers:
        print(f"no verdict: {st['runs']} runs completed, {ended}/{a.workers} workers finished", file=sys.stderr)
        rc = 2
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    if core.REPO == "/repo" or os.environ.get("VERIF_EVIDENCE"):
        with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=_default)
    print(f"{st['runs']} runs in {wall:.1f}s, {st['events']} scheduling points, {st['switches']} preemptions, faults {sum(fired.values())}, rechecks {again[0]} (mismatches {again[1]}), errors {len(errors)}, violations {len(viol)}", flush=True)
    return rc


def report(a, prop, viol, ev):
    viol.sort(key=lambda t: (len(json.dumps(t[2], default=_default)), t[0]))
    i, seed, scn, v = viol[0]
    scn0, v0 = scn, v
    print(f"run {i} (seed {seed}) violates {prop}: {v[0]['class']} at {v[0]['at']}: {v[0]['detail']}", flush=True)
    if not a.no_min:
        m = minimise.Min(scn, v)
        try:
            scn, v = m.run()
        except Exception as e:
            print(f"minimiser stopped: {type(e).__name__}: {e}", file=sys.stderr)
            scn, v = m.best, m.viol
        print(f"minimised in {m.tries} executions", flush=True)
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    path = os.path.join(core.VERIF, "replays", f"{prop}-{seed:016x}.json")

    def write(scn, v, minimised):
        h = None
        try:
            v2, res = props.evaluate(scn)
            h = res["hash"]
            v = v2 or v
        except Exception:
            pass
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "run": i, "verif_seed": a.seed, "minimised": minimised, "violation": v[0], "hash": h, "scenario": scn}, f, indent=1, default=_default)
    write(scn, v, not a.no_min)
    ok = fresh_replay(path)
    if not ok and not a.no_min:
        write(scn0, v0, False)
        ok = fresh_replay(path)
        v = v0
    print(f"replay in a fresh process: {'reproduced' if ok else 'did not reproduce'}")
    ev["coverage"]["violation"] = {"class": v[0]["class"], "detail": v[0]["detail"], "run": i, "seed": seed, "replay": path, "replay_reproduced": ok}
    print(f"{v[0]['class']}: {v[0]['detail']}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def fresh_replay(path):
    env = {k: v for k, v in os.environ.items() if k not in ("VERIF_DST_READY", "LD_PRELOAD")}
    try:
        p = subprocess.run([sys.executable, os.path.join(core.VERIF, "check.py"), "--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
        return p.returncode == 1 and b"hash match" in p.stdout
    except Exception:
        return False


def replay(path):
    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-dst-")
    os.chdir(scratch)
    try:
        v, res = props.evaluate(d["scenario"])
        same = [x for x in v if x["class"] == d["violation"]["class"]]
        if not same:
            print("violation not reproduced")
            return 0
        print("hash match" if res["hash"] == d["hash"] else f"hash differs: {res['hash']} {d['hash']}")
        print(f"{same[0]['class']} at {same[0]['at']}: {same[0]['detail']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

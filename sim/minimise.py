"""Shrink a failing scenario while the same class of violation persists."""
import copy
import time

from . import props


def cost(s):
    n = sum(len([o for o in t if o["op"] != "nop"]) for t in s.get("threads") or ())
    return n


class Min:
    def __init__(self, scn, viol, budget=45.0, log=lambda *a: None):
        self.cls = viol[0]["class"]
        self.best, self.viol = scn, viol
        self.end = time.monotonic() + budget
        self.tries = 0

    def fails(self, s):
        if time.monotonic() > self.end:
            return None
        self.tries += 1
        try:
            v, res = props.evaluate(s)
        except Exception:
            return None
        v = [x for x in v if x["class"] == self.cls]
        return (v, res) if v else None

    def attempt(self, s, reseed=True):
        """accept candidate s if it fails the same way (also under a few other schedules)"""
        alts = [None]
        if reseed and s.get("sched") and "seed" in s["sched"] and len(s.get("threads") or ()) > 1:
            alts += [("fine", 1), ("mid", 2), ("pct", 3)]
        for a in alts:
            c = s
            if a is not None:
                c = dict(s, sched={"style": a[0], "seed": a[1] + s["seed"] % 1000})
            r = self.fails(c)
            if r:
                self.best, self.viol = c, r[0]
                self.res = r[1]
                return True
            if time.monotonic() > self.end:
                return False
        return False

    def seqs(self, s):
        return [("setup", s.get("setup"))] + [(t, ops) for t, ops in enumerate(s.get("threads") or ())] + [("post", s.get("post"))]

    def drop_ops(self):
        for where, ops in self.seqs(self.best):
            for k in reversed(range(len(ops or ()))):
                if ops[k]["op"] == "nop" or time.monotonic() > self.end:
                    continue
                s = copy.deepcopy(self.best)
                tgt = s["threads"][where] if isinstance(where, int) else s[where]
                tgt[k] = {"op": "nop"}
                self.attempt(s)
        # drop emptied threads from the end
        while len(self.best.get("threads") or ()) > 1 and all(o["op"] == "nop" for o in self.best["threads"][-1]):
            s = copy.deepcopy(self.best)
            s["threads"].pop()
            if not self.attempt(s):
                break

    def drop_points(self):
        for where, ops in self.seqs(self.best):
            for k, op in enumerate(ops or ()):
                for j in reversed(range(len(op.get("points") or ()))):
                    s = copy.deepcopy(self.best)
                    tgt = s["threads"][where] if isinstance(where, int) else s[where]
                    tgt[k]["points"].pop(j)
                    self.attempt(s)

    def simplify_calls(self):
        for where, ops in self.seqs(self.best):
            for k, op in enumerate(ops or ()):
                for v in (1, 2, 3, 5, 9, 20):
                    if op.get("times", 1) > v and op["op"] != "flood":
                        s = copy.deepcopy(self.best)
                        (s["threads"][where] if isinstance(where, int) else s[where])[k]["times"] = v
                        if self.attempt(s):
                            break
                for f in ("acc1", "p", "kw", "fillna"):
                    s = copy.deepcopy(self.best)
                    tgt = (s["threads"][where] if isinstance(where, int) else s[where])[k]
                    if f == "acc1":
                        if len(tgt.get("acc") or ()) < 2 or not isinstance(tgt["acc"], list):
                            continue
                        for a in list(tgt["acc"]):
                            s2 = copy.deepcopy(s)
                            t2 = (s2["threads"][where] if isinstance(where, int) else s2[where])[k]
                            t2["acc"] = [a]
                            if self.attempt(s2):
                                break
                        continue
                    if not tgt.get(f):
                        continue
                    tgt[f] = {} if f in ("p", "kw") else None
                    self.attempt(s)

    def simplify_data(self):
        for d in range(len(self.best["data"])):
            for ch in ({"nan": []}, {"nancol": []}, {"zerovol": []}, {"odd": []}, {"index": "range"}, {"dtype": "float64"}, {"layout": "series"}, {"kind": "walk"}):
                k, v = next(iter(ch.items()))
                if self.best["data"][d].get(k) in (v, None):
                    continue
                s = copy.deepcopy(self.best)
                s["data"][d].update(ch)
                self.attempt(s)
        while time.monotonic() < self.end:
            n = self.best["data"][0]["n"]
            done = True
            for m in (n // 2, n * 3 // 4, n - 1):
                if m < 2 or m == n or self.best.get("hist"):
                    continue
                s = copy.deepcopy(self.best)
                for d in s["data"]:
                    if d["n"] == n or d["n"] > m:
                        d["n"] = min(d["n"], m)
                if self.attempt(s):
                    done = False
                    break
            if done:
                break

    def feed_steps(self):
        for key in ("hist", "outs"):
            size = max(1, len(self.best[key]) // 2)
            while size >= 1 and time.monotonic() < self.end:
                k = 0
                while k < len(self.best[key]) and len(self.best[key]) > 1:
                    s = copy.deepcopy(self.best)
                    del s[key][k:k + size]
                    if not s[key] or not self.attempt(s):
                        k += size
                size //= 2
        for h in range(len(self.best["hist"])):
            for f in ("bad", "rows", "keep", "gaps", "extra"):
                for j in reversed(range(len(self.best["hist"][h].get(f) or ()))):
                    s = copy.deepcopy(self.best)
                    s["hist"][h][f].pop(j)
                    if f in ("bad", "gaps") and not s["hist"][h][f]:
                        continue
                    self.attempt(s)
            for f in ("prov", "kill"):
                if self.best["hist"][h].get(f) is not None:
                    s = copy.deepcopy(self.best)
                    s["hist"][h][f] = None
                    self.attempt(s)
        for k, o in enumerate(self.best["outs"]):
            for f in ("p", "fillna"):
                if o.get(f):
                    s = copy.deepcopy(self.best)
                    s["outs"][k][f] = {} if f == "p" else False
                    if o["op"] == "cls" and o["c"] == "SMAIndicator" and f == "p":
                        continue
                    self.attempt(s)
            if o["op"] == "cls" and len(o["acc"]) > 1:
                for a in o["acc"]:
                    s = copy.deepcopy(self.best)
                    s["outs"][k]["acc"] = [a]
                    if self.attempt(s):
                        break
        self.simplify_data()

    def trace(self):
        """replace the PRNG schedule by the explicit one, then drop preemptions"""
        s = self.best
        if not s.get("threads") or len(s["threads"]) < 2:
            return
        r = self.fails(s)
        if not r or not r[1].get("trace"):
            return
        c = dict(s, sched={"trace": r[1]["trace"]})
        r2 = self.fails(c)
        if not r2:
            return
        self.best, self.viol = c, r2[0]
        size = max(1, len(c["sched"]["trace"]) // 2)
        while size >= 1 and time.monotonic() < self.end:
            k = 0
            while k < len(self.best["sched"]["trace"]):
                tr = [list(x) for x in self.best["sched"]["trace"]]
                del tr[k:k + size]
                merged = []
                for t, n in tr:
                    if merged and merged[-1][0] == t:
                        merged[-1][1] += n
                    else:
                        merged.append([t, n])
                if not self.attempt(dict(self.best, sched={"trace": merged}), reseed=False):
                    k += size
                if time.monotonic() > self.end:
                    return
            size //= 2

    def run(self):
        s = self.best
        if s.get("hist") is not None:
            self.feed_steps()
        elif not s.get("fresh"):
            for _ in range(2):
                c = cost(self.best)
                self.drop_ops()
                self.drop_points()
                if cost(self.best) == c:
                    break
            self.simplify_calls()
            self.simplify_data()
            self.trace()
        else:
            self.drop_ops()
        return self.best, self.viol

"""A fresh interpreter ("process restart"): imports the library its own way and answers a list of calls.

stdin: pickled job, stdout: pickled answer."""
import os
import pickle
import sys


def main():
    job = pickle.load(sys.stdin.buffer)
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    if job.get("cwd"):
        os.chdir(job["cwd"])
    from sim import core
    from sim import settings
    core._warm()
    before = None
    if job["mode"] == "import":
        import threading
        settings.full()
        before = settings.full()
    if job.get("first"):
        sys.path.insert(0, core.REPO)
        for m in job["first"]:
            __import__("ta." + m)
    if before is not None:
        sys.path.insert(0, core.REPO)
        import ta, ta.wrapper, ta.utils, ta.momentum, ta.trend, ta.volatility, ta.volume, ta.others  # noqa
        settings.full()
        sys.path.remove(core.REPO)
        if job.get("first"):
            sys.path.remove(core.REPO)
        after = settings.full()
        ans = [b for b in settings.compare(before, after)]
    else:
        core.load_ta()
        from sim import engine, outcome
        scn = job["scn"]
        if job.get("seams"):
            engine.seams_on(job["seed"])
        s = engine.Sim(dict(scn, mon={}))
        for tag, ops in [("S", scn.get("setup", ()))] + [(f"{t}.", o) for t, o in enumerate(scn["threads"])]:
            for k, op in enumerate(ops):
                if op["op"] in ("reseed", "clock"):
                    continue
                s.step({x: y for x, y in op.items() if x != "points"}, f"{tag}{k}")
        ans = s.out
    out.write(pickle.dumps(ans, protocol=4))
    out.flush()


if __name__ == "__main__":
    main()

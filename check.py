#!/usr/bin/env python3
"""Entry point: check.py <property> [--tier quick|thorough] [--seed N] [--runs N] | check.py --replay FILE

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def shim():
    """build the clock/entropy seam if needed; returns its path or None"""
    src, dst = os.path.join(HERE, "sim", "shim.c"), os.path.join(HERE, "build", "shim.so")
    try:
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = f"{dst}.{os.getpid()}"
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(tmp, dst)
        return dst
    except (OSError, subprocess.CalledProcessError):
        return None


def reexec():
    """fixed hash seed, no address randomisation, clock/entropy seam loaded"""
    if os.environ.get("VERIF_DST_READY") == "1":
        return
    env = dict(os.environ, VERIF_DST_READY="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("VERIF_HASHSEED", "0")
    env["PYTHONHASHSEED"] = env["VERIF_HASHSEED"]
    so = shim()
    if so:
        env["LD_PRELOAD"] = so
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--record-baseline", action="store_true", help="record /repo's code objects as the reference of sim/guide.py")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--hashes", help="write one line per run (determinism self-test) instead of evidence")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    reexec()
    sys.path.insert(0, HERE)
    from sim import runner
    if a.record_baseline:
        from sim import guide
        guide.record()
        return 0
    if a.replay:
        return runner.replay(a.replay)
    return runner.check(a)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

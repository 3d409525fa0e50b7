"""Shared plumbing of the conformance drivers (runs under the project's Python)."""
import argparse
import json
import logging
import os
import random
import signal
import sys
import traceback

assert "/repo" in sys.path or any(p == "/repo" for p in sys.path), "PYTHONPATH must contain /repo"
logging.disable(logging.CRITICAL)


class Hang(BaseException):
    """A step of the driver took far too long."""


class Ctx:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--prop")
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--out", required=True)
        a = ap.parse_args()
        self.prop, self.tier, self.seed, self.out = a.prop, a.tier, a.seed, a.out
        self.thorough = a.tier == "thorough"
        self.rng = random.Random("%s-%d" % (a.prop, a.seed))
        random.seed(a.seed)
        p = os.path.join(a.out, "gen.json")
        self.gen = json.load(open(p)) if os.path.exists(p) else {}
        # a driver that is part of another one's work does less
        self.scale = float(os.environ.get("BUDGET_SCALE", "1"))
        self.batches = {}
        self.stats = {}

    def n(self, quick, thorough):
        v = thorough if self.thorough else quick
        return max(1, int(v * self.scale)) if isinstance(v, int) and v >= 40 else v

    def add(self, spec, ev, cfg=None, ident=None, canary=False, kind=None, chunk=None):
        b = self.batches.setdefault((spec, kind), {"spec": spec, "traces": []})
        if kind:
            b["cfg"] = kind
        if chunk:
            b["chunk"] = chunk
        t = {"cfg": cfg if cfg is not None else {"none": 0}, "ev": ev}
        if ident:
            t["id"] = ident
        if canary:
            t["canary"] = True
        b["traces"].append(t)

    def finish(self):
        with open(os.path.join(self.out, "traces.json"), "w") as f:
            json.dump({"batches": list(self.batches.values()), "stats": self.stats}, f)


def end(**kw):
    return dict({"op": "end"}, **kw)


def in_repo(exc):
    """Is the innermost project frame of this exception inside the code under test?"""
    return any("/repo/vtelem/" in f.filename for f in traceback.extract_tb(exc.__traceback__))


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if "/repo/vtelem/" in f.filename]
    w = "%s:%d" % (where[-1].filename.replace("/repo/", ""), where[-1].lineno) if where else "?"
    return "%s: %s (%s)" % (type(exc).__name__, str(exc)[:120], w)


class guard:
    """
    with guard(ev): ...   an exception that comes out of the code under test, or a step
    that does not end, becomes an event no specification accepts.
    """

    def __init__(self, ev, seconds=60):
        self.ev, self.seconds = ev, seconds

    def __enter__(self):
        def onalarm(*_):
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, t, e, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if e is None:
            return False
        if isinstance(e, Hang):
            self.ev.append({"op": "hang", "what": "no progress"})
            return True
        if isinstance(e, Exception):
            self.ev.append({"op": "crash", "what": describe(e)})
            return True
        return False


def parallel(fn, items, procs=6):
    """Map fn over items in forked processes (fn must be a module-level function)."""
    import multiprocessing as mp
    if procs <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=1)

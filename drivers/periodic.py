"""C27: periodic daemons in virtual time."""
import copy
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
U = 4096
SCALES = ((1, 1), (2, 1), (1, 2), (4, 1), (1, 1), (0, 1))


def units(x):
    n = x * U
    assert n == int(n), x
    return int(n)


def near(x):
    """Metrics are reported as they are; a value that is no multiple of 1/4096 is wrong."""
    n = x * U
    return int(n) if n == int(n) else -999


def now():
    return units(time.time() - 1000.0)


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


class Observer:
    """Learns the shared time right after the daemon."""

    def __init__(self):
        self.last = self.pending = None

    def set_time(self, t):
        if t != self.last:
            self.last = t
            self.pending = {"op": "tick", "now": now(), "v": units(t - 1000.0)}


class Tele(TelemetryDaemon):
    body = None

    def dispatch_now(self, *a, **k):
        self.body()
        return 0


class Keeper(TimeKeeper):
    body = None

    def iteration(self, *a, **k):
        super().iteration(*a, **k)
        self.body()


class World:
    def __init__(self, kind, progs, rate=0.5, dur=0.0, exact=True, watched=True, env=False, tick=1 / 64):
        self.ev, self.progs, self.exact, self.kind = [], progs, exact, kind
        self.dur, self.rate = [dur], rate
        self.pos = 0
        self.scale = 1.0
        self.keeper = TimeKeeper("k", tick) if kind in ("plain", "tele") else None
        cb = self.overrun if watched else None
        self.env = TelemetryEnvironment(128, metrics_rate=1.0, app_id_basis=0.5) if env and kind in ("plain", "none") else None
        if kind in ("plain", "none"):
            self.d = Daemon("d", self.task, rate, cb, lambda *a: None, self.env, self.keeper, (lambda *a, **k: None) if watched else None)
        elif kind == "tele":
            self.d = Tele("d", 64, rate, self.keeper, 1.0, app_id_basis=0.5)
            self.d.body = self.task
            self.d.function["overrun"] = cb if watched else self.d.function["overrun"]
            self.env = self.d
        else:
            self.d = Keeper("d", rate)
            self.d.body = self.task
            if watched:
                self.d.function["overrun"] = cb
        if self.keeper is not None:
            self.seen = Observer()
            self.keeper.add_slave(self.seen)
            self.seen.pending = None
        self.cfg = {"threads": 1 + len(progs), "exact": exact, "clock": {"plain": "kept", "tele": "kept", "none": "none", "keeper": "real"}[kind],
                    "watched": watched and kind != "none", "rate": units(rate), "time": 0, "kind": kind, "progs": str(progs), "env": env}

    def log(self, **e):
        sched.event(lambda: self.append(dict(e, now=now())))

    def append(self, e):
        if self.keeper is not None and self.seen.pending:
            # only the latest update matters
            self.ev.append(self.seen.pending)
            self.seen.pending = None
        self.ev.append(e)

    def task(self, *a, **k):
        self.log(op="begin")
        d = self.dur[self.pos % len(self.dur)]
        self.pos += 1
        if d:
            time.sleep(d)
        if not self.exact and self.kind == "plain":
            self.keeper.iteration()
        self.log(op="finish")

    def overrun(self, start, stop, rate, data):
        base = 1000.0
        self.log(op="overrun", start=units(start - base), stop=units(stop - base), rate=units(rate))

    def op(self, w):
        t = thread_no()
        d = self.d
        if w in ("start", "stop", "pause", "unpause", "restart"):
            was = d.get_state_str()
            self.log(op="call", t=t, what=w, was=was)
            ok = getattr(d, w)()
            self.log(op="ret", t=t, ok=bool(ok), was=was)
        elif w[0] == "rate":
            d.set_rate(w[1])
            self.log(op="rate", x=units(w[1]), got=units(d.get_rate()))
        elif w[0] == "scale":
            if self.keeper is not None:
                # time up to here has passed at the old scale
                self.keeper.scale(w[1] / w[2])
                self.scale = w[1] / w[2]
                self.log(op="scale", n=w[1], d=w[2])
        elif w[0] == "dur":
            self.dur = list(w[1])
        elif w[0] == "wait":
            time.sleep(w[1])
        elif w == "metrics":
            self.metrics()

    def metrics(self):
        m = self.d.function["metrics_data"]
        over, up = int(m["overruns"]), near(m["uptime"])
        cho, chu, cyc = over, up, -1
        if self.env is not None:
            cho = int(self.env.get_metric("d.overruns"))
            chu = near(self.env.get_metric("d.uptime"))
            cyc = near(self.env.get_metric("d.cycle_time"))
        self.log(op="metrics", overruns=over, up=up, choverruns=cho, chup=chu, cycle=cyc)

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        if not self.exact:
            ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for _ in range(4):
                if self.d.get_state() == DaemonState.PAUSED:
                    self.op("unpause")
                elif self.d.get_state() == DaemonState.RUNNING:
                    self.op("stop")
                elif self.d.get_state() != DaemonState.IDLE:
                    time.sleep(2)
            time.sleep(2)
            self.metrics()
            return
        if self.keeper is not None:
            self.keeper.start()
        time.sleep(1 / 128)
        for w in self.progs[0]:
            self.op(w)
        if self.d.get_state() == DaemonState.PAUSED:
            self.op("unpause")
        if self.d.get_state() == DaemonState.RUNNING:
            self.op("stop")
        time.sleep(2)
        self.op("metrics")
        if self.keeper is not None:
            self.keeper.stop()


def judge(o, res, desc=None, canary=False):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TracePeriodic", ev, dict(o.cfg, schedule=str(desc)))


def once(*a, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


Q = 1 / 64


def concrete(g, rate, odd):
    """Requests at instants that fall between (or, if not odd, onto) those of calls and ticks."""
    out, cur, sc = [], rate, 0
    for w in g:
        if w == "slower":
            cur = min(0.75, cur + rng.randrange(1, 20) * Q)
            out.append(("rate", cur))
            if rng.random() < 0.3:
                out.append(("rate", rng.choice((0.0, -0.5))))
        elif w == "faster":
            cur = max(2 * Q, cur - rng.randrange(1, 20) * Q)
            out.append(("rate", cur))
        elif w == "long":
            out.append(("dur", [min(1.0, rng.choice((cur, cur + Q, cur * 2, cur - Q, 0.75))) for _ in range(rng.choice((1, 3)))]))
        elif w == "short":
            out.append(("dur", [rng.choice((0.0, Q, cur / 2 // Q * Q)) for _ in range(rng.choice((1, 3)))]))
        elif w == "scale":
            out.append(("scale",) + rng.choice(SCALES))
        elif w == "wait":
            out.append(("wait", rng.randrange(1, 160) * Q))
        else:
            out.append(w)
        if w != "wait":
            out.append(("wait", rng.randrange(1, 90) * Q + (Q / 4 if odd else 0)))
        if rng.random() < 0.3:
            out.append("metrics")
    return out


KINDS = ("plain", "plain", "plain", "tele", "keeper", "none")
OPS = ("start", "start", "stop", "pause", "unpause", "unpause", "slower", "faster", "long", "short", "wait", "scale", "restart")
for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.02:
        continue
    r = rng.randrange(2, 40) * Q
    once(rng.choice(KINDS), [concrete(["start"] + g, r, rng.random() < 0.7)], r, rng.choice((0, Q, 0.25)), watched=rng.random() < 0.7, env=rng.random() < 0.5)
for k in range(ctx.n(400, 6000)):
    r = rng.randrange(2, 40) * Q
    once(KINDS[k % 6], [concrete(["start"] + [rng.choice(OPS) for _ in range(rng.randrange(4, 16))], r, rng.random() < 0.7)], r,
         rng.choice((0, Q, 0.25, r)), watched=rng.random() < 0.7, env=rng.random() < 0.5)

PROGS = [
    [["start", ("wait", 1), "pause", ("wait", 1), "unpause", "stop"], [("wait", 0.75), ("rate", 0.25), ("wait", 1), "pause", "unpause"]],
    [["start", ("wait", 0.5), "stop", "start"], [("wait", 0.5), "pause", ("wait", 1.0), "unpause", "stop"]],
    [["start", ("wait", 0.5), "restart", ("wait", 0.5), "stop"], [("wait", 0.25), "pause", ("rate", 0.125), "unpause", "stop", ("wait", 1)]],
]
runs = 0
for pr in PROGS:
    for dur in (0.0, 0.5):
        for desc, o, res in sched.explore(lambda: World("plain", pr, 0.5, dur, False, True, True), rng, ctx.n(110, 2500),
                                          orders=(None, ["c1", "c0"], ["d", "c1", "c0"]), two=0.4, stall=(0.25, 1.0)):
            runs += 1
            judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TracePeriodic", None)]["traces"]
left = {"drop", "early", "over", "paused"}
for t in ts:
    if not left or not t["cfg"]["exact"] or t["cfg"]["clock"] != "kept" or not t["cfg"]["watched"]:
        continue
    b = [k for k, e in enumerate(t["ev"]) if e["op"] == "begin"]
    ov = [k for k, e in enumerate(t["ev"]) if e["op"] == "overrun"]
    if len(b) < 8:
        continue
    c = copy.deepcopy(t)
    ev = c["ev"]
    if "drop" in left:
        left.remove("drop")
        c["ev"] = [e for k, e in enumerate(ev) if k not in (b[2], b[2] + 1) and not (e["op"] == "finish" and b[2] < k < b[3])
                   and not (e["op"] == "overrun" and b[2] < k < b[3])]
    elif "early" in left and not any(k < b[4] for k in ov) and not any(e["op"] == "call" for e in ev[2:b[4]]):
        left.remove("early")
        ev[b[3]]["now"] -= 1
        ev[b[3]:b[3] + 1], at = [], ev[b[3]]
        k = max(i for i, e in enumerate(ev) if e.get("now", 0) <= at["now"] and i < b[3] + 1)
        ev.insert(k + 1, at)
    elif "over" in left and ov:
        left.remove("over")
        del ev[ov[0]]
    elif "paused" in left and any(e["op"] == "call" and e["what"] == "pause" and e["was"] == "running" for e in ev):
        left.remove("paused")
        k = next(k for k, e in enumerate(ev) if e["op"] == "call" and e["what"] == "pause" and e["was"] == "running")
        ev[k + 2:k + 2] = [{"op": "begin", "now": ev[k + 1]["now"]}, {"op": "finish", "now": ev[k + 1]["now"]}]
    else:
        continue
    ctx.add("TracePeriodic", c["ev"], c["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = sorted(left)
ctx.finish()

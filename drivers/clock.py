"""C17: the shared clock and its consumers, in virtual time."""
import copy
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.time_entity import TimeEntity
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
U = 65536
Q = 1 / 64
SCALES = ((1, 1), (2, 1), (1, 2), (4, 1), (3, 1), (0, 1), (1, 4), (5, 2))


def units(x):
    n = x * U
    return int(n) if n == int(n) else -99999999


def now():
    return units(time.time() - 1000.0)


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else T_KEEPER if n == "k" else 1


T_KEEPER = 4


def told(base):
    """A consumer that reports what it is told."""

    class Told(base):
        w = None

        def set_time(self, t):
            super().set_time(t)
            if self.w is not None:
                w, i = self.w, self.i
                sched.event(lambda: w.ev.append({"op": "told", "i": i, "v": units(t - 1000.0)}))
    return Told


class Keeper(TimeKeeper):
    w = None

    def iteration(self, *a, **k):
        if self.w is None:
            return super().iteration(*a, **k)
        w = self.w
        t = thread_no()
        w.log(op="call", t=t, what="iter")
        super().iteration(*a, **k)
        w.log(op="ret", t=t)


class World:
    def __init__(self, progs, scale=(1, 1), alone=True, rate=0.25):
        self.ev, self.progs, self.consumers = [], progs, []
        self.w = None
        args = {} if scale == (1, 1) else {"real_scalar": scale[0] / scale[1]}
        self.k = Keeper("k", rate, time_fn=self.clock, sleep_fn=self.nap, **args)
        self.k.w = self
        self.sleeping = {}
        self.cfg = {"threads": T_KEEPER, "n": scale[0], "d": scale[1], "alone": alone, "progs": str(progs)}
        self.ev.clear()

    def log(self, **e):
        if e["op"] == "call":
            e = dict({"x": 0, "n": 1, "d": 1}, **e)
        sched.event(lambda: self.ev.append(e))

    def clock(self):
        t = thread_no()
        sched.event(lambda: self.ev.append({"op": "read", "t": t, "now": now()}))
        return time.time()

    def nap(self, amount):
        time.sleep(amount)

    def make(self):
        kind = rng.randrange(5) if self.cfg["alone"] else 0
        i = len(self.consumers) + 1
        if kind == 1:
            o = told(TelemetryEnvironment)(64, metrics_rate=1.0, app_id_basis=0.5)
        elif kind == 2:
            o = told(Daemon)("d%d" % i, print, 0.5)
        elif kind == 3:
            o = told(QueueDaemon)("q%d" % i, None, print)
        elif kind == 4:
            # its construction adds it
            o = told(TelemetryDaemon)("t%d" % i, 64, 0.5, self.k, 1.0, app_id_basis=0.5)
        else:
            o = told(TimeEntity)()
        o.w, o.i = self, i
        return o, kind == 4

    def op(self, w):
        t = thread_no()
        k = self.k
        what = w[0]
        if what == "iter":
            k.iteration()
        elif what == "wait":
            time.sleep(w[1])
        elif what == "scale":
            self.log(op="call", t=t, what="scale", n=w[1], d=w[2])
            k.scale(w[1] / w[2])
            self.log(op="ret", t=t)
        elif what == "set":
            self.log(op="call", t=t, what="set", x=units(w[1]))
            k.set_time(1000.0 + w[1])
            self.log(op="ret", t=t)
        elif what == "dist":
            self.log(op="call", t=t, what="dist")
            k.set_slaves()
            self.log(op="ret", t=t)
        elif what == "add":
            self.log(op="call", t=t, what="add")
            o, done = self.make()
            self.consumers.append(o)
            if not done:
                k.add_slave(o)
            v = o.get_time()
            self.log(op="ret", t=t)
            self.log(op="added", got=units(v - 1000.0))
        elif what == "sleep":
            a = now()
            k.sleep(w[1])
            self.log(op="slept", amount=units(w[1]), real=now() - a)
        elif what == "run":
            k.start()
            time.sleep(w[1])
            k.stop()
        elif what == "get":
            self.log(op="get", got=units(k.get_time() - 1000.0))
        elif what == "times":
            self.log(op="times", got=[units(o.get_time() - 1000.0) for o in self.consumers])

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        if self.cfg["alone"]:
            for w in self.progs[0]:
                self.op(w)
                self.op(("get",))
                self.op(("times",))
        else:
            ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
            self.op(("add",))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.op(("get",))
            self.op(("times",))
            time.sleep(1)
            self.op(("iter",))
        self.op(("get",))
        self.op(("times",))


def judge(o, res, desc=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceClock", ev, dict(o.cfg, schedule=str(desc)))


def once(*a, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


def concrete(g):
    out = []
    cur = 1
    for w in g:
        if w == "wait":
            out.append(("wait", rng.randrange(1, 200) * Q))
        elif w == "scale":
            s = rng.choice(SCALES)
            out.append(("scale",) + s)
            if rng.random() < 0.2:
                out.append(("scale", -rng.randrange(1, 5), 1))
        elif w == "set":
            out.append(("set", rng.randrange(-100, 4000) * Q))
        elif w == "sleep":
            out.append(("sleep", rng.choice((0, rng.randrange(1, 200) * Q * 15))))
        elif w == "run":
            out.append(("run", rng.randrange(1, 100) * Q))
        else:
            out.append((w,))
    return out


WORDS = ("iter", "iter", "wait", "wait", "scale", "set", "dist", "add", "sleep", "run")
for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.01:
        continue
    once([concrete(g)], rng.choice(SCALES))
for _ in range(ctx.n(300, 5000)):
    once([concrete([rng.choice(WORDS) for _ in range(rng.randrange(4, 25))])], rng.choice(SCALES))

W = ("wait", 0.5)
PROGS = [
    [[("iter",), W, ("iter",), ("get",), W, ("iter",), ("get",)], [("iter",), ("get",), W, ("iter",), ("add",), ("iter",), ("get",)]],
    [[("iter",), W, ("scale", 2, 1), ("iter",), ("get",)], [W, ("iter",), ("add",), ("get",), ("dist",), ("scale", 1, 2), ("get",)]],
    [[("iter",), W, ("set", 40.0), ("get",), ("iter",), ("get",)], [W, ("iter",), ("get",), ("dist",), ("add",)]],
    [[("add",), ("add",), W, ("iter",)], [("iter",), ("add",), W, ("add",), ("iter",)]],
    [[("add",), W, ("iter",), W, ("add",)], [W, ("add",), W, ("iter",)]],
]
runs = 0
for pr in PROGS:
    for desc, o, res in sched.explore(lambda: World(pr, (1, 1), False), rng, ctx.n(150, 4000), orders=(None, ["c1", "c0"]), two=0.4, stall=(0.25, 1.0)):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceClock", None)]["traces"]
left = {"get", "times", "slept"}
for t in ts:
    for w in sorted(left):
        idx = [k for k, e in enumerate(t["ev"]) if e["op"] == w and (w != "times" or (e["got"] and k > 5 and t["ev"][k - 2]["op"] == "ret" and t["ev"][k - 4]["op"] in ("read", "told")))]
        if not t["cfg"]["alone"] or not idx:
            continue
        b = copy.deepcopy(t)
        e = b["ev"][idx[-1]]
        if w == "times":
            e["got"][-1] += 1
        elif w == "get":
            e["got"] += 1
        else:
            e["real"] += 1
        left.remove(w)
        ctx.add("TraceClock", b["ev"], b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = sorted(left)
ctx.finish()

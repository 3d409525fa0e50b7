"""C26: queue-fed daemons: every element once, in order, and nothing left when stopped."""
import copy
import queue
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.metered_queue import create
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.queue import QueueDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


class World:
    def __init__(self, progs, kind="plain", cap=0, work=0.0, final=True):
        self.ev, self.progs, self.work, self.final = [], progs, work, final
        env = TelemetryEnvironment(128, metrics_rate=1.0, app_id_basis=0.5) if kind != "plain" else None
        self.q = create("in", env, cap) if kind == "metered" else queue.Queue(cap)
        k = TimeKeeper("k", 0.5) if kind == "metered" else None
        self.d = QueueDaemon("d", self.q, self.handle, env, k)
        self.n = 0
        self.cfg = {"threads": 1 + len(progs), "kind": kind, "cap": cap, "progs": progs}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def handle(self, x):
        self.log(op="begin", x=x)
        if self.work:
            time.sleep(self.work)
        self.log(op="done", x=x)

    def op(self, w):
        t = thread_no()
        if w == "put":
            self.n += 1
            x = self.n
            self.log(op="put", x=x)
            self.q.put(x)
            self.log(op="putdone", x=x)
        elif w == "try":
            self.n += 1
            x = self.n
            self.log(op="put", x=x)
            self.q.put(x, True, 60)
            self.log(op="putdone", x=x)
        elif w == "wait":
            time.sleep(1.0)
        elif w == "await":
            self.log(op="call", t=t, what="await")
            self.d.await_empty()
            self.log(op="ret", t=t, ok=True)
        else:
            self.log(op="call", t=t, what=w)
            ok = getattr(self.d, w)()
            self.log(op="ret", t=t, ok=bool(ok))

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        time.sleep(1)
        if self.final:
            for _ in range(3):
                if self.d.get_state() == DaemonState.RUNNING:
                    self.op("stop")
                elif self.d.get_state() != DaemonState.IDLE:
                    time.sleep(1)
            self.op("start")
            time.sleep(0.5)
            self.op("await")
            self.op("stop")
            self.log(op="drained")


def judge(o, res, desc=None, ident=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceQueueDaemon", ev, dict(o.cfg, schedule=str(desc)), ident=ident)


def once(*a, ident=None, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main), ident=ident)


def sane(prog):
    """Waiting for an empty queue only ends if somebody empties it."""
    out, on = [], False
    for w in prog:
        if w == "await" and not on:
            continue
        on = True if w == "start" else False if w in ("stop", "restart") else on
        out.append(w)
    return out


for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.06:
        continue
    once([sane(g)], rng.choice(("plain", "metered", "env")), work=rng.choice((0, 0.125)))
for _ in range(ctx.n(80, 1000)):
    progs = [sane(["start"] + [rng.choice(("put", "put", "put", "start", "stop", "restart", "wait", "await")) for _ in range(20)])]
    for _ in range(rng.randrange(0, 3)):
        progs.append([rng.choice(("put", "put", "wait")) for _ in range(12)])
    once(progs, rng.choice(("plain", "metered", "env")), work=rng.choice((0, 0.03125)))
# a bounded queue that is full when the stop is requested
for cap in (1, 2, 5):
    once([["start"] + ["put"] * 12 + ["stop"], ["put"] * 4], "plain", cap, 0.03125)
    once([["start"] + ["put"] * 12 + ["stop", "start", "put", "stop"], ["try"] * 4], "metered", cap, 0.03125)
once([["put"] * 300 + ["start", "stop"]], "plain")

PROGS = [
    [["start", "put", "stop"], ["put", "put"]],
    [["put", "start", "wait", "put", "stop", "put", "start", "stop"], ["put", "put", "wait", "put"]],
    [["start", "put", "wait", "stop"], ["put", "wait", "stop", "start"]],
    [["put", "start", "wait", "restart"], ["put", "wait", "restart", "put", "stop"]],
]
runs = 0
for k, pr in enumerate(PROGS):
    for kind, cap in (("plain", 0), ("metered", 2 if k == 0 else 0)):
        for desc, o, res in sched.explore(lambda: World(pr, kind, cap), rng, ctx.n(70, 2000), orders=(None, ["c1", "c0"], ["d", "c1", "c0"]),
                                          two=0.4, stall=(0.5, 1.5)):
            runs += 1
            judge(o, res, desc)
ctx.stats["schedules"] = runs

# more work in the queue than fits into the time a stop waits (see KNOWN_FINDINGS.txt)
once([["start", "put", "put", "wait", "put", "put", "put", "stop", "wait", "wait", "wait"]], "plain", 0, 1.0, ident="stop-timeout", final=False)

ts = ctx.batches[("TraceQueueDaemon", None)]["traces"]
for what in ("drop", "swap", "late"):
    for t in ts:
        if t.get("id"):
            continue
        b = copy.deepcopy(t)
        idx = [k for k, e in enumerate(b["ev"]) if e["op"] == "begin"]
        if len(idx) < 3 or len(b["cfg"]["progs"]) > 1:
            continue
        if what == "drop":
            x = b["ev"][idx[0]]["x"]
            b["ev"] = [e for e in b["ev"] if not (e["op"] in ("begin", "done") and e["x"] == x)]
        elif what == "swap":
            b["ev"][idx[0]]["x"], b["ev"][idx[1]]["x"] = b["ev"][idx[1]]["x"], b["ev"][idx[0]]["x"]
        else:
            x = b["ev"][idx[-1]]["x"]
            mv = [e for e in b["ev"] if e["op"] in ("begin", "done") and e["x"] == x]
            b["ev"] = [e for e in b["ev"][:-2] if e not in mv] + mv + b["ev"][-2:]
        ctx.add("TraceQueueDaemon", b["ev"], b["cfg"], canary=True)
        break
ctx.finish()

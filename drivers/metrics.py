"""C21: metered queues and every other published counter."""
import copy
import json
import os
import subprocess
import sys
import threading
import time
from queue import Empty, Full
from common import Ctx, end, describe, guard
import sched
sched.install()

from vtelem.classes.metered_queue import MeteredQueue, create
from vtelem.classes.user_enum import UserEnum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng

# the drivers of other parts, whose traces contain counters; all at the same time as this one
PARTS = ["daemon", "writer", "command", "statemachine", "periodic", "emission"]
procs = []
for part in PARTS:
    out = os.path.join(ctx.out, "part_" + part)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "gen.json"), "w") as f:
        json.dump({"gen": ctx.gen.get(part, [])}, f)
    procs.append((part, out, subprocess.Popen(
        [sys.executable, "-W", "ignore", os.path.join(os.path.dirname(__file__), part + ".py"), "--prop", "C21", "--tier", ctx.tier,
         "--seed", str(ctx.seed), "--out", out], env=dict(os.environ, BUDGET_SCALE="0.25"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


class World:
    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.last()


class QWorld(World):
    """Threads that use one metered queue."""

    def __init__(self, progs, bound=2, how=0):
        self.ev, self.progs, self.n = [], progs, 0
        self.env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5, init_time=1.0)
        self.q = MeteredQueue("q", self.env, bound) if how == 0 else create("q", self.env, bound)
        self.cfg = {"threads": 1 + len(progs), "bound": bound, "progs": str(progs)}

    def metric(self, w):
        return int(self.env.get_metric("q_queue." + {"enqueued": "total_enqueued", "dequeued": "total_dequeued"}.get(w, w)))

    def op(self, w):
        t = thread_no()
        ok, v = True, 0
        if w == "sleep":
            time.sleep(0.5)
            return
        if w in ("elements", "enqueued", "dequeued"):
            self.log(op="call", t=t, what=w, v=0, waits=False)
            v = self.metric(w)
        elif w.startswith("put"):
            self.n += 1
            x = self.n
            self.log(op="call", t=t, what="put", v=x, waits=w == "put")
            try:
                if w == "putnow":
                    self.q.put_nowait(x)
                elif w == "putfor":
                    self.q.put(x, timeout=0.25)
                else:
                    self.q.put(x)
            except Full:
                ok = False
        else:
            self.log(op="call", t=t, what="get", v=0, waits=w == "get")
            try:
                v = self.q.get_nowait() if w == "getnow" else self.q.get(timeout=0.25) if w == "getfor" else self.q.get()
            except Empty:
                ok = False
        self.log(op="ret", t=t, ok=ok, v=v)

    def counts(self):
        self.log(op="counts", elements=self.metric("elements"), enqueued=self.metric("enqueued"), dequeued=self.metric("dequeued"), size=self.q.qsize())

    def last(self):
        self.counts()
        while self.q.qsize():
            self.op("getnow")
        self.counts()
        self.op("putnow")
        self.counts()


NAMES = ("one", "two", "three", "four", "five", "six")


class EnvWorld(World):
    """Threads that use one environment."""

    def __init__(self, progs, late=False):
        self.ev, self.progs, self.chans, self.late = [], progs, [], late
        self.env = TelemetryEnvironment(64, metrics_rate=None if late else 0.5, app_id_basis=0.5, init_time=1.0)
        self.real = {"dispatch_count": 0, "events_captured": 0, "emits_captured": 0}
        self.frames = 0
        self.cfg = {"threads": 1 + len(progs), "bound": 256, "progs": str(progs)}
        for k in range(2):
            self.chans.append(self.env.add_channel("base%d" % k, Primitive.UINT8, 0.25, True))
        self.wait = 0

    def take(self, timeout):
        f = self.env.frame_queue.get(True, timeout)
        raw = f.raw
        obj = self.env.decode_frame(raw[0], raw[1]).body
        ev, em = len(obj.get("events", ())), len(obj.get("channels", ()))

        def add():
            self.frames += 1
            self.real["events_captured"] += ev
            self.real["emits_captured"] += em
        sched.event(add)

    def op(self, w):
        what = w[0]
        if what == "chan":
            self.env.add_channel(w[1], Primitive.INT16, 0.5, w[1] > "n", (0, 1.0) if w[1] > "s" else None)
        elif what == "enum":
            self.env.add_enum(UserEnum({"name": w[1], "mappings": {0: "a", 1: "b"}, "default": None}))
        elif what == "enumchan":
            self.env.add_enum_channel(w[1], w[2], 0.5, True, ("data" if w[2] == "frame_type" else "b", 1.0))
        elif what == "set":
            self.env.set_now(self.chans[w[1]], w[2])
        elif what == "tick":
            self.env.advance_time(w[1])
        elif what == "dispatch":
            def mark():
                self.real["dispatch_count"] += 1
            sched.event(mark)
            self.env.dispatch_now(should_log=False)
        elif what == "take":
            try:
                self.take(0.5)
            except Empty:
                pass
        elif what == "metric":
            self.env.add_metric(w[1], Primitive.UINT16, False, (0, 1.0))
        elif what == "queue":
            MeteredQueue(w[1], self.env, 4)
        elif what == "add":
            self.env.metric_add(w[1], w[2])
        elif what == "later":
            # the environment starts to have metrics
            self.env.register_base_metrics(0.5)

    def last(self):
        env = self.env
        qsize = env.frame_queue.qsize()
        names = [n for n in ("channel_count", "enum_count", "type_count", "dispatch_count", "frame_queue.elements", "frame_queue.total_enqueued",
                             "frame_queue.total_dequeued", "tally") if env.has_metric(n)]
        has = {n: int(env.get_metric(n)) for n in names}
        real = {"channel_count": env.channel_registry.count(), "enum_count": env.enum_registry.count(), "type_count": env.type_registry.count(),
                "dispatch_count": self.real["dispatch_count"], "frame_queue.elements": qsize, "frame_queue.total_enqueued": self.frames + qsize,
                "frame_queue.total_dequeued": self.frames, "tally": sum(w[2] for p in self.progs for w in p if w[0] == "add")}
        self.log(op="env", has=has, real={n: real[n] for n in names})
        ev = em = None
        if env.metrics is not None:
            ev, em = int(env.get_metric("events_captured")), int(env.get_metric("emits_captured"))
        while env.frame_queue.qsize():
            self.take(0.5)
        if self.late:
            return
        names = ["frame_queue.elements", "frame_queue.total_enqueued", "frame_queue.total_dequeued"]
        has = {n: int(env.get_metric(n)) for n in names}
        has["events_captured"], has["emits_captured"] = ev, em
        self.log(op="env", has=has, real={"frame_queue.elements": 0, "frame_queue.total_enqueued": self.frames, "frame_queue.total_dequeued": self.frames,
                                          "events_captured": self.real["events_captured"], "emits_captured": self.real["emits_captured"]})


def judge(o, res, desc=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceMetrics", ev, dict(o.cfg, schedule=str(desc)))


def once(o):
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


# every short sequence of operations, and longer ones
for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.08:
        continue
    prog = []
    for e in g:
        w = {"put": "put", "now": "putnow", "get": "get", "getnow": "getnow"}[e["op"]]
        prog += [w if e["ok"] or rng.random() < 0.7 else w[:3] + "for", rng.choice(("elements", "enqueued", "dequeued"))]
    once(QWorld([prog], 2, rng.randrange(2)))
QOPS = ("put", "putnow", "putfor", "get", "getnow", "getfor", "elements", "enqueued", "dequeued", "sleep")
for _ in range(ctx.n(60, 1500)):
    # every element put without a limit of time can be taken, and the other way round
    progs = [[rng.choice(QOPS[1:3] + QOPS[4:]) for _ in range(rng.randrange(2, 15))] for _ in range(3)]
    once(QWorld(progs, rng.choice((1, 2, 5)), rng.randrange(2)))


def eop(k, names):
    w = rng.choice(("chan", "enum", "enumchan", "set", "set", "tick", "dispatch", "dispatch", "take", "add", "queue"))
    if w == "chan":
        return (w, "%sc%d" % (rng.choice("amsz"), k))
    if w == "enum":
        names.append("e%d" % k)
        return (w, names[-1])
    if w == "enumchan":
        return (w, "ec%d" % k, rng.choice(names))
    if w == "set":
        return (w, rng.randrange(2), rng.randrange(256))
    if w == "tick":
        return (w, rng.choice((0.125, 0.25, 1.0)))
    if w == "add":
        return (w, "tally", rng.randrange(1, 9))
    if w == "queue":
        return (w, "q%d" % k)
    return (w,)


for _ in range(ctx.n(60, 1500)):
    names = ["frame_type"]
    once(EnvWorld([[("metric", "tally")] + [eop(k, names) for k in range(rng.randrange(5, 40))]]))

QPROGS = [
    [["put", "putnow", "elements"], ["get", "getfor"]],
    [["put", "put", "put"], ["get", "get"], ["elements", "enqueued", "dequeued"]],
    [["put", "put", "putnow", "get"], ["putfor", "getnow", "elements"]],
    [["getfor", "putfor", "getfor"], ["getfor", "putfor", "putnow", "putnow"], ["enqueued", "elements", "dequeued"]],
]
D, TK = ("dispatch",), ("take",)
EPROGS = [
    [[("chan", "a"), ("set", 0, 5), D], [("chan", "z"), ("tick", 1.0), D, TK]],
    [[("enum", "e"), ("chan", "b")], [("enum", "f"), ("enumchan", "c", "frame_type"), D]],
    [[("set", 0, 5), D, ("tick", 0.5), D], [TK, TK, TK], [("set", 1, 5), ("set", 1, 6), ("chan", "z")]],
    [[("metric", "tally"), ("add", "tally", 3), ("queue", "q")], [("metric", "tally"), ("add", "tally", 5), ("queue", "q")]],
]
LATE = [[("later",), ("chan", "a")], [("chan", "b"), ("chan", "c")]]
runs = 0
for k, pr in enumerate(QPROGS):
    for desc, o, res in sched.explore(lambda: QWorld(pr, 2 if k else 1), rng, ctx.n(160, 6000), orders=(None, ["c1", "c0"], ["c2", "c1", "c0"]), two=0.5):
        runs += 1
        judge(o, res, desc)
for k, pr in enumerate(EPROGS + [LATE]):
    for desc, o, res in sched.explore(lambda: EnvWorld(pr, pr is LATE), rng, ctx.n(130, 5000), orders=(None, ["c1", "c0"], ["c2", "c1", "c0"]), two=0.4):
        runs += 1
        judge(o, res, desc)

ts = ctx.batches[("TraceMetrics", None)]["traces"]
left = ["order", "twice", "low", "high", "size", "env", "range", "refused"]
for t in ts:
    if not left:
        break
    b = copy.deepcopy(t)
    ev = b["ev"]
    w = left[-1]
    cnt = [k for k, e in enumerate(ev) if e["op"] == "counts"]
    gets = [k for k, e in enumerate(ev) if e["op"] == "ret" and e["ok"] and e["v"] > 0
            and [x for x in ev[:k] if x["op"] == "call" and x["t"] == e["t"]][-1]["what"] == "get"]
    env = [k for k, e in enumerate(ev) if e["op"] == "env"]
    reads = [k for k, e in enumerate(ev) if e["op"] == "ret"
             and [x for x in ev[:k] if x["op"] == "call" and x["t"] == e["t"]][-1]["what"] in ("enqueued", "dequeued")]
    if w == "env":
        if not env:
            continue
        e = ev[env[-1]]
        e["has"][rng.choice(sorted(e["has"]))] += rng.choice((-1, 1))
    elif w == "range":
        if not reads:
            continue
        ev[reads[-1]]["v"] += rng.choice((-20, 20))
    elif w in ("low", "high", "size"):
        if not cnt:
            continue
        f = {"low": "enqueued", "high": "dequeued", "size": "elements"}[w]
        ev[cnt[0]][f] += {"low": -1}.get(w, 1)
    elif w == "refused":
        # an element that was put is reported as refused
        puts = [k for k, e in enumerate(ev) if e["op"] == "ret" and e["ok"]
                and [x for x in ev[:k] if x["op"] == "call" and x["t"] == e["t"]][-1]["what"] == "put"]
        if not puts:
            continue
        ev[puts[-1]]["ok"] = False
    elif len(gets) < 2:
        continue
    elif w == "order":
        a, c = gets[0], gets[-1]
        ev[a]["v"], ev[c]["v"] = ev[c]["v"], ev[a]["v"]
        if len(t["cfg"]["progs"].split("]")) > 3:
            continue
    else:
        ev[gets[-1]]["v"] = ev[gets[0]]["v"]
    left.pop()
    ctx.add("TraceMetrics", ev, b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left

for part, out, p in procs:
    text, _ = p.communicate()
    if p.returncode:
        print(text.decode("utf-8", "replace"))
        sys.exit(p.returncode)
    with open(os.path.join(out, "traces.json")) as f:
        res = json.load(f)
    runs += res["stats"].get("schedules", 0)
    ctx.stats["part_" + part] = sum(len(b["traces"]) for b in res["batches"])
    for b in res["batches"]:
        # findings of other properties and falsified traces of theirs are not repeated here
        b["traces"] = [t for t in b["traces"] if not t.get("id") and not t.get("canary")]
        if b["traces"]:
            ctx.batches[(b["spec"], b.get("cfg"), part)] = b
ctx.stats["schedules"] = runs
ctx.finish()

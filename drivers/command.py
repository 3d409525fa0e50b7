"""C13: the command queue (and its counters for C21)."""
import copy
import json
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.daemon import DaemonState
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
ODD = [None, 5, "ok", "", [], ["command"], {}, {"data": {"id": 1}}, {"command": None}, {"command": 5}, {"command": ["ok"]},
       {"command": {"ok": 1}}, {"command": True}, {"Command": "ok"}, (), {"command": ("ok",)}, 1.5, b"ok", {"command": b"ok"}]
BADDATA = [None, 7, "id", [], [["id", 1]], False, {}, 0.5]
BADRESULT = [None, 5, (True,), (1, 2, 3), "a", [], True]
RAISE = [RuntimeError("no"), KeyError("id"), ValueError(""), AssertionError(), OSError(5, "io"), StopIteration(), TypeError("x")]
NAMES = ["ok", "fail", "raise", "two", "mixed", "slow", "nested", "grow", "bad", "help", "again", "u1", "u2", "u3", "u4", "u5", "u6", "new1", "new2", "new3"]


def canon(d):
    return ",".join(sorted("%r:%r" % kv for kv in d.items()))


class World:
    def __init__(self, progs, metrics=False, final=True):
        self.ev, self.progs, self.final = [], progs, final
        self.env = TelemetryEnvironment(128, metrics_rate=1.0, app_id_basis=0.5) if metrics else None
        self.d = CommandQueueDaemon("cmd", self.env, TimeKeeper("k", 0.5) if metrics else None)
        self.n, self.h, self.u, self.g, self.oks, self.runs = 0, 0, 0, 0, 0, 0
        self.odd = rng.randrange(1000)
        self.cfg = {"progs": progs, "names": NAMES}
        self.ev.append({"op": "reg0", "h": 1000, "name": "help", "kind": "help", "msg": "", "cb": False})
        self.ev.append({"op": "reg1", "h": 1000})
        self.register("ok", "ok")
        self.register("fail", "fail", cb=True)
        self.register("raise", "raise", cb=True)
        self.register("two", "ok")
        self.register("two", "fail")
        self.register("mixed", "raise")
        self.register("mixed", "ok", cb=True)
        self.register("mixed", "bad")
        self.register("mixed", "fail", cb=True)
        self.register("slow", "ok", wait=0.75)
        self.register("slow", "fail", wait=1.75)
        self.register("bad", "bad", cb=True)

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def register(self, name, kind, cb=False, wait=0.0, only=0, extra=None):
        self.h += 1
        h = self.h
        msg = "h%d" % h

        def handler(data):
            c = only or data["id"]
            self.log(op="run", h=h, c=c, data=canon(data), none=data.copy()["missing"] is None)
            self.odd += 1
            if wait:
                time.sleep(wait)
            if extra:
                extra()
            self.runs += 1
            self.oks += kind == "ok"
            self.log(op="ended", h=h, c=c)
            if kind == "raise":
                raise RAISE[self.odd % len(RAISE)]
            if kind == "bad":
                return BADRESULT[self.odd % len(BADRESULT)]
            return kind == "ok", "%s:%d" % (msg, c)

        def report(ok, message):
            self.log(op="result", h=h, ok=bool(ok), msg=str(message))

        self.log(op="reg0", h=h, name=name, kind="raise" if kind == "bad" else kind, msg=msg, cb=cb)
        self.d.register_consumer(name, handler, report if cb else None, "usage of " + name)
        self.log(op="reg1", h=h)

    def send(self, elem, c, name, want="", how="cb", about=""):
        self.log(op="submit", c=c, name=name, want=want, cb=how == "cb", sync=how == "exec", about=about)
        if how == "exec":
            t = time.monotonic()
            ok, msg = self.d.execute(elem)
            self.log(op="ret", c=c, ok=bool(ok), msg=str(msg), late=time.monotonic() - t >= 2, keys=self.keys(name, ok, msg))
            return

        def answer(ok, msg):
            self.log(op="answer", c=c, ok=bool(ok), msg=str(msg), keys=self.keys(name, ok, msg))
        self.d.enqueue(elem, answer if how == "cb" else None)
        self.log(op="submitted", c=c)

    def keys(self, name, ok, msg):
        if name != "help" or not ok:
            return []
        return [{"k": k, "n": len(v)} for k, v in json.loads(msg).items()]

    def next(self):
        def f():
            self.n += 1
            return self.n
        out = []
        sched.event(lambda: out.append(f()))
        return out[0]

    def op(self, w):
        how = "cb"
        if "/" in w:
            how, w = w.split("/")
        if w == "start":
            self.d.start()
        elif w == "stop":
            self.d.stop()
        elif w == "wait":
            time.sleep(1.0)
        elif w == "register":
            self.g += 1
            self.register("grow", rng.choice(("ok", "fail", "raise")), cb=True)
            if self.g <= 3:
                self.register("new%d" % self.g, "ok")
        else:
            c = self.next()
            if w in ("nameless", "odd"):
                self.send(ODD[(self.odd + c) % len(ODD)], c, "", how=how)
            elif w == "unknown":
                self.send({"command": ("nope", "OK", "ok ", "", "help ")[c % 5], "data": {"id": c}}, c, "", how=how)
            elif w == "help":
                self.send([{"command": "help"}, {"command": "help", "data": {"indent": True}}, {"command": "help", "data": {"command": None}}][c % 3],
                          c, "help", how=how)
            elif w == "helpone":
                name = ("ok", "two", "mixed", "nope", "grow", "new1", "help", 5, ["ok"], {"a": 1})[(c + self.odd) % 10]
                self.send({"command": "help", "data": {"command": name, "indent": 1}}, c, "help", how=how,
                          about="?" if not isinstance(name, str) else name)
            elif w == "dataless":
                if self.u >= 6:
                    return
                self.u += 1
                u = "u%d" % self.u
                self.register(u, "ok", cb=True, only=c)
                bad = BADDATA[(self.odd + c) % len(BADDATA)]
                e = {"command": u, "data": bad} if c % 3 else {"command": u}
                self.send(e, c, u, "", how)
            elif w == "again":
                # a handler that submits and registers
                if not self.g:
                    self.g += 1
                    self.register("again", "ok", extra=lambda: (self.op("none/ok"), self.op("register")))
                self.send({"command": "again", "data": {"id": c}}, c, "again", canon({"id": c}), how)
            elif w == "nested":
                self.h += 0
                self.register("nested", "ok", extra=lambda: self.op("exec/ok"))
                self.send({"command": "nested", "data": {"id": c}}, c, "nested", canon({"id": c}), how)
            else:
                data = {"id": c}
                for k in range(c % 3):
                    data[("value", "x", 5, None)[k + c % 2]] = (None, [1, {"y": 2}], "s")[k]
                self.send({"command": w, "data": data, **({"id": 5} if c % 2 else {})}, c, w, canon(data), how)

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.final:
            for _ in range(60):
                if self.d.get_state() == DaemonState.IDLE:
                    self.d.start()
                time.sleep(2)
                if self.d.queue.unfinished_tasks == 0:
                    break
            self.d.stop()
            self.log(op="drained")
            if self.env is not None and ctx.prop == "C21":
                m = {k: self.count(k) for k in ("command", "rejected", "success", "failure")}
                self.log(op="counts", runs=self.runs, oks=self.oks, **m)

    def count(self, k):
        return int(self.env.get_metric("cmd.%s_count" % k))


def judge(o, res, desc=None, ident=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceCommand", ev, dict(o.cfg, schedule=str(desc)), ident=ident)


def once(*a, ident=None, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main), ident=ident)


C21 = ctx.prop == "C21"
MAP = {"execbad": "exec/mixed", "exec": "exec/two", "silent": "none/mixed"}
for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.12:
        continue
    pr = [MAP.get(w, w) for w in g]
    once([rng.choice((["start"] + pr, [w for w in pr if "exec" not in w] + ["start"] + pr))], C21 or rng.random() < 0.3)
WORDS = ["ok", "fail", "raise", "two", "mixed", "slow", "bad", "unknown", "nameless", "odd", "help", "helpone", "grow", "register", "dataless",
         "again", "nested", "new1"]
HOW = ["", "", "none/", "exec/", "exec/"]
for _ in range(ctx.n(120, 2000)):
    def prog(k):
        return [rng.choice(HOW) + w if w != "register" else w for w in rng.choices(WORDS, k=k)]
    progs = [["start"] + prog(12) + rng.choice(([], ["stop", "start"] + prog(3)))]
    for _ in range(rng.randrange(0, 3)):
        progs.append(prog(8))
    once(progs, C21 or rng.random() < 0.4)
once([["none/ok"] * 250 + ["start"] + ["exec/ok"] * 3], True)

PROGS = [
    [["start", "exec/two", "exec/two"], ["exec/two", "ok"]],
    [["start", "two", "exec/fail"], ["exec/ok", "odd", "raise", "exec/two"]],
    [["start", "help", "exec/grow", "exec/help"], ["register", "grow", "register"]],
    [["start", "exec/slow", "ok"], ["exec/two", "stop"]],
    [["help"] * 4 + ["start"], ["register", "register", "register"]],
]
runs = 0
for k, pr in enumerate(PROGS):
    for desc, o, res in sched.explore(lambda: World(pr, C21 or k == 1), rng, ctx.n(70, 2000), orders=(None, ["c1", "c0"], ["c0", "cmd", "c1"]) if k == 4 else (None, ["c1", "c0"], ["cmd", "c1", "c0"]),
                                      two=0.4, stall=(0.5, 2.5)):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

# the checker must reject: a lost answer, an answer given twice, swapped outcomes, an order violation, a foreign outcome
ts = ctx.batches[("TraceCommand", None)]["traces"]
missing = []
for what in ("lost", "twice", "swap", "foreign", "skipped"):
    for t in ts:
        b = copy.deepcopy(t)
        ev = b["ev"]
        ans = [k for k, e in enumerate(ev) if e["op"] == "answer" and e["msg"].startswith("h")]
        ret = [k for k, e in enumerate(ev) if e["op"] == "ret" and e["msg"].startswith("h")]
        run = [k for k, e in enumerate(ev) if e["op"] == "run"]
        if len(ans) < 2 or len(ret) < 2 or len(run) < 4 or any(e["op"] in ("hang", "crash") for e in ev):
            continue
        if what == "lost":
            del ev[ans[0]]
        elif what == "twice":
            ev.insert(ans[0], ev[ans[0]])
        elif what == "swap":
            ev[ans[0]]["ok"] = not ev[ans[0]]["ok"]
        elif what == "foreign":
            ev[ret[0]]["ok"], ev[ret[0]]["msg"] = True, "h1:999"
        else:
            c, h = ev[run[1]]["c"], ev[run[1]]["h"]
            b["ev"] = [e for e in ev if not (e["op"] in ("run", "ended", "answer") and e.get("c") == c)]
        ctx.add("TraceCommand", b["ev"], b["cfg"], canary=True)
        break
    else:
        missing.append(what)
ctx.stats["canary_kinds_missing"] = missing
ctx.finish()

"""C18: state machines."""
import copy
import threading
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
NAMES = ("x", "y", "z")


class Failure(Exception):
    """A callback fails."""


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


def view(d):
    return {"a": -1 if d["a"] is None else d["a"], "b": -1 if d["b"] is None else d["b"]}


class World:
    """progs: per thread, a list of runs (to, verdict, new data) and data accesses."""

    def __init__(self, progs, env=True, silent=(), initial=0, start=None, order=None, moving=True):
        self.ev, self.progs = [], progs
        self.env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5) if env else None
        self.plan, self.moving = {}, moving
        self.ready = False
        states = [self.state(n, silent) for n in (order or NAMES)]
        first = states[initial]
        self.data0 = {"a": -1, "b": -1}
        data = None
        if start:
            data = dict(start)
            self.data0.update(start)
        self.m = StateMachine("m", states, first if initial or rng.random() < 0.5 else None, data, self.env)
        self.ready = True
        self.cfg = {"states": list(NAMES), "calls": {n: {f: 1 for f in ("step", "leave", "enter") if (n, f) not in silent} or {"none": 1} for n in NAMES},
                    "threads": 1 + len(progs), "initial": first.name, "data": self.data0, "progs": str(progs), "env": env}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def state(self, name, silent):
        def step(data):
            t = thread_no()
            to, _, _ = self.plan[t]
            pre = view(data)
            if self.moving:
                data["a"] = (pre["a"] + 1) % 50
            raised = to == "raise"
            self.log(op="step", t=t, s=name, data=pre, post=view(data), to="" if raised else to, raised=raised)
            if raised:
                raise Failure()
            return to

        def leave(to, data):
            t = thread_no()
            _, v, _ = self.plan[t]
            pre = view(data)
            if self.moving:
                data["b"] = (pre["b"] + 1) % 50
            self.log(op="leave", t=t, s=name, to=to, data=pre, post=view(data), ok=v != "noleave", raised=v == "raiseleave")
            if v == "raiseleave":
                raise Failure()
            return v != "noleave"

        def enter(prev, data):
            if not self.ready:
                self.entered = (name, prev)
                return True
            t = thread_no()
            _, v, _ = self.plan[t]
            pre = view(data)
            self.log(op="enter", t=t, s=name, **{"from": prev}, data=pre, post=view(data), ok=v != "noenter", raised=v == "raiseenter")
            if v == "raiseenter":
                raise Failure()
            return v != "noenter"
        f = {"step": step, "leave": leave, "enter": enter}
        f = {k: None if (name, k) in silent else v for k, v in f.items()}
        return State(name, f["step"], f["enter"], f["leave"], self.env)

    def op(self, w):
        t = thread_no()
        if w[0] == "data":
            with self.m.data() as d:
                pre = view(d)
                d["b"] = w[1]
                self.log(op="hold", t=t, data=pre, post=view(d))
                self.log(op="release", t=t)
            return
        self.plan[t] = w
        new = w[2]
        self.log(op="call", t=t, new={"a": new.get("a", -1), "b": new.get("b", -1)} if new else {"a": -1, "b": -1})
        a = b = ""
        err = False
        try:
            r = self.m.run(dict(new)) if new is not None else self.m.run()
            a, b = r[0].name, r[1].name
        except (Failure, AssertionError, KeyError):
            err = True
        self.log(op="ret", t=t, a=a, b=b, err=err)

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def final(self):
        with self.m.data() as d:
            data = view(d)
        e = {"op": "final", "cur": self.m.current_state, "data": data, "metrics": self.env is not None}
        val = self.value if self.env is not None else lambda n: 0
        for k in ("iterations", "transitions", "enter_fails", "exit_fails"):
            e[k] = val("machine.m." + k)
        e["st"] = {n: {k: val("state.%s.%s" % (n, k)) for k in ("iterations", "enter_attempts", "enter_successes", "exit_attempts", "exit_successes")} for n in NAMES}
        self.ev.append(e)

    def value(self, name):
        return int(self.env.get_value(self.env.channel_registry.get_id(name)))

    def main(self, s):
        if len(self.progs) == 1:
            self.body(0)
        else:
            ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.op(("x", "yes", {"a": 7}))
            self.op(("y", "yes", None))
        sched.event(self.final)


def judge(o, res, desc=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceStateMachine", ev, dict(o.cfg, schedule=str(desc)))


def once(*a, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


def new():
    k = rng.randrange(5)
    return None if k == 0 else {} if k == 1 else {"a": rng.randrange(50)} if k == 2 else {"b": rng.randrange(50)} if k == 3 else {"a": rng.randrange(50), "b": rng.randrange(50)}


def some_silent():
    return tuple((n, f) for n in NAMES for f in ("step", "leave", "enter") if rng.random() < 0.25)


for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.12:
        continue
    pr = [(w[0], w[1], new()) for w in g]
    if rng.random() < 0.3:
        pr.insert(rng.randrange(len(pr)), ("data", rng.randrange(50)))
    once([pr + [(rng.choice(NAMES), "yes", None)]], rng.random() < 0.7, some_silent() if rng.random() < 0.4 else (), rng.randrange(3),
         rng.choice((None, {"a": 3}, {"a": 3, "b": 4})), order=rng.sample(NAMES, 3), moving=rng.random() < 0.6)
for _ in range(ctx.n(150, 3000)):
    pr = []
    for _ in range(rng.randrange(5, 40)):
        if rng.random() < 0.1:
            pr.append(("data", rng.randrange(50)))
        else:
            pr.append((rng.choice(NAMES + NAMES + ("nowhere", "raise")), rng.choice(("yes", "yes", "yes", "noleave", "noenter", "raiseleave", "raiseenter")), new()))
    once([pr], rng.random() < 0.7, some_silent() if rng.random() < 0.4 else (), rng.randrange(3), rng.choice((None, {"b": 9})))

PROGS = [
    [[("y", "yes", {"a": 5}), ("z", "yes", None)], [("z", "yes", {"a": 9}), ("x", "noenter", None)]],
    [[("y", "noleave", None), ("y", "raise", None), ("y", "yes", None)], [("z", "yes", {"b": 2}), ("data", 30), ("z", "yes", None)]],
    [[("y", "yes", None)], [("z", "raiseenter", {"b": 2}), ("x", "yes", None)], [("x", "yes", None), ("data", 11), ("nowhere", "yes", {"a": 1})]],
]
runs = 0
for pr in PROGS:
    for env in (False, True):
        for desc, o, res in sched.explore(lambda: World(pr, env), rng, ctx.n(130, 3000), orders=(None, ["c1", "c0"]), two=0.4):
            runs += 1
            judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceStateMachine", None)]["traces"]
left = ["step", "enter", "ret", "final", "dup"]
for t in ts:
    if not left:
        break
    b = copy.deepcopy(t)
    w = left[-1]
    if w == "dup":
        idx = [k for k, e in enumerate(b["ev"]) if e["op"] == "enter" and e["ok"] and not e["raised"]]
        if not idx:
            continue
        b["ev"].insert(idx[0], b["ev"][idx[0]])
    elif w == "final":
        if not t["cfg"]["env"]:
            continue
        b["ev"][-2]["transitions"] += 1
    else:
        idx = [k for k, e in enumerate(b["ev"]) if e["op"] == w and not e.get("raised") and not e.get("err")]
        if not idx:
            continue
        e = b["ev"][idx[-1]]
        if w == "step":
            e["data"]["b"] += 1
        elif w == "enter":
            e["from"] = e["s"]
        else:
            e["b"] = [n for n in NAMES if n != e["b"]][0]
    left.pop()
    ctx.add("TraceStateMachine", b["ev"], b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left
ctx.finish()

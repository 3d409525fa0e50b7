"""C11: daemon managers: operations on groups of daemons, dependencies, look-ups, commands."""
import copy
import json
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.daemon import DaemonBase
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.manager import DaemonManager
from vtelem.enums.daemon import DaemonOperation, DaemonState
from vtelem.factories.daemon_manager import create_daemon_manager_commander

ctx = Ctx()
rng = ctx.rng
OPS = ["start", "stop", "pause", "unpause", "restart"]
FROM = {"start": "idle", "stop": "running", "pause": "running", "unpause": "paused"}
TO = {"start": "running", "stop": "idle", "pause": "paused", "unpause": "running"}


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


class Stub(DaemonBase):
    """A daemon whose operations succeed or fail as scripted, instantly."""
    world = None
    ident = 0

    def act(self, op, args, kwargs):
        w = self.world
        w.log(op="enter", t=thread_no(), n=self.name, op2=op, arg=args[0] if args else kwargs.get("arg", 0))
        ok = w.rng.random() > w.fail
        if ok and op == "restart":
            self.set_state(DaemonState.RUNNING)
        elif ok and self.get_state_str() == FROM[op]:
            self.set_state(DaemonState[TO[op].upper()])
        else:
            ok = False
        w.log(op="apply", t=thread_no(), n=self.name, ok=ok)
        return ok

    def start(self, *a, **k):
        return self.act("start", a, k)

    def stop(self, *a, **k):
        return self.act("stop", a, k)

    def pause(self):
        return self.act("pause", (), {})

    def unpause(self):
        return self.act("unpause", (), {})

    def restart(self, *a, **k):
        return self.act("restart", a, k)


def real(op):
    def do(self, *a, **k):
        w = self.world
        w.log(op="enter", t=thread_no(), n=self.name, op2=op, arg=a[0] if a else k.get("arg", 0))
        # the operations a restart consists of are its own
        self.quiet = op == "restart"
        ok = getattr(DaemonBase, op)(self, *a, **k)
        w.log(op="apply", t=thread_no(), n=self.name, ok=bool(ok))
        return ok
    return do


class Real(DaemonBase):
    """A daemon with a thread."""
    world = None
    ident = 0

    def run(self, *_, **__):
        while self.state != DaemonState.STOPPING:
            time.sleep(0.25)

    start = real("start")
    stop = real("stop")
    pause = real("pause")
    unpause = real("unpause")


class World:
    def __init__(self, daemons, progs, cls=Stub, fail=0.0, seed=0, cyclic=False):
        import random
        self.rng = random.Random(seed)
        self.ev, self.progs, self.cls, self.fail = [], progs, cls, fail
        self.daemons = daemons
        self.mgr = DaemonManager()
        self.n = 0
        self.narg = 0
        self.cfg = {"threads": 1 + len(progs), "kind": cls.__name__, "cyclic": cyclic}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def add(self, name, deps):
        self.n += 1
        d = self.cls(name)
        d.world, d.ident = self, self.n
        d.function["state_change"] = lambda a, b, _: self.log(op="state", n=name, s=b.name.lower(), who=d.ident)
        t = thread_no()
        self.log(op="addcall", t=t, n=name)
        ok = self.mgr.add_daemon(d, list(deps) if deps else (None if self.n % 2 else []))
        self.log(op="add", t=t, n=name, deps=list(deps), ok=bool(ok), who=d.ident)

    def all(self, op, via=None):
        t = thread_no()
        self.narg += 1
        via = via if via is not None else self.narg % 4
        arg = self.narg if op in ("start", "restart") else 0
        args = (arg,) if arg else ()
        if op not in OPS + ["none"]:
            self.log(op="call", t=t, kind="all", op2="unknown", names=[], arg=0)
            ok = self.mgr.perform_str_all(op)
        else:
            self.log(op="call", t=t, kind="all", op2=op, names=[], arg=arg)
            if via == 0:
                ok = self.mgr.perform_all(DaemonOperation[op.upper()], *args)
            elif via == 1 and arg:
                ok = self.mgr.perform_all(DaemonOperation[op.upper()], arg=arg)
            else:
                ok = self.mgr.perform_str_all(op.upper() if via == 2 else op, *args)
        self.log(op="ret", t=t, ok=bool(ok), listed=False, results=[])

    def one(self, name, op):
        t = thread_no()
        self.narg += 1
        arg = self.narg if op in ("start", "restart") else 0
        args = (arg,) if arg else ()
        known = op in OPS + ["none"]
        self.log(op="call", t=t, kind="one", op2=op if known else "unknown", names=[name], arg=arg)
        if known and self.narg % 2:
            ok = self.mgr.perform(name, DaemonOperation[op.upper()], *args)
        else:
            ok = self.mgr.perform_str(name, op, *args)
        self.log(op="ret", t=t, ok=bool(ok), listed=False, results=[])

    def command(self, op, names):
        """The same through the command a manager registers."""
        t = thread_no()
        known = op in OPS + ["none"]
        every = "all" in names
        self.log(op="call", t=t, kind="all" if every else "one", op2=op if known else "unknown", names=[] if every else names, arg=0)
        ok, msg = self.cmd({"operation": op, "daemons": names})
        res = json.loads(msg)["results"] if known else {}
        self.log(op="ret", t=t, ok=bool(ok), listed=known, results=[{"n": n, "ok": r} for n, r in res.items()])

    def states(self):
        def go():
            via = self.n % 3
            if via == 0:
                d = self.mgr.states()
            elif via == 1:
                d = {k: v.name.lower() for k, v in self.mgr.states(False).items()}
            else:
                d = json.loads(self.cmd({"operation": "states"})[1])
            self.ev.append({"op": "states", "list": [{"n": k, "s": v} for k, v in d.items()]})
        sched.event(go)

    def get(self, name):
        def go():
            d = self.mgr.get(name)
            self.ev.append({"op": "get", "n": name, "found": d is not None, "who": d.ident if d is not None else 0})
        sched.event(go)

    def cmd(self, data):
        box = {}
        daemon = CommandQueueDaemon("cmd")
        create_daemon_manager_commander(self.mgr, daemon)
        daemon.handle(({"command": "daemon", "data": data}, lambda ok, m: box.update(r=(ok, m))))
        return box["r"]

    def body(self, t):
        for step in self.progs[t]:
            getattr(self, step[0])(*step[1:])

    def main(self, s):
        for n, deps in self.daemons:
            self.add(n, deps)
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.states()
        for n in ["nobody"] + [n for n, _ in self.daemons][:9]:
            self.get(n)
        self.states()
        if self.cls is Real:
            self.all("unpause", 0)
            time.sleep(1)
            self.all("stop", 0)
            time.sleep(1)
            self.states()


def judge(o, res, desc=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceManager", ev, dict(o.cfg, schedule=str(desc)))


def once(o):
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.4:
        continue
    ds = list(zip(g["order"], [sorted(x) for x in g["deps"]]))
    prog = []
    for op in g["ops"]:
        prog.append(rng.choice([("all", op), ("command", op, ["all"])] + ([("one", rng.choice("abcx"), op)] if rng.random() < 0.2 else [])))
        prog.append(("states",))
    once(World(ds, [prog], fail=rng.choice((0, 0, 0.3)), seed=rng.random()))


def dag(n, ghosts=0.0, cyc=False):
    """Registered in any order: dependencies may come later."""
    names = ["n%d" % k for k in range(n)]
    rng.shuffle(names)
    ds = []
    for k, x in enumerate(names):
        pool = names[:k] if not cyc else names
        deps = rng.sample(pool, min(len(pool), rng.choice((0, 0, 1, 1, 2, 3))))
        if rng.random() < ghosts:
            deps.append(rng.choice(("ghost", "ghoul")))
        ds.append((x, deps))
    rng.shuffle(ds)
    return ds


def prog(names, k):
    out = []
    for _ in range(k):
        x = rng.random()
        if x < 0.35:
            out.append(("all", rng.choice(OPS + ["none", "jump"]), rng.randrange(4)))
        elif x < 0.5:
            out.append(("command", rng.choice(OPS + ["none"]), rng.choice((["all"], ["all", "nobody"], rng.sample(names, min(2, len(names))),
                                                                           [rng.choice(names), "nobody"], []))))
        elif x < 0.7:
            out.append(("one", rng.choice(names + ["nobody", "n99"]), rng.choice(OPS + ["none", "jump"])))
        elif x < 0.8:
            out.append(("get", rng.choice(names + ["nobody", ""])))
        elif x < 0.9:
            out.append(("add", rng.choice(names + ["late", "later"]), []))
        else:
            out.append(("states",))
    return out


for _ in range(ctx.n(150, 2500)):
    cyc = rng.random() < 0.15
    ds = dag(rng.randrange(0, 9), rng.choice((0, 0, 0.2)), cyc)
    once(World(ds, [prog([n for n, _ in ds] or ["x"], 8)], fail=rng.choice((0, 0, 0.2)), seed=rng.random(), cyclic=cyc))
# long chains, also registered backwards
for n in (50, 1100):
    ch = [("n%d" % k, ["n%d" % (k - 1)] if k else []) for k in range(n)]
    if n > 100:
        ch = [ch[-1]] + ch[1:-1][::-1] + ch[:1]
    once(World(ch[::-1] if n < 100 else ch, [[("all", "start", 0)]]))
# daemons with threads
for _ in range(ctx.n(20, 300)):
    ds = dag(rng.randrange(1, 6))
    names = [n for n, _ in ds]
    pr = []
    for _ in range(6):
        pr.append(rng.choice([("all", rng.choice(OPS[:4]), 0), ("one", rng.choice(names), rng.choice(OPS[:4])), ("command", rng.choice(OPS[:4]), ["all"])]))
    once(World(ds, [pr], cls=Real))

# schedules
D3 = [("c", ["b"]), ("b", ["a"]), ("a", [])]
PROGS = [
    (Stub, [[("all", "start", 0), ("all", "stop", 0)], [("all", "start", 0), ("one", "b", "stop")]]),
    (Stub, [[("add", "x", ["a"]), ("add", "y", []), ("all", "start", 0)], [("add", "x", []), ("add", "y", []), ("one", "x", "start")]]),
    (Stub, [[("command", "start", ["all"]), ("one", "a", "stop")], [("all", "restart", 0), ("get", "b"), ("get", "q")]]),
    (Real, [[("all", "start", 0), ("all", "stop", 0)], [("one", "b", "start"), ("all", "stop", 0)]]),
]
runs = 0
for cls, pr in PROGS:
    for desc, o, res in sched.explore(lambda: World(D3, pr, cls), rng, ctx.n(110, 2500), orders=(None, ["c1", "c0"])):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceManager", None)]["traces"]
done = set()
for t in ts:
    for k, e in enumerate(t["ev"]):
        if e["op"] in ("ret", "get", "states", "apply") and e["op"] not in done:
            bad = copy.deepcopy(t)
            if e["op"] == "ret":
                bad["ev"][k]["ok"] = not e["ok"]
            elif e["op"] == "get":
                bad["ev"][k]["found"] = not e["found"]
            elif e["op"] == "states" and e["list"]:
                bad["ev"][k]["list"].pop()
            elif e["op"] == "apply":
                # it happened twice
                bad["ev"][k + 1:k + 1] = copy.deepcopy([x for x in bad["ev"][:k] if x["op"] == "enter"][-1:] + [bad["ev"][k]])
            else:
                continue
            done.add(e["op"])
            ctx.add("TraceManager", bad["ev"], bad["cfg"], canary=True)
            break
    if len(done) == 4:
        break
ctx.finish()

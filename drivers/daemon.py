"""C10: lifecycle operations of daemons in every schedule; restartable network services."""
import copy
import os
import random
import socket
import ssl
import sys
import json
import threading
import time
import urllib.request
from common import Ctx, guard, end, describe

ctx = Ctx()
rng = ctx.rng


# ------------------------------------------------------------- network services
def services(out):
    """Runs in a child without the scheduler: real threads and loopback sockets."""
    import asyncio
    import websockets
    from vtelem.daemon.http import HttpDaemon
    from vtelem.daemon.websocket import WebsocketDaemon
    from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
    from vtelem.mtu import Host, get_free_tcp_port
    from vtelem.stream.writer import default_writer
    from vtelem.telemetry.environment import TelemetryEnvironment
    threading.excepthook = lambda a: None
    traces = []

    def ask_http(d):
        def ask():
            c = ssl._create_unverified_context()
            try:
                urllib.request.urlopen("%s://127.0.0.1:%d/nothing" % ("https" if d.ssl_context else "http", d.server.server_address[1]),
                                       timeout=2, context=c)
            except urllib.error.HTTPError:
                return True
            return True
        return ask

    def ask_ws(d):
        async def go():
            async with websockets.connect("ws://127.0.0.1:%d" % d.address[1], open_timeout=2, close_timeout=1) as w:
                await w.send("x")
                return (await asyncio.wait_for(w.recv(), 2)) == "x"
        return lambda: asyncio.run(go())

    def ask_tcp(d):
        def ask():
            old = set(d.writer.streams)
            with socket.create_connection(("127.0.0.1", d.address[1]), 2):
                for _ in range(100):
                    if set(d.writer.streams) - old:
                        return True
                    time.sleep(0.02)
            return False
        return ask

    async def echo(ws, m, p):
        await ws.send(m)

    def make(kind):
        env = TelemetryEnvironment(128, metrics_rate=1.0, app_id_basis=0.5)
        if kind in ("http", "https"):
            d = HttpDaemon("d", Host("127.0.0.1", 0), env=env)
            if kind == "https":
                d.use_tls("/repo/tests/data/test.key", "/repo/tests/data/test.cert")
            return d, ask_http(d), lambda: d.close()
        if kind == "ws":
            d = WebsocketDaemon("d", echo, Host("127.0.0.1", get_free_tcp_port()), env)
            return d, ask_ws(d), lambda: None
        w, q = default_writer("w", env=env)
        d = TcpTelemetryDaemon("d", w, env, Host("127.0.0.1", 0))
        return d, ask_tcp(d), lambda: d.server.server_close()

    def session(kind, progs, seed, ask_each=True):
        ev = []
        lock = threading.Lock()
        put = lambda **e: ev.append(e)  # noqa: E731
        r = random.Random(seed)
        with guard(ev, 100):
            d, ask, close = make(kind)
            names = {}

            def changed(a, b, _):
                put(op="move", t=names.get(threading.current_thread(), 0), a=a.name.lower(), b=b.name.lower())
            d.function["state_change"] = changed

            def op(w, t):
                if w.startswith("nap"):
                    time.sleep(float(w[3:]))
                    return
                put(op="call", t=t, what=w, byname=False, arg=0)
                put(op="ret", t=t, ok=bool(getattr(d, w)()))

            def probe():
                ok = False
                for _ in range(3):
                    try:
                        ok = ask()
                        break
                    except Exception:  # noqa
                        time.sleep(0.05)
                return ok

            def run(t, prog):
                names[threading.current_thread()] = t
                for w in prog:
                    op(w, t)

            names[threading.current_thread()] = 1
            ts = [threading.Thread(target=run, args=(k + 2, p), daemon=True) for k, p in enumerate(progs)]
            for x in ts:
                x.start()
            for x in ts:
                x.join(90)
                if x.is_alive():
                    put(op="hang", what="an operation never returned")
            for _ in range(400):
                if d.get_state_str() in ("running", "idle"):
                    break
                time.sleep(0.02)
            for k in range(2):
                if d.get_state_str() == "running":
                    op("stop", 1)
                for _ in range(400):
                    if d.get_state_str() == "idle":
                        break
                    time.sleep(0.02)
                op("start", 1)
                for _ in range(100):
                    if d.get_state_str() == "running":
                        break
                    time.sleep(0.02)
                put(op="service", ok=probe())
                op("stop", 1)
            close()
        put(op="end")
        traces.append([ev, {"threads": 1 + len(progs), "counters": False, "idle": True, "body": False, "ends": False, "kind": kind, "progs": progs}])

    jobs = []
    quickly = [["start", "stop"]]
    for kind in ("http", "https", "ws", "tcp"):
        jobs.append((kind, quickly, 1))
        jobs.append((kind, [["start", "nap0.1", "restart", "nap0.1", "pause", "unpause", "stop"]], 1))
        jobs.append((kind, [["start", "nap0.1", "pause", "unpause", "stop", "start", "stop"], ["start", "stop", "nap0.15", "restart"]], 2))
        for k in range(ctx.n(1, 25)):
            progs = [[rng.choice(("start", "stop", "restart", "start", "stop", "nap0.01", "nap0.1", "pause", "unpause")) for _ in range(6)]
                     + ["unpause"] for _ in range(rng.choice((1, 2, 3)))]
            jobs.append((kind, progs, k))
    # several at a time: each child runs every 6th
    res = []
    kids = []
    for part in range(6):
        pid = os.fork()
        if pid == 0:
            try:
                for j in jobs[part::6]:
                    session(*j)
                with open(out + ".%d" % part, "w") as f:
                    json.dump(traces, f)
            finally:
                os._exit(0)
        kids.append(pid)
    for p in kids:
        os.waitpid(p, 0)
    for part in range(6):
        res += json.load(open(out + ".%d" % part))
    with open(out, "w") as f:
        json.dump(res, f)


child = None
if ctx.prop == "C10":
    child = os.fork()
    if child == 0:
        try:
            services(os.path.join(ctx.out, "net.json"))
        except BaseException:  # noqa
            import traceback
            traceback.print_exc()
        finally:
            os._exit(0)

import sched  # noqa: E402
sched.install()
import daemon_lib as dl  # noqa: E402

OPS = ["start", "stop", "pause", "unpause", "restart", "finish", "p:start", "p:stop", "p:pause", "p:unpause", "p:restart", "p:none",
       "p:unknown", "state", "sleep0.7", "sleep0"]


def judge(o, res, desc=None, ident=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        if not isinstance(e, dl.TaskError):
            ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceDaemon", ev, dict(o.cfg, schedule=str(desc)), ident=ident)


def plain(kind, progs, ident=None, **kw):
    o = dl.World(kind, progs, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main), ident=ident)


C21 = ctx.prop == "C21"


def how():
    """For C21 the counters of the daemons are compared with what happened."""
    return {"with_env": True, "counters": True} if C21 else {"with_env": rng.random() < 0.5}


# every short history of operations, with time for the daemon's thread in between
gens = ctx.gen.get("gen", [])
for g in gens:
    if not ctx.thorough and rng.random() > 0.25:
        continue
    prog = []
    for w in g:
        prog.append(w)
        if w == "finish" or rng.random() < 0.7:
            prog += ["sleep1.2", "state"]
    plain(rng.choice(dl.KINDS), [prog], **how())
for _ in range(ctx.n(60, 800)):
    plain(rng.choice(dl.KINDS), [[rng.choice(OPS) for _ in range(rng.randrange(5, 30))] for _ in range(rng.choice((1, 1, 2, 3)))],
          **how())

# schedules
PROGS = [
    [["start", "stop"], ["start", "stop"]],
    [["start", "sleep0.3", "stop", "start"], ["stop", "start", "stop"]],
    [["start", "sleep0.1", "restart"], ["sleep0.1", "restart", "stop"]],
    [["start", "sleep0.1", "pause", "unpause"], ["sleep0.1", "stop", "p:start"]],
    [["start", "sleep0.1", "finish", "sleep0.4", "stop"], ["sleep0.4", "p:stop", "start"]],
    [["start", "sleep0.1", "stop"], ["sleep0.2", "start", "sleep0.2", "start", "sleep0.5", "stop"]],
    [["p:start", "p:pause", "p:unpause"], ["p:start", "p:stop", "p:restart"], ["state", "state", "pause", "state"]],
]
runs = 0
for kind in ([dl.k_plain, dl.k_periodic, dl.k_queue] if not ctx.thorough else dl.KINDS):
    for pr in PROGS:
        names = ["c%d" % k for k in range(len(pr))]
        for desc, o, res in sched.explore(lambda: dl.World(kind, pr, **(how() if C21 else {"with_env": kind is dl.k_periodic})), rng, ctx.n(70, 1200),
                                          orders=(None, names[::-1], ["d"] + names), two=0.5, stall=(0.3, 1.0)):
            runs += 1
            judge(o, res, desc)
ctx.stats["schedules"] = runs


# a task that needs longer than a stop waits (see KNOWN_FINDINGS.txt)
class Slow(dl.World):
    pass


def k_slow(w, env):
    def task(*_, **__):
        time.sleep(5.0)
    return dl.logged(dl.Daemon)("d", task, 0.5, env=env), None


plain(k_slow, [["start", "sleep0.5", "stop", "sleep10"]], ident="stop-timeout")

if child is not None:
    os.waitpid(child, 0)
    for ev, cfg in json.load(open(os.path.join(ctx.out, "net.json"))):
        ctx.add("TraceDaemon", ev, cfg)

ts = ctx.batches[("TraceDaemon", None)]["traces"]
done = set()
for t in ts:
    if t.get("id"):
        continue
    for k, e in enumerate(t["ev"]):
        if e["op"] == "ret" and "ok" not in done and t["ev"][k - 1]["op"] != "call":
            bad = copy.deepcopy(t)
            bad["ev"][k]["ok"] = not e["ok"]
            ctx.add("TraceDaemon", bad["ev"], bad["cfg"], canary=True)
            done.add("ok")
            break
        if e["op"] == "leave" and "leave" not in done:
            bad = copy.deepcopy(t)
            del bad["ev"][k]
            ctx.add("TraceDaemon", bad["ev"], bad["cfg"], canary=True)
            done.add("leave")
            break
        if e["op"] == "move" and e["b"] == "paused" and "move" not in done:
            bad = copy.deepcopy(t)
            bad["ev"][k]["a"] = "idle"
            ctx.add("TraceDaemon", bad["ev"], bad["cfg"], canary=True)
            done.add("move")
            break
    if len(done) == 3:
        break
ctx.finish()

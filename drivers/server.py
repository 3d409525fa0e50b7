"""C22: telemetry servers in every configuration, and the reasons for their end."""
import http.client
import json
import os
import random
import signal
import socket
import struct
import sys
import threading
import time
import urllib.parse
from common import Ctx, end, describe, in_repo
from procs import run_all

from websockets.sync.client import connect as ws_connect

from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import DaemonBase, DaemonState
from vtelem.entry import main as entry_main
from vtelem.mtu import Host
from vtelem.parsing.encapsulation import decode_frame
from vtelem.telemetry.server import TelemetryServer
from vtelem.types.telemetry_server import Service, TelemetryServices

ctx = Ctx()
rng = ctx.rng
PATIENCE = 20.0
SHORT = 0.25
LOCAL = "127.0.0.1"
SERVICES = ("http", "wscmd", "wstlm", "tcp")
ALWAYS = ("time", "telemetry", "stream", "command")
DEFAULTS = {"http": "http", "wscmd": "websocket_command", "wstlm": "websocket_telemetry", "tcp": "tcp_telemetry"}
STATES = {DaemonState.RUNNING: "running", DaemonState.IDLE: "idle", DaemonState.PAUSED: "paused"}


def until(fn, limit=PATIENCE, step=0.005):
    stop = time.monotonic() + limit
    while not fn():
        if time.monotonic() > stop:
            return False
        time.sleep(step)
    return True


class Broken(Exception):
    """Something was awaited in vain: what follows says nothing more."""


class World:
    def __init__(self, conf, seed, mode, final, index):
        self.r = random.Random(seed)
        self.conf, self.mode, self.final = set(conf), mode, final
        self.ev, self.mu = [], threading.RLock()
        self.server, self.index = None, index
        self.go, self.returned, self.begun = threading.Event(), threading.Event(), threading.Event()
        self.uptime = None
        self.frozen, self.state = False, {}
        self.count = self.setups = 0
        self.code = 0
        self.names = dict(DEFAULTS)
        self.t0 = self.t1 = None
        self.udp = None
        if "udp" in self.conf:
            self.udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.udp.bind((LOCAL, 0))
        self.known = {}

    def log(self, **e):
        with self.mu:
            self.ev.append(e)

    # the server, in the main thread
    def build(self):
        if self.r.random() < 0.4:
            self.names = {k: "my-" + k for k in DEFAULTS}
        host = (lambda: None) if self.r.random() < 0.2 else (lambda: Host(LOCAL, 0))
        svc = [Service(self.names[k], host(), k in self.conf) for k in SERVICES]
        udp = [Host(LOCAL, self.udp.getsockname()[1])] if self.udp else self.r.choice((None, []))
        self.server = TelemetryServer(0.005, 0.02, 0.02, services=TelemetryServices(*svc, udp))
        if "app" in self.conf:
            self.application()

    def application(self):
        def setup(_, data):
            data["n"] = 0
            self.setups += 1

        def loop(_, data):
            data["n"] += 1
            self.count = data["n"]

        return self.server.register_application("app", 0.01, setup, loop)

    def main(self):
        self.threads = set(threading.enumerate())
        if self.mode == "app":
            free = []
            for k in range(4):
                port = 20000 + (self.index * 4 + k) % 12000
                s = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(("0.0.0.0", port))
                s.close()
                free.append(str(port))
            argv = ["vtelem", "-p", free[0], "--ws-cmd-port", free[1], "--ws-tlm-port", free[2], "--tcp-tlm-port", free[3],
                    "-t", "0.005", "--telem-rate", "0.02", "--metrics-rate", "0.02", "--time-scale", self.r.choice(("1", "2"))]
            if self.r.random() < 0.8:
                argv += ["-i", "lo"]
            if self.r.random() < 0.5:
                argv += ["-a", str(self.r.random())]
            if self.uptime is not None:
                argv += ["-u", str(self.uptime)]
            old = TelemetryServer.__init__

            def init(this, *a, **k):
                old(this, *a, **k)
                self.server = this
                self.log(op="start")
                self.t0 = time.monotonic()
                self.begun.set()

            TelemetryServer.__init__ = init
            self.code = entry_main(argv)
        else:
            self.build()
            self.log(op="start")
            self.begun.set()
            if self.mode == "booted":
                with self.server.booted():
                    self.go.wait()
            else:
                self.t0 = time.monotonic()
                self.server.start_all()
                self.t0 = time.monotonic()
                self.awaiting = True
                self.server.await_shutdown(self.uptime)

    def run(self, script):
        errors = []

        def body():
            try:
                if self.begun.wait(PATIENCE):
                    script()
            except Broken:
                pass
            except Exception as exc:
                if in_repo(exc):
                    self.log(op="crash", what=describe(exc))
                else:
                    errors.append(exc)
            # whatever happened, the other thread has to come to its end
            self.finished.set()

        self.finished = threading.Event()
        t = threading.Thread(target=body, daemon=True)
        t.start()
        self.helper = t
        try:
            self.main()
        except (Exception, KeyboardInterrupt, SystemExit) as exc:
            if not in_repo(exc) and "vtelem" not in str(type(exc)):
                raise
            self.log(op="crash", what=describe(exc))
        # it ended, possibly too early
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        self.t1 = time.monotonic()
        self.returned.set()
        self.finished.wait(80)
        if errors:
            raise errors[0]
        return {"ev": self.ev, "broken": not self.fine}

    fine = awaiting = False

    def interrupt(self):
        """The start isn't protected against interrupts, unless the application runs it."""
        if self.mode == "server":
            until(lambda: self.awaiting)
            time.sleep(0.05)
        os.kill(os.getpid(), signal.SIGINT)

    # what is observed
    def registry(self):
        reg = self.server.daemons.get("telemetry").registries["services"]
        back = {v: k for k, v in self.names.items()}
        res = {}
        for name in json.loads(reg.describe())["mappings"]:
            ident = reg.get_id(name)
            res[back.get(name, name)] = reg.get_item(ident) if ident is not None else None
        return res

    def listed(self):
        want = self.conf & set(SERVICES)
        until(lambda: set(self.registry()) >= want)
        time.sleep(0.02)
        reg = self.registry()
        ok = True
        for k, item in reg.items():
            good = [x for x in item or [] if isinstance(x[1], int) and 0 < x[1] < 65536]
            ok = ok and bool(good)
            if good:
                addr = [x for x in good if "." in x[0]] or good
                self.known[k] = (LOCAL if addr[0][0] == "0.0.0.0" else addr[0][0], addr[0][1])
        if self.mode == "app" and ok and "http" in reg:
            # the same is told to others
            status, body = self.http("GET", "registries")
            try:
                ok = status == 200 and all(self.names[k] in json.dumps(json.loads(body)["services"]) for k in SERVICES)
            except (ValueError, KeyError):
                ok = False
        self.log(op="reg", names=sorted(reg), ok=ok)
        if not want <= set(reg):
            raise Broken()

    def states(self):
        def get():
            res = {}
            back = {v: k for k, v in self.names.items()}
            for name, state in self.server.daemons.states(False).items():
                res[back.get(name, name)] = STATES.get(state, "other")
            res["http"] = STATES.get(self.server.get_state(), "other")
            return res

        until(lambda: all(v == self.state.get(k, v) for k, v in get().items()), PATIENCE if self.fine else 8)
        self.log(op="states", states=sorted([k, v] for k, v in get().items()))

    def http(self, method, path, body=None, limit=PATIENCE):
        try:
            c = http.client.HTTPConnection(*self.address("http"), timeout=limit)
            headers = {"Content-Type": "application/x-www-form-urlencoded"} if body is not None else {}
            c.request(method, "/" + path, body, headers)
            x = c.getresponse()
            data = x.read()
            c.close()
            return x.status, data.decode()
        except (OSError, http.client.HTTPException):
            return 0, ""

    def address(self, s):
        if s in self.known:
            return self.known[s]
        if s == "http":
            host, port = self.server.server.server_address[:2]
            return (LOCAL if host == "0.0.0.0" else host), port
        return None

    def frame(self, raw):
        telem = self.server.daemons.get("telemetry")
        return decode_frame(telem.channel_registry, raw, len(raw), telem.app_id) is not None

    def answers(self, s, limit):
        if s == "app":
            time.sleep(0.05)
            n = self.count
            return until(lambda: self.count > n + 2, limit)
        if s == "udp":
            if self.udp is None:
                return False
            self.udp.settimeout(0)
            try:
                while True:
                    self.udp.recv(65536)
            except OSError:
                pass
            stop = time.monotonic() + limit
            try:
                # other datagrams are sent, too (in order to discover the mtu)
                while True:
                    self.udp.settimeout(max(0.001, stop - time.monotonic()))
                    data = self.udp.recv(65536)
                    n = struct.unpack("!I", data[:4])[0] if len(data) >= 4 else 0
                    if 0 < n <= len(data) - 4 and self.frame(data[4:4 + n]):
                        return True
            except OSError:
                return False
        if self.address(s) is None:
            return False
        try:
            if s == "http":
                status, body = self.http("GET", "id", limit=limit)
                return status == 200 and body == str(self.ident())
            if s == "tcp":
                with socket.create_connection(self.address(s), timeout=limit) as c:
                    stop, data = time.monotonic() + limit, b""
                    while time.monotonic() < stop:
                        c.settimeout(max(0.01, stop - time.monotonic()))
                        x = c.recv(4096)
                        if not x:
                            return False
                        data += x
                        if len(data) > 4 and len(data) >= 4 + struct.unpack("!I", data[:4])[0]:
                            return self.frame(data[4:4 + struct.unpack("!I", data[:4])[0]])
                return False
            with ws_connect("ws://%s:%d" % self.address(s), open_timeout=limit, close_timeout=0.3) as c:
                if s == "wscmd":
                    c.send('{"command": "help"}')
                    return json.loads(c.recv(timeout=limit))["success"] is True
                data = c.recv(timeout=limit)
                return self.frame(data[4:]) or self.frame(data)
        except Exception as exc:        # noqa: B902
            if in_repo(exc):
                raise
            return False

    def ident(self):
        return self.server.daemons.get("telemetry").app_id.get()

    def expect(self, s):
        """Only decides how long to wait: the specification decides what is right."""
        need = {"http": ("http",), "wscmd": ("wscmd", "command"), "app": ("app",),
                "udp": ("time", "telemetry", "stream")}.get(s, (s, "time", "telemetry", "stream"))
        return all(self.state.get(x) == "running" for x in need) and (s != "udp" or self.udp is not None) \
            and not (self.frozen and s not in ("http", "wscmd"))

    def probe(self, *which):
        for s in which:
            self.log(op="probe", s=s, got=bool(self.answers(s, PATIENCE if self.expect(s) else SHORT)))

    def alive(self):
        self.log(op="alive", ended=self.returned.is_set())

    # what is done
    def started(self):
        for k in ALWAYS + tuple(self.conf & set(SERVICES)) + tuple(self.conf & {"app"}):
            self.state[k] = "running"
        ok = until(lambda: self.server.first_start is False if hasattr(self.server, "first_start") else True)
        self.log(op="started", ok=ok)
        self.states()
        self.listed()
        if not ok:
            raise Broken()

    def request(self, ident, way):
        right = self.ident()
        val = {"right": right, "other": right ^ 1, "larger": right + (1 << 32), "wider": right + (1 << 64), "negative": -right - 1,
               "empty": "", "word": "abc", "number_word": "%dx" % right, "fraction": "%d.0" % right, "exponent": "%de0" % right,
               "hex": hex(right), "none": None}[ident]
        args = {"app_id": val} if val is not None else self.r.choice(({}, {"id": right}))
        text = urllib.parse.urlencode(args)
        if way == "form":
            res = self.http("POST", "shutdown", text)
        elif way == "command":
            res = self.http("POST", "command?" + urllib.parse.urlencode(dict(args, command="shutdown")))
        else:
            res = self.http({"query": "POST", "get": "GET", "put": "PUT"}[way], "shutdown" + ("?" + text if text else ""))
        self.log(op="req", id=ident, way=way, status=res[0])

    def command(self, d, o):
        name = self.names.get(d, d)
        data = {"command": "daemon", "data": {"operation": o, "daemons": [name]}}
        if self.state["command"] == "running" and d != "command":
            ok, text = self.server.daemons.get("command").execute(data)
        else:
            ok = self.server.daemons.perform_str(name, o)
        self.state[d] = {"pause": "paused", "unpause": "running", "stop": "idle", "start": "running"}[o]
        self.log(op="cmd", d=d, o=o, ok=bool(ok))

    def step(self, e):
        if e["op"] == "cmd":
            self.command(e["d"], e["o"])
            self.states()
        elif e["op"] == "req":
            self.request(e["d"], e["o"])
            time.sleep(0.02)
        elif e["op"] == "scale":
            self.server.scale_speed(0.0 if e["d"] == "off" else self.r.choice((1.0, 3.0)))
            self.frozen = e["d"] == "off"
            self.log(op="scale", d=e["d"], ok=True)
            self.states()
        elif e["op"] == "app":
            ok = self.application()
            self.conf.add("app")
            self.state["app"] = "running"
            self.log(op="app", ok=bool(ok))
            self.states()
            if self.r.random() < 0.5:
                # once is enough
                self.log(op="app", ok=bool(self.application()))
        self.alive()

    def over(self, how, way="query"):
        self.log(op="over", why=how)
        for k in self.state:
            self.state[k] = "idle"
        if how == "stop_all":
            self.server.stop_all()
        elif how == "booted":
            self.go.set()
        elif how == "interrupt":
            self.interrupt()
        elif how == "request":
            self.request("right", way)
        self.ended()

    def ended(self):
        self.returned.wait(PATIENCE)
        self.alive()
        if not self.returned.is_set():
            raise Broken()
        if self.mode == "app":
            self.log(op="code", ok=self.code == 0)
        if self.uptime is not None and self.t0 is not None:
            self.log(op="expired", early=self.t1 - self.t0 < self.uptime - 0.01)
        self.states()

        def used():
            for s in self.known.values():
                x = socket.socket()
                x.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    x.bind(s)
                except OSError:
                    return True
                finally:
                    x.close()
            return False

        def left():
            return [t for t in threading.enumerate() if t not in self.threads and t is not self.helper]

        until(lambda: not used(), 5)
        until(lambda: not left(), 15)
        self.log(op="after", free=not used(), threads=len(left()))
        for s in ("http", "tcp", "wscmd", "wstlm", "udp", "app"):
            if s in self.conf:
                self.probe(s)
        self.log(op="setups", n=self.setups)
        self.fine = True


ALL = ("http", "wscmd", "wstlm", "tcp", "udp", "app")


def history(w, hist):
    """Steps that the specification generated."""
    w.started()
    if w.uptime is None:
        w.probe(*ALL)
    for e in hist[:-1]:
        if w.uptime is not None and time.monotonic() - w.t0 > w.uptime - 0.6:
            break
        w.step(e)
        if w.uptime is None or time.monotonic() - w.t0 < w.uptime - 0.8:
            w.probe(w.r.choice(("tcp", "wstlm")), w.r.choice(("udp", "app")), w.r.choice(("http", "wscmd")))
    if w.uptime is not None:
        if time.monotonic() - w.t0 < w.uptime - 0.3:
            w.alive()
        until(lambda: time.monotonic() - w.t0 > w.uptime - 0.15)
        w.over("expire")
    else:
        w.over(w.final, w.r.choice(("query", "form")))


def combos(w, _):
    """Every combination of services."""
    w.started()
    w.probe(*ALL)
    if "http" in w.conf:
        for ident in ("other", "word", "none"):
            w.request(ident, "query")
        w.alive()
        w.probe("http")
    w.over(w.final)


def early(w, _):
    """The end comes while daemons are still starting."""
    w.names = dict(w.names)
    for k in ALWAYS + tuple(w.conf & set(SERVICES)) + tuple(w.conf & {"app"}):
        w.state[k] = "running"
    until(lambda: w.server.get_state() == DaemonState.RUNNING or "http" not in w.conf)
    w.log(op="started", ok=True)
    w.over(w.final if w.uptime is None else "expire")


def full(w, _):
    """Nobody takes frames, for so long that no more can be queued."""
    w.started()
    w.command("stream", "stop")
    q = w.server.daemons.get("telemetry").frame_queue
    until(lambda: q.full(), 10)
    time.sleep(0.1)
    w.over(w.final)


def point(w, _):
    """An interrupt at a certain point of the start."""
    w.log(op="started", ok=True)
    w.returned.wait(PATIENCE)
    w.log(op="over", why="interrupt")
    for k in ALWAYS + SERVICES:
        w.state[k] = "idle"
    w.ended()


def crowd(w, _):
    """Several threads ask for the end at the same time, some of them with a right identifier."""
    w.started()
    if w.r.random() < 0.5:
        w.command(w.r.choice(("time", "stream", "telemetry", "tcp")), "pause")
    ts = [threading.Thread(target=w.request, args=(i, "query"), daemon=True) for i in ("right", "other", "right", "word", "right")]
    if w.r.random() < 0.5:
        ts.append(threading.Thread(target=w.server.stop_all, daemon=True))
    w.r.shuffle(ts)
    w.log(op="over", why="several")
    for k in w.state:
        w.state[k] = "idle"
    if w.r.random() < 0.5:
        # a second one would interrupt the shutdown
        w.interrupt()
    for t in ts:
        t.start()
    for t in ts:
        t.join(PATIENCE)
    w.ended()


KINDS = {f.__name__: f for f in (history, combos, early, full, point, crowd)}


def scenario(item):
    what, arg, conf, mode, final, seed, index = item
    signal.signal(signal.SIGINT, signal.default_int_handler)
    w = World(conf, seed, mode, final, index)
    if final == "expire":
        w.uptime = 2.0 if what != "early" else w.r.choice((0.0, 0.05, 0.2))
    if what == "early":
        old = DaemonBase.run_harness

        def harness(self, *a, **k):
            if self is not w.server:
                time.sleep(w.r.choice((0, 0.1, 0.3)))
            return old(self, *a, **k)

        DaemonBase.run_harness = harness
    if what == "point":
        left = [arg]

        def interrupting(cls, name):
            fn = getattr(cls, name)

            def wrapped(self, *a, **k):
                res = fn(self, *a, **k)
                if threading.current_thread() is threading.main_thread():
                    left[0] -= 1
                    if left[0] == 0:
                        signal.raise_signal(signal.SIGINT)
                return res

            setattr(cls, name, wrapped)

        if arg > 0:
            interrupting(DaemonBase, "start")
        else:
            left[0] = 1
            interrupting(TimeKeeper, "scale")
    t = time.monotonic()
    res = w.run(lambda: KINDS[what](w, arg))
    res["took"] = round(time.monotonic() - t, 2)
    return res


FULL = ["http", "wscmd", "wstlm", "tcp"]
items = []


def item(what, arg, conf, mode, final):
    items.append((what, arg, sorted(conf), mode, final, rng.randrange(1 << 30), len(items)))


for k in range(16):
    conf = [s for b, s in enumerate(SERVICES) if k >> b & 1] + rng.choice(([], ["udp"], ["app"], ["udp", "app"]))
    for _ in range(ctx.n(1, 4)):
        final = rng.choice(["stop_all", "interrupt", "booted"] + (["request", "request"] if k & 1 else []))
        item("combos", None, conf, "booted" if final == "booted" else "server", final)
pool = [h for h in ctx.gen.get("gen", [])]
want = ctx.n(90, 1500)
for h in rng.sample(pool, min(want, len(pool))):
    final = h["hist"][-1]["d"]
    app = "app" not in h["conf"] and "udp" not in h["conf"] and set(FULL) <= set(h["conf"])
    conf = [x for x in h["conf"] if x != "app" or all(e["op"] != "app" for e in h["hist"])]
    mode = "booted" if final == "booted" else "server"
    if set(FULL) <= set(conf) and final in ("expire", "interrupt", "request") and rng.random() < 0.7:
        # the command-line application starts all of them
        conf = FULL
        mode = "app"
    item("history", h["hist"], conf, mode, final)
for final in ("stop_all", "booted", "expire", "interrupt", "request"):
    for _ in range(ctx.n(2, 12)):
        item("early", None, FULL + ["udp", "app"], "booted" if final == "booted" else "server", final)
        if final in ("expire", "request"):
            item("early", None, FULL, "app", final)
for final in ("stop_all", "interrupt", "request"):
    item("full", None, FULL + ["app"], "server", final)
for k in range(0, 9):
    item("point", k, FULL, "app", "interrupt")
for k in range(ctx.n(6, 40)):
    item("crowd", None, FULL, rng.choice(("server", "app")), "several")
items.sort(key=lambda x: x[0] == "history")
res = run_all(scenario, items, ctx.out, bad=lambda x: x["broken"])
items = [i for i, r in zip(items, res) if r]
res = [r for r in res if r]
for i, (state, x) in zip(items, res):
    if state == "crash":
        raise SystemExit("scenario %s failed: %s" % (i[0], x))
    ev = x["ev"] if state == "done" else [{"op": "hang", "what": "no progress"}]
    ctx.add("TraceServer", ev + [end()], {"conf": i[2], "scenario": i[0], "mode": i[3], "final": i[4]})
for name in sorted({i[0] for i in items}):
    ctx.stats["longest_" + name] = max([x["took"] for i, (s, x) in zip(items, res) if i[0] == name and s == "done"] or [0])
ctx.stats["scenarios"] = {k: sum(1 for i in items if i[0] == k) for k in sorted({i[0] for i in items})}
ctx.stats["answers"] = {s: sum(1 for _, x in res if isinstance(x, dict) for e in x["ev"] if e["op"] == "probe" and e["s"] == s and e["got"]) for s in ALL}

missing = []


def canary(kind, fn):
    for i, (state, x) in zip(items, res):
        if state != "done":
            continue
        ev = fn([dict(e) for e in x["ev"]], i)
        if ev:
            ctx.add("TraceServer", ev + [end()], {"conf": i[2], "scenario": "canary", "mode": i[3], "final": i[4]}, canary=True)
            return
    missing.append(kind)


def change(op, cond=lambda e: True, **kw):
    def fn(ev, _):
        for e in ev:
            if e["op"] == op and cond(e):
                e.update(kw)
                return ev
        return None
    return fn


canary("silent", change("probe", lambda e: e["got"], got=False))
canary("ghost", change("probe", lambda e: not e["got"] and e["s"] == "udp", got=True))
canary("accepted", change("req", lambda e: e["id"] == "other" and e["status"] == 400, status=200))
canary("refused", change("req", lambda e: e["id"] == "right" and e["status"] == 200, status=400))
canary("spontaneous", change("alive", lambda e: not e["ended"], ended=True))
canary("immortal", change("alive", lambda e: e["ended"], ended=False))
canary("bound", change("after", free=False))
canary("threads", change("after", threads=1))
canary("unlisted", lambda ev, i: [dict(e, names=e["names"][1:]) if e["op"] == "reg" else e for e in ev]
       if any(e["op"] == "reg" and e["names"] for e in ev) else None)
canary("extra", lambda ev, i: [dict(e, names=e["names"] + ["http"]) if e["op"] == "reg" else e for e in ev] if "http" not in i[2] else None)
canary("early", change("expired", early=True))
canary("paused", lambda ev, i: [dict(e, states=[[a, "paused" if a == "time" else b] for a, b in e["states"]]) if e["op"] == "states" else e for e in ev])
ctx.stats["canary_kinds_missing"] = missing
ctx.finish()

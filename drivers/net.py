"""C29: clients of the TCP and websocket telemetry services."""
import base64
import os
import queue
import random
import socket
import struct
import threading
import time
from common import Ctx, end, describe, in_repo
from procs import run_all
from values import parsed
from client_frames import registry, REG, rand_for

from vtelem.classes.metered_queue import MeteredQueue
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.client.tcp import TcpClient
from vtelem.client.websocket import WebsocketClient
from vtelem.daemon import DaemonState
from vtelem.daemon import tcp_telemetry
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.frame.framer import Framer
from vtelem.frame.message import MessageFrame
from vtelem.mtu import Host
from vtelem.parsing.encapsulation import decode_frame
from vtelem.registry.service import ServiceRegistry
from vtelem.stream.writer import StreamWriter
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
PATIENCE = 20.0
LOCAL = "127.0.0.1"


def until(fn, limit=PATIENCE, step=0.004):
    stop = time.monotonic() + limit
    while not fn():
        if time.monotonic() > stop:
            return False
        time.sleep(step)
    return True


class Broken(Exception):
    """Something was awaited in vain: what follows says nothing more."""


class Conn:
    """One connection: a thread reads it."""

    def __init__(self, w, slot, kind):
        self.w, self.slot, self.kind = w, slot, kind
        w.count += 1
        self.c = w.count
        self.buf, self.last, self.high = b"", 0, 0
        self.state = "conn"
        self.quit = self.paused = self.stalled = False
        self.reader = None
        w.conns.append(self)

    def go(self):
        self.reader = threading.Thread(target=self.read, daemon=True)
        self.reader.start()

    def got(self, i):
        self.last = i
        if self.state == "conn":
            self.state = "on"
        self.w.log(op="recv", c=self.c, i=i)

    def ended(self):
        if not self.quit:
            self.w.log(op="ended", c=self.c)
            self.state = "ended"

    def feed(self, data):
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack("!I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            raw, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
            self.got(self.w.by_raw.get(raw, 0))

    def finish(self):
        self.quit = True
        if self.reader is not None:
            self.reader.join(10)


class RawTcp(Conn):
    def __init__(self, w, slot, r, small=False):
        super().__init__(w, slot, "tcp")
        self.chunk = r.choice((1, 7, 100, 4096, 65536)) if not w.big else 65536
        w.log(op="conn", c=self.c, k="tcp")
        self.s = socket.socket()
        if small:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        self.s.connect((LOCAL, w.port("tcp")))
        self.s.settimeout(0.03)
        self.opening()
        self.go()

    def opening(self):
        pass

    def accept(self, data):
        self.feed(data)

    def read(self):
        while not self.quit:
            if self.paused:
                time.sleep(0.01)
                continue
            try:
                data = self.s.recv(self.chunk)
            except TimeoutError:
                continue
            except OSError:
                data = b""
            if not data:
                return self.ended()
            if self.accept(data):
                return self.ended()

    def leave(self, how):
        self.w.log(op="leave", c=self.c)
        self.finish()
        self.state = "left"
        if how == "abort":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.close(how)
        self.s.close()

    def close(self, how):
        pass


class RawWs(RawTcp):
    """Speaks just enough of RFC 6455."""

    def __init__(self, w, slot, r, small=False):
        Conn.__init__(self, w, slot, "ws")
        self.chunk = r.choice((7, 100, 4096, 65536)) if not w.big else 65536
        w.log(op="conn", c=self.c, k="ws")
        self.s = socket.socket()
        if small:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        self.s.connect((LOCAL, w.port("ws")))
        key = base64.b64encode(bytes(r.randrange(256) for _ in range(16))).decode()
        self.s.sendall(("GET / HTTP/1.1\r\nHost: %s:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                        "Sec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n" % (LOCAL, w.port("ws"), key)).encode())
        self.raw, self.message, self.shaken = b"", b"", False
        self.s.settimeout(0.03)
        self.go()

    def accept(self, data):
        self.raw += data
        if not self.shaken:
            if b"\r\n\r\n" not in self.raw:
                return False
            self.raw = self.raw[self.raw.index(b"\r\n\r\n") + 4:]
            self.shaken = True
        while len(self.raw) >= 2:
            n, at = self.raw[1] & 127, 2
            if n >= 126:
                size = 2 if n == 126 else 8
                if len(self.raw) < 2 + size:
                    return False
                n, at = int.from_bytes(self.raw[2:2 + size], "big"), 2 + size
            if len(self.raw) < at + n:
                return False
            fin, opcode, body = self.raw[0] & 128, self.raw[0] & 15, self.raw[at:at + n]
            self.raw = self.raw[at + n:]
            if opcode == 8:
                self.control(8, body)
                return True
            if opcode == 9:
                self.control(10, body)
            elif opcode in (0, 1, 2):
                self.message += body
                if fin:
                    self.feed(self.message)
                    self.message = b""
        return False

    def control(self, opcode, body):
        try:
            self.s.sendall(bytes((128 | opcode, 128 | len(body), 0, 0, 0, 0)) + body)
        except OSError:
            pass

    def close(self, how):
        if how == "close":
            self.control(8, b"\x03\xe8")
            self.s.settimeout(2)
            try:
                while self.s.recv(65536):
                    pass
            except OSError:
                pass


class Lib(Conn):
    """A client of this package, which can be used again."""

    def __init__(self, w, slot, kind, daemon):
        super().__init__(w, slot, kind)
        self.daemon = daemon
        w.log(op="conn", c=self.c, k=kind)
        if daemon is None:
            q, host = queue.Queue(), Host(LOCAL, w.relay.get(kind) or w.port(kind))
            if kind == "tcp":
                self.daemon = TcpClient(host, q, w.reg, w.app, w.lenv, 65000)
            else:
                self.daemon = WebsocketClient(host, q, w.reg, app_id=w.app, env=w.lenv, mtu=65000)
            self.daemon.harness = q
        elif self.daemon.get_state() == DaemonState.RUNNING:
            # the connection ended, which a websocket client outlives
            self.daemon.stop()
            until(lambda: self.daemon.get_state() == DaemonState.IDLE, 5)
        self.ok = self.daemon.start()
        self.go()

    def done(self):
        if self.kind == "tcp":
            return self.daemon.get_state() == DaemonState.IDLE
        return self.state == "on" and not self.daemon.connected

    def read(self):
        q = self.daemon.harness
        while not self.quit:
            over = self.done()
            try:
                x = q.get(timeout=0 if over else 0.03)
            except (queue.Empty, ValueError):
                if over:
                    return self.ended()
                continue
            if x is not None:
                self.got(self.w.by_parsed.get(str(parsed(x)), 0))

    def leave(self, _):
        was = self.done() or self.state == "ended"
        self.w.log(op="leave", c=self.c)
        ok = self.daemon.stop()
        self.finish()
        self.w.log(op="left", c=self.c, ok=bool(ok or was or self.state == "ended"))
        self.state = "left"
        until(lambda: self.daemon.get_state() == DaemonState.IDLE, 5)


class World:
    def __init__(self, seed, udp, big=False):
        self.r = random.Random(seed)
        self.ev, self.mu = [], threading.RLock()
        self.count, self.conns, self.big = 0, [], big
        self.n = self.settled = 0
        self.by_raw, self.by_parsed = {}, {}
        self.env = TelemetryEnvironment(1400, metrics_rate=1.0)
        self.lenv = TelemetryEnvironment(1400, metrics_rate=1.0)
        self.q = MeteredQueue("frames", self.env) if self.r.random() < 0.5 else queue.Queue()
        self.writer = StreamWriter("writer", self.q, env=self.env)
        if udp:
            self.udp = UdpClientManager(self.writer)
        self.services = {"tcp": TcpTelemetryDaemon("tcp", self.writer, self.env, Host(LOCAL, 0)),
                         "ws": WebsocketTelemetryDaemon("ws", self.writer, Host(LOCAL, 0), self.env)}
        self.known = ServiceRegistry()
        self.libs = {}
        self.up = set()
        self.framer = Framer(60000, 3 / 8, True)
        self.app = Framer.create_app_id(3 / 8)
        self.reg = registry()
        self.writer.start()
        self.ports = {}
        for k in ("tcp", "ws"):
            self.start(k, first_start=True, service_registry=self.known)
        self.fds, self.threads = self.resources()

    def log(self, **e):
        with self.mu:
            self.ev.append(e)

    def resources(self):
        return len(os.listdir("/proc/self/fd")), threading.active_count()

    def port(self, k):
        if k == "tcp":
            return self.services["tcp"].address[1]
        return self.ports["ws"]

    def start(self, k, **kw):
        self.log(op="start", k=k)
        try:
            ok = self.services[k].start(**kw)
            ok = ok and until(lambda: self.services[k].get_state() == DaemonState.RUNNING)
            if kw and k == "ws":
                until(lambda: self.known.get_id("ws") is not None)
                self.ports["ws"] = self.known.get_item(self.known.get_id("ws"))[0][1]
            self.up.add(k)
        except Exception as exc:
            ok = self.crash(exc)
        self.log(op="started", k=k, ok=bool(ok))

    def crash(self, exc):
        if not in_repo(exc):
            raise exc
        self.log(op="crash", what=describe(exc))
        raise Broken()

    def stop(self, k):
        self.log(op="stop", k=k)
        self.up.discard(k)
        try:
            ok = self.services[k].stop()
            ok = ok and until(lambda: self.services[k].get_state() == DaemonState.IDLE)
        except Exception as exc:
            ok = self.crash(exc)
        self.log(op="stopped", k=k, ok=bool(ok))

    def frame(self, size):
        i = self.n + 1
        kind = self.r.choice(("data", "event", "message")) if size is None else "message"
        f = self.framer.new_frame(kind, float(i))
        if kind == "message":
            frag = self.r.randbytes(size or self.r.randrange(0, 300))
            f.initialize(MessageFrame.create_fields({"message_type": 1, "message_number": i % 65536, "message_crc": 5,
                                                     "fragment_index": 0, "total_fragments": 3}), frag)
        else:
            for _ in range(self.r.randrange(1, 5)):
                x = self.r.choice([a for a, b in enumerate(REG) if not b[2]])
                p = REG[x][1]
                v, u = rand_for(self.r, p), rand_for(self.r, p)
                if kind == "data":
                    f.add(x, p, v)
                else:
                    f.add_event(x, p, (v, 1.0), (u, 2.0))
        f.finalize()
        raw = bytes(f.raw[0])
        self.by_raw[raw] = i
        self.by_parsed[str(parsed(decode_frame(registry(), raw, len(raw), self.app)))] = i
        self.n = i
        self.log(op="send", i=i)
        return f

    def send(self, k=1, size=None):
        for _ in range(k):
            self.q.put(self.frame(size))

    def metric(self, name):
        return int(self.env.get_metric(name))

    def total(self, kind):
        return self.metric("writer.stream_count" if kind == "tcp" else "writer.queue_count")

    def connect(self, slot, kind, how, wait=True, small=False):
        before = self.total(kind)
        try:
            if how == "lib":
                x = Lib(self, slot, kind, self.libs.pop((slot, kind), None))
                self.libs[slot, kind] = x.daemon
            else:
                x = (RawTcp if kind == "tcp" else RawWs)(self, slot, self.r, small)
        except OSError:
            with self.mu:
                x = self.conns[-1]
                self.log(op="reg", c=x.c, ok=False)
            raise Broken()
        except Exception as exc:
            self.crash(exc)
        if wait:
            ok = until(lambda: self.total(kind) > before or x.state == "ended")
            with self.mu:
                x.high = self.n + 1
                if x.state == "conn":
                    x.state = "on"
                self.log(op="reg", c=x.c, ok=ok)
            if not ok:
                raise Broken()
        return x

    def leave(self, x, how):
        before = self.total("ws")
        was = x.state
        try:
            x.leave(how)
        except Exception as exc:
            self.crash(exc)
        if x.kind == "ws" and was == "on" and not self.busy:
            until(lambda: self.total("ws") < before, 10)

    busy = False
    relay = {}

    def complete(self):
        return self.q.empty() and all(x.last == self.n or (x.last == 0 and self.n < x.high)
                                      for x in self.conns if x.state in ("on", "conn") and not x.stalled and x.kind in self.up)

    def over(self):
        return all(x.state != "on" or x.kind in self.up for x in self.conns)

    def settle(self, gauge=True):
        fine = until(lambda: self.complete() and self.over())
        time.sleep(0.02)
        want = {k: sum(1 for x in self.conns if x.state == "on" and x.kind == k) for k in ("tcp", "ws")}
        if gauge and fine:
            until(lambda: self.metric("tcp.clients") == want["tcp"] and self.total("tcp") == want["tcp"]
                  and self.total("ws") == want["ws"], 0.2 if any(x.state == "left" or x.stalled for x in self.conns) else 5)
        with self.mu:
            self.log(op="settle", gauge=gauge, tcp=self.metric("tcp.clients"), streams=self.total("tcp"), queues=self.total("ws"))
        if not fine:
            raise Broken()

    def leaks(self):
        """After everybody left."""
        for x in self.conns:
            if x.state in ("on", "conn"):
                self.leave(x, "close")
        for x in self.conns:
            if isinstance(x, RawTcp):
                x.finish()
                x.s.close()
        for _ in range(3):
            self.send()
            self.settle(False)
        if self.libs:
            return
        until(lambda: all(a <= b for a, b in zip(self.resources(), (self.fds, self.threads))), 15)
        a, b = self.resources()
        self.log(op="leaks", fds=a - self.fds, threads=b - self.threads)

    def close(self):
        self.settle(True)
        self.leaks()
        for k in sorted(self.up):
            self.stop(k)
        self.settle(False)


def history(w, hist):
    """A sequence of steps that the specification generated, each of them completed before the next."""
    slots = {}
    for e in hist:
        if e["op"] == "conn":
            x = w.connect(e["c"], e["k"], e["m"])
            if x is None:
                break
            slots[e["c"]] = x
        elif e["op"] == "leave":
            w.leave(slots[e["c"]], e["m"])
        elif e["op"] == "send":
            w.send(w.r.choice((1, 2, 5)))
            w.settle()
        elif e["op"] == "stop":
            w.stop(e["k"])
            w.settle()
        else:
            w.start(e["k"])
    w.send(2)
    w.settle()


def stall(w, kind):
    """Somebody doesn't read."""
    w.connect(1, kind, "raw", small=True)
    x = w.conns[-1]
    x.paused = x.stalled = True
    w.log(op="stall", c=x.c)
    w.connect(2, "tcp", "raw")
    w.connect(3, "ws", "raw")
    w.connect(4, w.r.choice(("tcp", "ws")), "lib")
    for _ in range(3):
        w.send(120, 55000)
        w.settle()
    if w.r.random() < 0.5:
        x.paused = False
        until(lambda: x.last == w.n or x.state == "ended", 10)
        w.send(3)
        w.settle()
        w.stop(kind)
    else:
        w.stop(kind)
        x.paused = False
    until(lambda: x.state == "ended")
    x.stalled = False
    w.settle()


def strangers(w, kind):
    """Peers that don't follow the protocol, or never say anything."""
    odd = []
    w.connect(1, "tcp", "raw")
    w.connect(2, "ws", "raw")
    for data in (b"", b"GET / HTTP/1.1\r\n\r\n", b"\x00\xff\x81\x80garbage", b"GET / HT"):
        s = socket.create_connection((LOCAL, w.port("ws")))
        try:
            s.sendall(data)
        except OSError:
            pass
        odd.append(s)
    w.send(3)
    w.settle()
    w.connect(3, kind, "raw")
    # clients may send something, too
    for x in w.conns:
        if x.kind == "tcp":
            x.s.sendall(b"anything" * 10)
        else:
            x.control(1, b"anything")
    w.send(3)
    w.settle()
    for s in odd:
        s.close()
    w.stop(kind)
    w.settle()
    w.start(kind)
    w.connect(4, kind, "raw")
    w.send(2)
    w.settle()


def idle(w, kind):
    """Nothing is sent for longer than any time-out."""
    w.connect(1, "tcp", "raw")
    w.connect(2, "ws", "raw")
    w.connect(3, kind, "lib")
    time.sleep(2.6)
    w.send(2)
    w.settle()


def reconnect(w, kind):
    """A client outlives several runs of the service."""
    for k in range(3):
        w.connect(1, kind, "lib")
        w.connect(2, kind, "raw")
        w.send(2)
        w.settle()
        w.stop(kind)
        if k == 1:
            w.leave([x for x in w.conns if x.slot == 1][-1], "close")
        w.settle()
        w.start(kind)
    w.connect(1, kind, "lib")
    w.send(1)
    w.settle()


def churn(w, kind):
    """Clients come and go while frames are sent, and the service is stopped in between."""
    w.busy = True
    halt = threading.Event()

    def sender():
        while not halt.is_set():
            w.send(1)
            time.sleep(w.r.choice((0, 0.001, 0.003)))

    def visitor(slot, rnd):
        for k in range(4):
            x = w.connect(slot, rnd.choice(("tcp", "ws")) if kind == "any" else kind, rnd.choice(("raw", "raw", "lib")), wait=False)
            if x is None:
                return
            until(lambda: x.last > 0 or x.state == "ended")
            time.sleep(rnd.random() / 20)
            if k < 3:
                w.leave(x, rnd.choice(("close", "abort")))

    s = threading.Thread(target=sender, daemon=True)
    ts = [threading.Thread(target=visitor, args=(k, random.Random(w.r.random())), daemon=True) for k in range(1, 6)]
    s.start()
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    halt.set()
    s.join(60)
    w.busy = False
    w.send(1)
    for _ in range(2):
        w.settle(False)
        w.send(1)
    w.settle(False)
    halt.clear()
    s = threading.Thread(target=sender, daemon=True)
    s.start()
    time.sleep(0.05)
    for k in ("ws", "tcp"):
        w.stop(k)
    halt.set()
    s.join(60)
    for x in w.conns:
        if x.state == "conn":
            until(lambda: x.state != "conn", 5)
    w.settle(False)
    for k in ("ws", "tcp"):
        w.start(k)
    w.connect(9, "tcp", "raw")
    w.connect(10, "ws", "raw")
    w.send(2)
    w.settle(False)


def slow(w, kind):
    """Connections that are still being set up when the service is stopped."""
    old = tcp_telemetry.TcpTelemetryHandler.setup

    def setup(self):
        time.sleep(0.3)
        old(self)

    w.connect(1, "tcp", "raw")
    tcp_telemetry.TcpTelemetryHandler.setup = setup
    xs = [w.connect(k, "tcp", "raw", wait=False) for k in (2, 3)]
    w.connect(4, "ws", "raw", wait=False)
    time.sleep(0.15)
    w.stop("tcp")
    if kind == "ws":
        w.stop("ws")
    tcp_telemetry.TcpTelemetryHandler.setup = old
    w.send(2)
    for x in xs:
        until(lambda: x.state == "ended", 5)
        w.log(op="gone", c=x.c, ok=x.state == "ended")
    w.settle(False)
    if kind == "ws":
        w.start("ws")
    w.start("tcp")
    w.connect(5, "tcp", "raw")
    w.send(2)
    w.settle(False)


class Cutter:
    """Passes a stream on, up to a number of bytes."""

    def __init__(self, port):
        self.port, self.allowed = port, 0
        self.s = socket.create_server((LOCAL, 0))
        self.out = self.s.getsockname()[1]
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            a, _ = self.s.accept()
            threading.Thread(target=self.relay, args=(a, self.allowed), daemon=True).start()

    def relay(self, a, allowed):
        b = socket.create_connection((LOCAL, self.port))
        for x in (a, b):
            x.settimeout(0.02)
        over = False
        while not over:
            for src, dst in ((a, b), (b, a)):
                try:
                    data = src.recv(4096)
                    over = over or not data
                    if dst is a and allowed is not None:
                        data = data[:allowed]
                        allowed -= len(data)
                    dst.sendall(data)
                except TimeoutError:
                    pass
                except OSError:
                    over = True
        a.close()
        b.close()


def cut(w, kind):
    """A connection ends within a frame; the client connects again."""
    p = Cutter(w.port("tcp"))
    w.relay = {"tcp": p.out}
    w.connect(2, "ws", "raw")
    for k in range(4):
        first = w.frame(None)
        size = len(first.with_size_header()[0])
        whole, part = w.r.choice((0, 1)), w.r.choice((1, 3, 4, 5, 9, 20))
        p.allowed = whole * size + part if k < 3 else None
        x = w.connect(1, "tcp", "lib")
        if k < 3:
            x.stalled = True
            w.log(op="stall", c=x.c)
        x.high = w.n
        w.q.put(first)
        w.send(2)
        w.settle(False)
        if k < 3:
            until(lambda: x.last == w.n - 2 or not whole, 5)
            time.sleep(0.05)
            if kind == "tcp":
                w.leave(x, "close")
            else:
                w.stop("tcp")
                until(lambda: x.state == "ended", 5)
                w.settle(False)
                w.start("tcp")


KINDS = {f.__name__: f for f in (stall, strangers, idle, reconnect, churn, slow, cut)}


def scenario(item):
    what, arg, seed = item
    t = time.monotonic()
    w = World(seed, seed % 2 == 0, what == "stall")
    try:
        (history if what == "history" else KINDS[what])(w, arg)
        w.close()
        broken = False
    except Broken:
        broken = True
    except Exception as exc:
        if not in_repo(exc):
            raise
        broken = w.log(op="crash", what=describe(exc)) or True
    res = {"ev": w.ev, "clients": max(1, w.count), "broken": broken}
    res["took"] = round(time.monotonic() - t, 2)
    return res


pool = ctx.gen.get("gen", [])
items = [("history", h, rng.randrange(1 << 30)) for h in rng.sample(pool, min(len(pool), ctx.n(70, 900)))]
for name in KINDS:
    for arg in ("tcp", "ws", "any") if name == "churn" else ("tcp", "ws"):
        for _ in range(1 if not ctx.thorough else 6):
            items.append((name, arg, rng.randrange(1 << 30)))
items.sort(key=lambda x: x[0] == "history")
res = run_all(scenario, items, ctx.out, bad=lambda x: x["broken"])
items = [i for i, r in zip(items, res) if r]
res = [r for r in res if r]
for item, (state, x) in zip(items, res):
    if state == "crash":
        raise SystemExit("scenario %s failed: %s" % (item[0], x))
    ev = x["ev"] if state == "done" else [{"op": "hang", "what": "no progress"}]
    ctx.add("TraceNet", ev + [end()], {"clients": x["clients"] if state == "done" else 1, "scenario": item[0]})
for name in sorted({i[0] for i in items}):
    ctx.stats["longest_" + name] = max([x["took"] for i, (s, x) in zip(items, res) if i[0] == name and s == "done"] or [0])
ctx.stats["scenarios"] = {k: sum(1 for i in items if i[0] == k) for k in {i[0] for i in items}}

# the monitor has to notice each kind of defect
missing = []


def canary(kind, fn):
    for (state, x) in res:
        if state != "done":
            continue
        ev = [dict(e) for e in x["ev"]]
        ev = fn(ev)
        if ev:
            ctx.add("TraceNet", ev + [end()], {"clients": x["clients"], "scenario": "canary"}, canary=True)
            return
    missing.append(kind)


def drop(ev):
    at = [k for k, e in enumerate(ev) if e["op"] == "recv" and any(f["op"] == "recv" and f["c"] == e["c"] for f in ev[:k])
          and any(f["op"] == "recv" and f["c"] == e["c"] for f in ev[k + 1:])]
    return ev[:at[0]] + ev[at[0] + 1:] if at else None


def twice(ev):
    at = [k for k, e in enumerate(ev) if e["op"] == "recv"]
    return ev[:at[0]] + [dict(ev[at[0]])] + ev[at[0]:] if at else None


def altered(ev):
    at = [k for k, e in enumerate(ev) if e["op"] == "recv"]
    return ev[:at[0]] + [dict(ev[at[0]], i=0)] + ev[at[0] + 1:] if at else None


def late(ev):
    regs = {e["c"] for e in ev if e["op"] == "reg"}
    for c in regs:
        at = [k for k, e in enumerate(ev) if e["op"] == "recv" and e["c"] == c]
        if len(at) > 2:
            return ev[:at[0]] + ev[at[0] + 1:]
    return None


def outlives(ev):
    for k, e in enumerate(ev):
        if e["op"] == "ended" and any(f["op"] == "reg" and f["c"] == e["c"] for f in ev[:k]) and any(f["op"] == "settle" for f in ev[k:]) \
                and any(f["op"] == "stop" for f in ev[:k]):
            return ev[:k] + ev[k + 1:]
    return None


def unreasonable(ev):
    for k, e in enumerate(ev):
        if e["op"] == "reg" and not any(f["op"] in ("stop", "stall") for f in ev[:k + 1]):
            return ev[:k + 1] + [{"op": "ended", "c": e["c"]}] + ev[k + 1:]
    return None


def count(ev):
    at = [k for k, e in enumerate(ev) if e["op"] == "settle" and e["gauge"] and e["queues"]]
    return ev[:at[0]] + [dict(ev[at[0]], queues=0)] + ev[at[0] + 1:] if at else None


def leak(ev):
    at = [k for k, e in enumerate(ev) if e["op"] == "leaks"]
    return ev[:at[0]] + [dict(ev[at[0]], fds=1)] + ev[at[0] + 1:] if at else None


for f in (drop, twice, altered, late, outlives, unreasonable, count, leak):
    canary(f.__name__, f)
ctx.stats["canary_kinds_missing"] = missing
ctx.finish()

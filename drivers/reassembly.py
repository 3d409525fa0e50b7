"""C05: chunks into the frame processor and into socket clients, frames out."""
import queue
import socket
import struct
import time
from common import Ctx, guard, end

from vtelem.classes.type_primitive import new_default
from vtelem.frame.processor import FrameProcessor
from vtelem.client.tcp import TcpClient
from vtelem.daemon import DaemonState
from vtelem.mtu import Host
from vtelem.channel.registry import ChannelRegistry
from vtelem.message.framer import MessageFramer
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng


def wire(frames):
    return b"".join(struct.pack("!I", len(f)) + f for f in frames)


def replay(chunks, mtu, split_new=None):
    ev = []
    with guard(ev):
        p, fs = FrameProcessor(), new_default("count")
        for c in chunks:
            if c == "new":
                p = FrameProcessor()
                ev.append({"op": "new"})
                continue
            out = p.process(bytes(c), fs, mtu)
            ev.append({"op": "data", "bytes": list(c), "out": [list(x) for x in out]})
    ev.append(end())
    return ev


# behaviours printed by the specification
for g in ctx.gen.get("gen", []):
    ctx.add("TraceReassembly", replay(g, 6), {"mtu": 6})

# larger random streams
for k in range(ctx.n(150, 3000)):
    mtu = rng.choice((1, 2, 5, 16, 40, 255, 256, 300, 1500))
    data = b""
    for _ in range(rng.randrange(1, 9)):
        kind = rng.random()
        n = rng.choice((0, 1, mtu, mtu - 1, rng.randrange(0, mtu + 1)))
        data += wire([bytes(rng.randrange(256) for _ in range(max(0, min(n, mtu))))])
        if kind < 0.12:
            data += struct.pack("!I", rng.choice((mtu + 1, mtu + rng.randrange(1, 500), 1 << 16, 1 << 24, (1 << 32) - 1)))
        elif kind < 0.16:
            data += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))
    chunks = []
    style = rng.choice((1, 3, 7, 50, 400))
    while data:
        n = rng.randrange(1, style + 1)
        chunks.append(data[:n])
        data = data[n:]
        if rng.random() < 0.02:
            chunks.append("new")
    ev = replay(chunks, mtu)
    ctx.add("TraceReassembly", ev, {"mtu": mtu})
    if k == 0:
        bad = [dict(e) for e in ev]
        for e in bad:
            if e["op"] == "data" and e["out"]:
                e["out"] = e["out"][1:]
                ctx.add("TraceReassembly", bad, {"mtu": mtu}, canary=True)
                break


# a socket client: several connections, each one starting at a frame boundary
class FakeSocket:
    def __init__(self, chunks, log):
        self.chunks, self.log = list(chunks), log
        self.closed = False

    def settimeout(self, _):
        pass

    def shutdown(self, _):
        pass

    def fileno(self):
        return -1 if self.closed else 5

    def getsockname(self):
        return ("127.0.0.1", 1)

    def close(self):
        self.closed = True

    def recv(self, size):
        self.log()
        if not self.chunks:
            return b""
        c = self.chunks[0][:size]
        self.chunks[0] = self.chunks[0][size:]
        if not self.chunks[0]:
            self.chunks.pop(0)
        self.last = c
        return c


for k in range(ctx.n(40, 600)):
    ev = []
    mtu = rng.choice((60, 80, 128))
    with guard(ev):
        env = TelemetryEnvironment(mtu, metrics_rate=1.0, app_id_basis=0.5)
        framer = MessageFramer(mtu, 0.5)
        out = queue.Queue()
        known = {}
        state = {"sock": None}

        def collect():
            s = state["sock"]
            got = []
            while True:
                try:
                    f = out.get_nowait()
                except queue.Empty:
                    break
                if f is None:
                    continue
                got.append(list(known.get(bytes(f.body["fragment_bytes"]), b"?")))
            if getattr(s, "last", None) is not None:
                ev.append({"op": "data", "bytes": list(s.last), "out": got})
                s.last = None

        def fresh(n):
            payload = bytes(rng.randrange(256) for _ in range(n))
            while payload in known:
                payload = bytes(rng.randrange(256) for _ in range(n))
            (f,), _ = framer.serialize_message(payload)
            raw, size = f.raw
            known[payload] = bytes(raw[:size])
            return known[payload]

        client = None
        for conn in range(rng.randrange(1, 4)):
            data = wire([fresh(rng.randrange(4, 12)) for _ in range(rng.randrange(1, 5))])
            if rng.random() < 0.5:
                data = data[:rng.randrange(1, len(data))]      # connection lost mid-frame
            elif rng.random() < 0.3:
                data += struct.pack("!I", mtu + 1 + rng.randrange(100))
            chunks = []
            while data:
                n = rng.choice((1, 2, 3, 5, 11, 40, 200))
                chunks.append(data[:n])
                data = data[n:]
            s = FakeSocket(chunks, collect)
            state["sock"] = s
            socket.create_connection = lambda *_, s=s, **__: s
            if client is None:
                client = TcpClient(Host("127.0.0.1", 9), out, env.channel_registry, env.app_id, env, mtu)
            ev.append({"op": "new"})
            assert client.start()
            while client.get_state() != DaemonState.IDLE:
                time.sleep(0.0002)
            collect()
            client.close()
    ev.append(end())
    ctx.add("TraceReassembly", ev, {"mtu": mtu})

ctx.finish()

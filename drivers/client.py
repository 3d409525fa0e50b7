"""C06: corrupt, foreign and unintelligible frames fed to clients."""
import copy
import queue
import struct
from common import Ctx, guard, end
from values import parsed, ubytes, rand_value

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.client import TelemetryClient
from vtelem.client.socket import SocketClient
from vtelem.enums.primitive import Primitive
from vtelem.frame.framer import Framer, build_dummy_frame
from vtelem.frame.message import MessageFrame
from vtelem.classes.type_primitive import new_default
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
PRIMS = list(Primitive)
REG = [("u8", Primitive.UINT8, False), ("i16", Primitive.INT16, False), ("flag", Primitive.BOOLEAN, False),
       ("f", Primitive.FLOAT, False), ("u64", Primitive.UINT64, False), ("s", Primitive.UINT16, True),
       ("d", Primitive.DOUBLE, False), ("s8", Primitive.INT8, True)]
REGCFG = [{"name": n, "type": p.value.name, "stream": s} for n, p, s in REG]


def registry():
    return ChannelRegistry([Channel(n, p, 1.0, is_stream=s) for n, p, s in REG])


def make(kind, app=3, den=8, crc=True):
    fr = Framer(120, app / den, crc)
    t = rng.randrange(1 << 20) / 1024
    if kind in ("data", "event"):
        f = fr.new_frame(kind, t)
        for _ in range(rng.randrange(1, 4)):
            i = rng.choice([k for k, r in enumerate(REG) if not r[2]])
            p = REG[i][1]
            v, w = rand_value(p, rng), rand_value(p, rng)
            if kind == "data":
                f.add(i, p, v)
            else:
                f.add_event(i, p, (v, 1.0), (w, 2.0))
        f.finalize()
        return bytes(f.raw[0])
    if kind == "message":
        f = fr.new_frame("message", t)
        frag = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
        f.initialize(MessageFrame.create_fields({"message_type": rng.randrange(0, 9), "message_number": rng.randrange(65536),
                                                 "message_crc": rng.randrange(1 << 32), "fragment_index": 0,
                                                 "total_fragments": 3}), frag)
        f.finalize()
        return bytes(f.raw[0])
    if kind == "invalid":
        return bytes(build_dummy_frame(30, app_id_basis=app / den).raw[0])
    assert kind == "stream"
    from zlib import crc32
    i = rng.choice((5, 7))
    n = rng.randrange(0, 4)
    b = struct.pack("!HBQI", int(65535 * app / den), 4, 12345, n) + struct.pack("!HI", i, rng.randrange(1 << 32))
    b += bytes(rng.randrange(256) for _ in range(n * REG[i][1].value.size))
    return b + (struct.pack("!I", crc32(b)) if crc else b"")


def drain(q):
    res = []
    while True:
        try:
            x = q.get_nowait()
        except queue.Empty:
            return res
        if x is not None:
            res.append(parsed(x))


ENV = TelemetryEnvironment(200, metrics_rate=1.0, app_id_basis=0.5)


class FakeSocket:
    """Delivers one length-prefixed frame per read."""

    def __init__(self, frames, ev, q):
        self.frames, self.ev, self.q = list(frames), ev, q
        self.last = None

    def getsockname(self):
        return ("fake", 1)

    def recv(self, n):
        self.flush()
        if not self.frames:
            return b""
        self.last = self.frames.pop(0)
        return struct.pack("!I", len(self.last)) + self.last

    def flush(self):
        if self.last is not None:
            self.ev.append({"op": "frame", "bytes": list(self.last), "out": drain(self.q)})
            self.last = None

    def close(self):
        pass


def run(frames, expected, route):
    """expected: app numerator or None"""
    ev = []
    app = None
    if expected is not None:
        app = Framer.create_app_id(expected / 8)
    with guard(ev):
        q = queue.Queue()
        if route == "direct":
            c = TelemetryClient("c", q, registry(), app, 500)
            for f in frames:
                n = c.handle_frames([f])
                out = drain(q)
                ev.append({"op": "frame", "bytes": list(f), "out": out})
                if n != len(out):
                    ev.append({"op": "wrong count", "n": n})
        else:
            s = FakeSocket(frames, ev, q)
            c = SocketClient(s, lambda: None, q, registry(), app, ENV, 500)
            c.run()
            s.flush()
            if s.frames:
                ev.append({"op": "stopped", "left": len(s.frames)})
    ev.append(end())
    ctx.add("TraceClient", ev, {"reg": REGCFG, "app": [] if app is None else ubytes(app.get(), 2)})


def mix(bad, good):
    """Valid frames before, between and after the bad ones."""
    res = [rng.choice(good)]
    for b in bad:
        res.append(b)
        if rng.random() < 0.15:
            res.append(rng.choice(good))
    res.append(rng.choice(good))
    return res


KINDS = ("data", "event", "message", "stream")
for kind in KINDS:
    for crc in (True, False):
        good = [make(k, crc=crc) for k in KINDS for _ in range(3)] + [make("invalid")]
        for rep in range(ctx.n(2, 12)):
            f = make(kind, crc=crc)
            flips = []
            for i in range(len(f)):
                for k in range(8):
                    if crc or rng.random() < 0.5:
                        b = bytearray(f)
                        b[i] ^= 1 << k
                        flips.append(bytes(b))
            if not ctx.thorough:
                flips = rng.sample(flips, min(len(flips), 160))
            for a in range(0, len(flips), 80):
                run(mix(flips[a:a + 80], good), rng.choice((None, 3)), rng.choice(("direct", "socket")))
            # bursts
            bursts = []
            for _ in range(20):
                b = bytearray(f)
                a = rng.randrange(len(b))
                for i in range(a, min(len(b), a + rng.randrange(1, 6))):
                    b[i] = rng.randrange(256)
                bursts.append(bytes(b))
            # truncations and extensions
            cuts = [f[:n] for n in range(len(f))]
            ext = [f + bytes(rng.randrange(256) for _ in range(n)) for n in range(1, 8)] + [f + bytes(n) for n in range(1, 8)]
            run(mix(bursts + cuts + ext, good), rng.choice((None, 3)), rng.choice(("direct", "socket")))
            # counts
            cnt = []
            for n in (0, 1, 2, 3, 4, 5, 8, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1):
                b = bytearray(f)
                b[11:15] = struct.pack("!I", n)
                cnt.append(bytes(b))
            run(mix(cnt, good), 3, "socket")
            # element identifiers and types
            ids = []
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65535):
                b = bytearray(f)
                b[15:17] = struct.pack("!H", n)
                ids.append(bytes(b))
            for t in range(256):
                if t < 8 or t % 16 == 0:
                    b = bytearray(f)
                    b[2] = t
                    ids.append(bytes(b))
            run(mix(ids, good), 3, rng.choice(("direct", "socket")))

# a re-computed checksum doesn't make nonsense intelligible
from zlib import crc32
for _ in range(ctx.n(8, 80)):
    bad = []
    for _ in range(30):
        b = bytearray(make(rng.choice(KINDS), crc=False))
        for _ in range(rng.randrange(1, 3)):
            b[rng.randrange(2, len(b))] = rng.randrange(256)
        bad.append(bytes(b) + struct.pack("!I", crc32(bytes(b))))
    run(mix(bad, [make(k) for k in KINDS]), rng.choice((None, 3)), rng.choice(("direct", "socket")))
# foreign applications; no expectation; garbage
for _ in range(ctx.n(8, 80)):
    fs = [make(rng.choice(KINDS + ("invalid",)), rng.randrange(0, 8), crc=rng.random() < 0.7) for _ in range(30)]
    fs += [bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40))) for _ in range(10)]
    rng.shuffle(fs)
    run(fs, rng.choice((None, 0, 3, 5)), rng.choice(("direct", "socket")))

t0 = next(t for t in ctx.batches[("TraceClient", None)]["traces"] if any(e["op"] == "frame" and e["out"] for e in t["ev"]))
bad = copy.deepcopy(t0)
for e in bad["ev"]:
    if e["op"] == "frame" and e["out"]:
        e["out"] = e["out"] * 2
        break
ctx.add("TraceClient", bad["ev"], bad["cfg"], canary=True)
ctx.finish()

"""Frames of every kind for one registry (shared by several drivers)."""
import struct
from zlib import crc32
from values import rand_value

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.enums.primitive import Primitive
from vtelem.frame.framer import Framer
from vtelem.frame.message import MessageFrame

REG = [("u8", Primitive.UINT8, False), ("i16", Primitive.INT16, False), ("flag", Primitive.BOOLEAN, False),
       ("f", Primitive.FLOAT, False), ("u64", Primitive.UINT64, False), ("s", Primitive.UINT16, True),
       ("d", Primitive.DOUBLE, False), ("s8", Primitive.INT8, True)]
REGCFG = [{"name": n, "type": p.value.name, "stream": s} for n, p, s in REG]
KINDS = ("data", "event", "message", "stream")


def registry():
    return ChannelRegistry([Channel(n, p, 1.0, is_stream=s) for n, p, s in REG])


def rand_for(rng, p):
    return rand_value(p, rng)


def make(rng, kind, app=3, den=8, crc=True):
    fr = Framer(120, app / den, crc)
    t = rng.randrange(1 << 20) / 1024
    if kind in ("data", "event"):
        f = fr.new_frame(kind, t)
        for _ in range(rng.randrange(1, 4)):
            i = rng.choice([k for k, r in enumerate(REG) if not r[2]])
            p = REG[i][1]
            v, w = rand_value(p, rng), rand_value(p, rng)
            if kind == "data":
                f.add(i, p, v)
            else:
                f.add_event(i, p, (v, 1.0), (w, 2.0))
        f.finalize()
        return bytes(f.raw[0])
    if kind == "message":
        f = fr.new_frame("message", t)
        frag = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
        f.initialize(MessageFrame.create_fields({"message_type": rng.randrange(0, 9), "message_number": rng.randrange(65536),
                                                 "message_crc": rng.randrange(1 << 32), "fragment_index": 0,
                                                 "total_fragments": 3}), frag)
        f.finalize()
        return bytes(f.raw[0])
    i = rng.choice((5, 7))
    n = rng.randrange(0, 4)
    b = struct.pack("!HBQI", int(65535 * app / den), 4, 12345, n) + struct.pack("!HI", i, rng.randrange(1 << 32))
    b += bytes(rng.randrange(256) for _ in range(n * REG[i][1].value.size))
    return b + (struct.pack("!I", crc32(b)) if crc else b"")

"""C01: construction, layout and decoding of data and event frames."""
import copy
from common import Ctx, guard, end
from values import value, typed, tm, ubytes, extremes, rand_value, parsed

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.enums.primitive import Primitive
from vtelem.frame.framer import Framer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.classes.type_primitive import new_default

ctx = Ctx()
rng = ctx.rng
PRIMS = list(Primitive)
BYNAME = {p.value.name: p for p in PRIMS}


def registry(prims):
    chans = [Channel("ch%d" % i, p, 1.0) for i, p in enumerate(prims)]
    return chans, ChannelRegistry(chans), [{"name": c.name, "type": c.type.value.name, "stream": False} for c in chans]


class Run:
    def __init__(self, prims, num=1, den=2, neg=False, use_crc=True):
        self.chans, self.reg, self.regcfg = registry(prims)
        self.ev = []
        self.use_crc = use_crc
        basis = num / den
        self.framer = Framer(1000, -basis if neg else basis, use_crc)
        self.app = self.framer.primitives["app_id"].get()
        self.ev.append({"op": "framer", "num": num, "den": den, "app": ubytes(self.app, 2)})

    def new(self, mtu, kind, time):
        self.framer.mtu = mtu
        e = {"op": "new", "mtu": mtu, "crc": self.use_crc, "kind": kind, "timed": time is not None,
             "time": tm(time if time is not None else 0.0)}
        try:
            self.f = self.framer.new_frame(kind, time)
            e["ok"] = True
        except AssertionError:
            e["ok"] = False
        self.ev.append(e)
        return e["ok"]

    def add(self, i, v):
        p = self.chans[i].type
        ok = self.f.add(i, p, v)
        self.ev.append({"op": "add", "id": i, "v": typed(p, v), "ok": bool(ok), "left": self.f.space})
        return ok

    def event(self, i, pv, pt, v, t):
        p = self.chans[i].type
        ok = self.f.add_event(i, p, (pv, pt), (v, t))
        self.ev.append({"op": "event", "id": i, "pv": typed(p, pv), "pt": tm(pt), "v": typed(p, v), "t": tm(t),
                        "ok": bool(ok), "left": self.f.space})
        return ok

    def raw(self):
        data, size = self.f.raw
        return list(data), size

    def fin(self, random=False):
        self.f.finalize(not random)
        data, used = self.raw()
        self.ev.append({"op": "fin", "bytes": data, "used": used, "random": random})

    def again(self):
        n = self.f.finalize()
        self.ev.append({"op": "again", "bytes": self.raw()[0], "used": n})

    def pad(self, n):
        if n is None:
            n = self.f.mtu - self.raw()[1]
            self.f.pad_to_mtu()
            amt = self.raw()[1] - len(self.ev[-1].get("bytes", []))
            amt = n
        else:
            amt = self.f.pad(n)
        self.ev.append({"op": "pad", "want": n, "amount": amt, "bytes": self.raw()[0]})

    def sized(self):
        data, size = self.f.with_size_header()
        self.ev.append({"op": "sized", "bytes": list(data), "size": size})

    def decode(self, expected=None):
        data, size = self.f.raw
        exp = None
        if expected is not None:
            exp = new_default("id")
            exp.set(expected)
        # a fresh registry with the same content
        res = decode_frame(ChannelRegistry([Channel(c.name, c.type, 1.0) for c in self.chans]), bytes(data), size, exp)
        self.ev.append({"op": "decode", "expected": [] if expected is None else ubytes(expected, 2), "out": parsed(res)})

    def finish(self):
        self.ev.append(end())
        ctx.add("TraceCodec", self.ev, {"reg": self.regcfg})


def rtime():
    return rng.choice((0.0, 0.5, 1.25, 1700000000.0, 1700000000.0 + rng.randrange(1024) / 1024, rng.randrange(4096) / 1024,
                       4294967.295 // 1, 4294967.0 + 303 / 1024, 2.0 ** 40))


def replay(hist, kind):
    names = [h[1] for h in hist if h[0] == "add"] or ["int8"]
    r = Run([BYNAME[n] for n in names], rng.choice((0, 1, 3, 5)), 8, use_crc=hist[0][2] == "crc")
    with guard(r.ev):
        if r.new(int(hist[0][1]), kind, rtime()):
            k = 0
            for h in hist[1:]:
                if h[0] == "add":
                    p = r.chans[k].type
                    if kind == "data":
                        r.add(k, rand_value(p, rng))
                    else:
                        r.event(k, rand_value(p, rng), rtime(), rand_value(p, rng), rtime())
                    k += 1
            r.fin()
            r.sized()
            r.decode()
            r.decode(r.app)
            r.decode((r.app + 1) % 65536)
            if hist[-1][0] == "fin":
                if kind == "data":
                    r.add(0, rand_value(r.chans[0].type, rng))
                else:
                    r.event(0, rand_value(r.chans[0].type, rng), 0.0, rand_value(r.chans[0].type, rng), 1.0)
                r.pad(rng.choice((0, 1, 3, 4, 5, 100, None)))
                r.decode()
                r.again()
                r.sized()
    r.finish()


def plan(g, frac):
    g = list(g)
    if not ctx.thorough:
        g = rng.sample(g, min(len(g), frac))
    return g


for h in plan(ctx.gen.get("data", []), 700):
    replay(h, "data")
for h in plan(ctx.gen.get("event", []), 300):
    replay(h, "event")

# every type, every extreme value, exact fit and one byte short
for p in PRIMS:
    for crc in (True, False):
        base = 15 + (4 if crc else 0)
        for kind in ("data", "event"):
            need = 2 + p.value.size if kind == "data" else 2 + 2 * p.value.size + 16
            for copies in (1, 2):
                for slack in (-1, 0, 1):
                    r = Run([p], use_crc=crc)
                    with guard(r.ev):
                        if r.new(base + need * copies + slack, kind, 3.5):
                            ex = extremes(p)
                            for c in range(copies + 1):
                                v = ex[(c + slack) % len(ex)]
                                if kind == "data":
                                    r.add(0, v)
                                else:
                                    r.event(0, ex[c % len(ex)], 1.5, v, rtime())
                            r.fin()
                            r.decode()
                            r.sized()
                    r.finish()
    ex = extremes(p)
    for kind in ("data", "event"):
        r = Run([p, Primitive.UINT8], 1 << rng.randrange(4), 1 << rng.randrange(4), neg=True)
        with guard(r.ev):
            r.new(15 + 4 + 40 * len(ex) + 10, kind, rtime())
            for i, v in enumerate(ex):
                if kind == "data":
                    r.add(0, v)
                else:
                    r.event(0, ex[i - 1], rtime(), v, rtime())
            r.fin()
            r.decode()
            r.sized()
        r.finish()

# frames too small for their own header
for crc in (True, False):
    for mtu in range(13, 22):
        r = Run([Primitive.INT8], use_crc=crc)
        with guard(r.ev):
            if r.new(mtu, "data", 1.0):
                r.add(0, 5)
                r.fin()
                r.decode()
        r.finish()

# larger mixed frames, several frames of one framer (a frame without a time keeps the last one)
for k in range(ctx.n(120, 3000)):
    prims = [rng.choice(PRIMS) for _ in range(rng.randrange(1, 12))]
    r = Run(prims, rng.choice((0, 1, 7, 64, 1, 3)), 64, use_crc=rng.random() < 0.7)
    with guard(r.ev):
        for _ in range(rng.randrange(1, 4)):
            kind = rng.choice(("data", "event"))
            if not r.new(rng.randrange(17, 160), kind, rtime() if rng.random() < 0.7 else None):
                continue
            for _ in range(rng.randrange(0, 14)):
                i = rng.randrange(len(prims))
                if kind == "data":
                    r.add(i, rand_value(prims[i], rng))
                else:
                    r.event(i, rand_value(prims[i], rng), rtime(), rand_value(prims[i], rng), rtime())
            r.fin(rng.random() < 0.1)
            r.decode(rng.choice((None, r.app, r.app ^ 1)))
            if rng.random() < 0.4:
                r.pad(rng.randrange(0, 30))
                r.decode()
            r.sized()
    r.finish()

# identifiers above one byte
r = Run([Primitive.UINT8] * 300)
with guard(r.ev):
    r.new(200, "data", 9.0)
    for i in (0, 255, 256, 299):
        r.add(i, i % 256)
    r.fin()
    r.decode()
r.finish()

ts = ctx.batches[("TraceCodec", None)]["traces"]
t0 = next(t for t in ts if any(e["op"] == "decode" and not e["out"]["none"] and e["out"]["items"] for e in t["ev"]))
for what in ("bytes", "item"):
    bad = copy.deepcopy(t0)
    for e in bad["ev"]:
        if what == "bytes" and e["op"] == "fin":
            e["bytes"][-1] ^= 1
            break
        if what == "item" and e["op"] == "decode" and not e["out"]["none"]:
            e["out"]["ts"][-1] ^= 1
            break
    ctx.add("TraceCodec", bad["ev"], bad["cfg"], canary=True)
ctx.finish()

"""C02, C03, C04: a telemetry environment driven from one thread."""
import copy
import math
import struct
import threading
from common import Ctx, guard, end
import sched
sched.install()
from values import value, typed, ubytes, extremes, rand_value, FLOATS

from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
PRIMS = list(Primitive)
T = 1024.0


def ticks(t):
    if not isinstance(t, (int, float)) or t * 1024 != int(t * 1024) or abs(t * 1024) >= 1 << 31:
        return -1
    return int(t * 1024)


def cand(v):
    if isinstance(v, (bool, int, float)):
        return value(v)
    return {"k": "other"}


ZERO = value(0)


class Run:
    def __init__(self, mtu=200, crc=True, metrics=None, plain=False, initial=()):
        self.ev = []
        self.initial = [Channel(*a) for a in initial]
        cls = ChannelEnvironment if plain else TelemetryEnvironment
        self.env = cls(mtu, metrics_rate=metrics, app_id_basis=0.25, use_crc=crc, initial_channels=self.initial or None)
        self.metrics = metrics is not None
        self.base = self.env.channel_registry.count()
        self.chans = [self.env.channel_registry.get_item(i) for i in range(self.base)]
        self.cfg = {"mtu": mtu, "crc": crc, "app": ubytes(self.env.app_id.get(), 2),
                    "chans": [{"name": c.name, "type": c.type.value.name, "rate": ticks(c.rate),
                               "tracked": c.changed_cb is not None, "cmd": c.commandable} for c in self.chans]}
        self.names = {}

    def chan(self, i):
        return self.chans[i - 1]

    def state(self, e, i):
        c = self.chan(i)
        e["v"], e["at"] = typed(c.type, c.get()), ticks(c.last_set)
        return e

    def add(self, name, prim, rate, tracked, cmd=True, initial=None):
        """initial: None or (value, time or None)"""
        e = {"op": "add", "name": name, "type": prim.value.name, "rate": ticks(rate), "tracked": tracked, "cmd": cmd,
             "init": initial is not None, "c": cand(initial[0]) if initial else ZERO,
             "time": ticks(initial[1] or 0.0) if initial else 0, "id": 0}
        try:
            i = self.env.add_channel(name, prim, rate, tracked, initial, cmd)
            e["ok"] = True
            e["id"] = i
            self.chans.append(self.env.channel_registry.get_item(i))
            self.names[name] = len(self.chans)
        except (AssertionError, TypeError):
            e["ok"] = False
        self.ev.append(e)
        return len(self.chans) if e["ok"] else None

    def put(self, i, v, how="set", time=None, add=False):
        """how: set, now, command (direct), name, id; i is 1-based, 0: no such channel"""
        e = {"op": "put", "i": i, "how": how, "add": add, "c": cand(v), "sum": ZERO,
             "time": ticks(time) if time is not None else 0}
        if i:
            c = self.chan(i)
            if add:
                e["sum"] = cand(c.get() + v)
        if how == "set":
            ok = c.add(v, time) if add else c.set(v, time)
        elif how == "now":
            ok = self.env.set_now(i - 1, v)
        elif how == "command":
            ok = c.command(v, time, add)
        elif how == "name":
            ok = self.env.command_channel(c.name if i else "no such channel", v)
        else:
            try:
                ok = self.env.command_channel_id(i - 1 if i else 40000, v)
            except AssertionError:
                if i:
                    raise
                ok = False
        e["ok"] = bool(ok)
        if i:
            self.state(e, i)
        self.ev.append(e)
        return ok

    def read(self, i):
        self.ev.append(self.state({"op": "read", "i": i}, i))

    def drain(self):
        res = []
        while not self.env.frame_queue.empty():
            f = self.env.get_next_frame()
            d, n = f.raw
            res.append(list(d[:n]) if len(d) == n else list(d))
        return res

    def dispatch(self, time=None):
        n = self.env.dispatch_now(should_log=False) if time is None else self.env.dispatch(time, rng.random() < 0.5)
        self.ev.append({"op": "dispatch", "isnow": time is None, "time": 0 if time is None else ticks(time), "n": n,
                        "frames": self.drain()})
        if self.metrics and rng.random() < 0.5:
            self.metric()

    def metric(self):
        g = self.env.get_metric
        self.ev.append({"op": "metrics", "emits": g("emits_captured"), "events": g("events_captured"),
                        "dispatches": g("dispatch_count"), "channels": g("channel_count"),
                        "elements": g("frame_queue.elements"), "enqueued": g("frame_queue.total_enqueued"),
                        "dequeued": g("frame_queue.total_dequeued")})

    def settime(self, t):
        self.env.set_time(t)
        self.ev.append({"op": "time", "time": ticks(t)})

    def rate(self, i, r):
        self.env.set_channel_rate(i - 1, r)
        self.ev.append({"op": "rate", "i": i, "rate": ticks(r)})

    def mtu(self, m):
        self.env.handle_new_mtu(m)
        self.ev.append({"op": "mtu", "mtu": m})

    def finish(self):
        self.ev.append(end())
        ctx.add("TraceEmission", self.ev, self.cfg)


def replay(h, variant):
    """A generated behaviour; types, sizes and scale vary with the variant."""
    pa, pb = rng.choice(PRIMS), rng.choice(PRIMS)
    need = 19 + 18 + 2 * 8
    r = Run(mtu=need + 40, crc=bool(variant % 2), metrics=0.75 if variant % 3 == 2 else None, plain=variant % 5 == 0)
    with guard(r.ev):
        a = r.add("a", pa, 1.0, True)
        b = r.add("b", pb, 700 / T, True)
        va = extremes(pa)
        vb = [v for v in extremes(pb) if v]
        k = 0
        for n, (op, x, y) in enumerate(h):
            now = 512 * (n + 1) / T
            if op == "set":
                if x == "1":
                    r.put(a, va[0] if y == "0" else va[1 + variant % (len(va) - 1)], time=now)
                else:
                    r.put(b, vb[variant % len(vb)], time=now)
            elif op == "dispatch":
                r.dispatch(int(x) / T)
            else:
                r.mtu(need - 8 if max(pa.value.size, pb.value.size) <= 4 else need)
        r.dispatch(9999.0)
        r.read(a)
        r.read(b)
    r.finish()


def big(metrics, steps, kinds, tracked=0.5, mtus=(60, 90, 130, 300)):
    """A longer random history."""
    mtu = rng.choice(mtus)
    init = []
    if rng.random() < 0.3:
        init = [("init%d" % k, rng.choice(PRIMS), rng.choice((0.0, 0.5, 1.0))) for k in range(rng.randrange(1, 4))]
    r = Run(mtu, rng.random() < 0.6, metrics, rng.random() < 0.3, initial=init)
    nodes = []
    t = 0.0
    with guard(r.ev):
        for k in range(rng.randrange(1, 9)):
            p = rng.choice(PRIMS)
            initial = None
            if rng.random() < 0.5:
                initial = (rand_value(p, rng), rng.choice((None, 0.5, 2.0)))
            nodes.append(r.add("n%d" % k, p, rng.choice((0.0, 0.25, 0.5, 1.0, 1.0, 2.5, 100.0)), rng.random() < tracked,
                               rng.random() < 0.8, initial))
        if rng.random() < 0.3:
            r.add("n0", rng.choice(PRIMS), 1.0, True, True, (rng.choice((True, 1, 1.5)), 1.0))
        for _ in range(steps):
            k = rng.choice(kinds)
            i = rng.choice(nodes)
            c = r.chan(i)
            if k == "set":
                r.put(i, rand_value(c.type, rng), rng.choice(("set", "now", "command", "name", "id")),
                      rng.choice((None, t, t + 0.25)))
            elif k == "same":
                r.put(i, c.get(), rng.choice(("set", "now", "name")), t)
            elif k == "toggle":
                v = extremes(c.type)
                r.put(i, rng.choice(v[:2]), "set", t)
            elif k == "bad":
                r.put(i, bad_value(c.type), rng.choice(("set", "now", "command", "name", "id")), t)
            elif k == "add":
                amount(r, i, t)
            elif k == "unknown":
                r.put(0, rng.choice((1, True, 1.0)), rng.choice(("name", "id")))
            elif k == "time":
                t += rng.choice((0.0, 0.25, 0.5, 1.0, 5.0, -0.25))
                t = max(0.0, t)
                r.settime(t)
            elif k == "dispatch":
                r.dispatch(None if rng.random() < 0.5 else max(0.0, t + rng.choice((0.0, 0.25, -0.5, 1.0))))
            elif k == "rate":
                r.rate(i, rng.choice((0.0, 0.25, 1.0, 3.0)))
            elif k == "mtu":
                r.mtu(max(19 + 18 + 16, rng.choice((54, 58, 70, 100, 400))))
            elif k == "read":
                r.read(i)
            elif k == "register":
                j = r.add("m%d" % rng.randrange(6), rng.choice(PRIMS), 1.0, rng.random() < tracked, True,
                          rng.choice((None, (1, 1.0), (True, None), (2.5, 2.0), ("x", 1.0), (300, 1.0))))
                if j:
                    nodes.append(j)
        r.settime(t + 1)
        r.dispatch()
        r.dispatch(t + 200.0)
        if metrics:
            r.metric()
        for i in nodes:
            r.read(i)
    r.finish()


def bad_value(p):
    name = p.value.name
    if name == "boolean":
        return rng.choice((0, 1, 0.0, "true", None, 2))
    if name == "float":
        return rng.choice((1e39, -1e300, 3.4028235677973366e38, 1, True, "1.0", None))
    if name == "double":
        return rng.choice((0, 1, True, "0.0", None))
    ex = extremes(p)
    return rng.choice((min(ex) - 1, max(ex) + 1, 1.0, "3", None, 1 << 70, -(1 << 66), 0.5, float("nan")))


def amount(r, i, t):
    c = r.chan(i)
    name = c.type.value.name
    if name == "boolean":
        v = rng.choice((True, False, 1, 0.5))
    elif name in ("float", "double"):
        v = rng.choice((0.5, -1.25, 1e38, 3e38, 1, True, 1e308, float("inf")))
    else:
        ex = extremes(c.type)
        v = rng.choice((1, -1, 0, True, max(ex) - c.get(), max(ex) - c.get() + 1, min(ex) - c.get(), min(ex) - c.get() - 1, 0.5, 1 << 64))
    r.put(i, v, rng.choice(("set", "command")), t, add=True)


gen = ctx.gen.get("gen", [])
prop = ctx.prop
if gen:
    g = gen if ctx.thorough else rng.sample(gen, min(len(gen), 700))
    for k, h in enumerate(g):
        replay(h, k)

if prop == "C02":
    for k in range(ctx.n(150, 3000)):
        big(rng.choice((None, None, 0.5, 1.0, 0.0)), rng.randrange(10, 45),
            ("set", "dispatch", "dispatch", "time", "rate", "mtu", "register", "read"), tracked=0.2)
    # boundaries: as many channels of each type as exactly fit, one more, one fewer, with and without checksum
    for p in PRIMS:
        for crc in (True, False):
            for n in (1, 2, 3, 4, 5):
                for slack in (-1, 0, 1):
                    each = 2 + p.value.size
                    mtu = max(15 + 4 * crc + 2 * each + slack, 15 + 4 * crc + each)
                    r = Run(mtu, crc, None)
                    with guard(r.ev):
                        ids = [r.add("c%d" % k, p, 0.5 * (k + 1), False) for k in range(n)]
                        for k, i in enumerate(ids):
                            ex = extremes(p)
                            r.put(i, ex[k % len(ex)])
                        for t in (0.25, 0.5, 1.0, 1.25, 1.5, 2.0, 3.0, 2.0):
                            r.dispatch(t)
                    r.finish()
elif prop == "C21":
    for k in range(ctx.n(150, 3000)):
        big(rng.choice((1.0, 0.5, 0.25)), rng.randrange(15, 60),
            ("set", "toggle", "dispatch", "dispatch", "time", "mtu", "register", "unknown"), tracked=0.5)
elif prop == "C03":
    for k in range(ctx.n(150, 3000)):
        big(rng.choice((None, None, None, 1.0)), rng.randrange(15, 60),
            ("set", "toggle", "toggle", "same", "bad", "add", "dispatch", "time", "mtu", "register", "unknown"), tracked=0.8)
    # the capacity of the pending events
    for extra in (-1, 0, 1, 40):
        for p in (Primitive.UINT16, Primitive.BOOLEAN, Primitive.DOUBLE):
            r = Run(2000, True, None)
            with guard(r.ev):
                a, b = r.add("a", p, 1000.0, True), r.add("b", Primitive.INT8, 1000.0, True)
                for k in range(256 + extra):
                    if k == 5:
                        r.put(b, 1, time=1.0)
                    elif p == Primitive.BOOLEAN:
                        r.put(a, k % 2 == 0, time=k / 4)
                    elif p == Primitive.DOUBLE:
                        r.put(a, float(k + 1), time=k / 4)
                    else:
                        r.put(a, k + 1, time=k / 4)
                r.read(a)
                r.dispatch(10.0)
                r.put(b, 7, time=11.0)
                r.put(a, r.chan(a).get(), time=12.0)
                r.dispatch(11.0)
                r.dispatch(12.0)
            r.finish()
elif prop == "C04":
    for p in PRIMS:
        for how in ("set", "now", "command", "name", "id"):
            for cmd in (True, False):
                r = Run(200, True, None)
                with guard(r.ev):
                    i = r.add("c", p, 0.0, True, cmd)
                    seq = list(extremes(p))
                    bads = {"boolean": (0, 1, 0.0, "true", None), "float": (1e39, -1e39, 3.4028235677973366e38, 1, "1.0", None),
                            "double": (0, 1, "0.0", None)}.get(
                        p.value.name, (min(seq) - 1, max(seq) + 1, 1.0, "3", None, 1 << 64, 1 << 70, -(1 << 66), True))
                    vals = seq + list(bads)
                    rng.shuffle(vals)
                    for k, v in enumerate(vals):
                        r.settime(float(k))
                        r.put(i, v, how, k / 2)
                        if k % 3 == 0:
                            r.dispatch(k + 1.0)
                    r.dispatch(500.0)
                    r.read(i)
                r.finish()
    for k in range(ctx.n(200, 4000)):
        big(None, rng.randrange(15, 60), ("set", "bad", "add", "add", "unknown", "time", "dispatch", "read", "register"), tracked=0.3)



class Conc:
    """A dispatcher, setters of distinct channels, and possibly a registration."""

    def __init__(self, progs, tracked):
        self.env = TelemetryEnvironment(64, app_id_basis=0.25)
        self.ev = []
        self.progs = progs
        spec = [("a", Primitive.INT16, 0.0), ("b", Primitive.UINT8, 1.0), ("c", Primitive.DOUBLE, 0.0)]
        for n, p, r in spec:
            self.env.add_channel(n, p, r, tracked)
        self.chans = [self.env.channel_registry.get_item(k) for k in range(len(spec))]
        self.cfg = {"mtu": 64, "crc": True, "app": ubytes(self.env.app_id.get(), 2), "threads": len(progs) + 1,
                    "chans": [{"name": n, "type": p.value.name, "rate": ticks(r), "tracked": tracked, "cmd": True}
                              for n, p, r in spec]}

    def frames(self):
        res = []
        while not self.env.frame_queue.empty():
            d, n = self.env.get_next_frame().raw
            res.append(list(d[:n]))
        return res

    def dispatch(self, t, time):
        self.ev.append({"op": "call", "t": t, "what": "dispatch", "time": ticks(time)})
        n = self.env.dispatch(time, False)
        fr = sched.event(self.frames)
        self.ev.append({"op": "ret", "t": t, "n": n, "frames": fr})

    def body(self, t):
        for a in self.progs[t - 1]:
            if a[0] == "dispatch":
                self.dispatch(t, a[1])
            elif a[0] == "add":
                self.ev.append({"op": "call", "t": t, "what": "add", "name": a[1], "type": a[2].value.name, "rate": 0,
                                "v": value(a[3]), "time": ticks(a[4])})
                i = self.env.add_channel(a[1], a[2], 0.0, True, (a[3], a[4]))
                self.ev.append({"op": "ret", "t": t, "n": i, "frames": []})
            else:
                c = self.chans[a[1] - 1]
                self.ev.append({"op": "call", "t": t, "what": "set", "i": a[1], "v": typed(c.type, a[2]), "time": ticks(a[3])})
                if a[0] == "set":
                    c.set(a[2], a[3])
                else:
                    c2 = self.env
                    c2.command_channel(c.name, a[2])
                self.ev.append({"op": "ret", "t": t, "n": 0, "frames": []})

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(k + 1,), name="t%d" % k) for k in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.dispatch(len(self.progs) + 1, 50.0)


if prop in ("C02", "C03"):
    D = [("dispatch", 1.0), ("dispatch", 2.0)]
    progs = [
        [D, [("set", 1, 5, 0.5), ("set", 1, 6, 0.75), ("set", 2, 7, 1.0)]],
        [D, [("set", 1, 5, 0.5), ("command", 3, 2.5, 0.0)], [("command", 2, 9, 0.0), ("set", 2, 3, 1.5)]],
        [D, [("set", 2, 1, 0.5)], [("add", "z", Primitive.INT32, -4, 0.25)]],
    ]
    runs = 0
    for pr in progs:
        order = ["t%d" % k for k in reversed(range(len(pr)))]
        for desc, o, res in sched.explore(lambda: Conc(pr, True), rng, ctx.n(110, 2500), orders=(None, order)):
            runs += 1
            if res.deadlock or res.livelock:
                o.ev.append({"op": "hang", "what": str(res.deadlock)})
            for n, e in res.errors:
                o.ev.append({"op": "crash", "what": "%s: %r" % (n, e)})
            if res.main_exc is not None and not res.deadlock:
                o.ev.append({"op": "crash", "what": repr(res.main_exc)})
            o.ev.append(end())
            ctx.add("TraceEmissionConc", o.ev, dict(o.cfg, schedule=str(desc)))
    ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceEmission", None)]["traces"]
for what in ("frame", "ok", "value"):
    for t in ts:
        bad = copy.deepcopy(t)
        hit = False
        for e in bad["ev"]:
            if what == "frame" and e["op"] == "dispatch" and e["frames"]:
                e["frames"][0][-6] ^= 1
                hit = True
            elif what == "ok" and e["op"] == "put" and not e["ok"]:
                e["ok"] = True
                hit = True
            elif what == "value" and e["op"] in ("put", "read") and e["i"]:
                e["at"] += 1
                hit = True
            if hit:
                break
        if hit:
            ctx.add("TraceEmission", bad["ev"], bad["cfg"], canary=True)
            break
ctx.finish()

"""C16: channel groups."""
import copy
import threading
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
COLORS = {1: "red", 2: "green", 5: "blue", 200: "black"}
PRIMS = {Primitive.UINT8: (0, 1, 7, 255), Primitive.INT16: (-32768, -1, 0, 9, 32767), Primitive.UINT32: (0, 5, 2 ** 32 - 1), Primitive.UINT64: (0, 2 ** 64 - 1),
         Primitive.BOOLEAN: (True, False), Primitive.DOUBLE: (0.0, -1.5, 1e300), Primitive.FLOAT: (0.5, -2.0, 0.0)}
BAD = {Primitive.UINT8: 256, Primitive.INT16: 40000, Primitive.UINT32: -1, Primitive.UINT64: "x", Primitive.BOOLEAN: "no", Primitive.DOUBLE: "1.5", Primitive.FLOAT: 1e300}


def show(v):
    return "%s:%s" % (type(v).__name__, v)


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


class World:
    def __init__(self, threads=0, mtu=200, metrics=None):
        self.ev = []
        self.env = TelemetryEnvironment(mtu, metrics_rate=metrics, app_id_basis=0.5)
        self.env.add_enum(user_enum("color", dict(COLORS)))
        self.reg = ChannelGroupRegistry(self.env)
        self.kinds = {}
        self.groups, self.chans = {}, {}    # name -> id; full name -> (group, short, kind)
        self.cfg = {"threads": 1 + threads, "growing": False}
        self.k = 0

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def group(self, name):
        e = {"op": "group", "g": name, "ok": True, "id": -1}
        try:
            e["id"] = self.reg.create_group(name)
            self.groups[name] = e["id"]
        except AssertionError:
            e["ok"] = False
        self.log(**e)

    def add(self, g, short, kind, tracked=False, through=True):
        """kind: a Primitive or the name of an enum"""
        full = "%s.%s" % (g, short)
        inst = self.reg.get_item(self.groups[g])
        had = short in inst.channels
        first = show("red") if isinstance(kind, str) else show(False) if kind == Primitive.BOOLEAN else show(0.0) if kind.value.type is float else show(0)
        self.log(op="adding", g=g, c=full, v=first, valid=kind != "nosuchenum")
        self.kinds[full] = kind if full not in self.kinds else self.kinds[full]
        if isinstance(kind, str):
            ok = inst.add_enum_channel(short, kind, 0.0, tracked)
        else:
            ok = inst.add_channel(short, kind, 0.0, tracked)
        e = {"op": "add", "g": g, "c": full, "ok": bool(ok), "id": -1, "valid": kind != "nosuchenum"}
        if ok:
            e["id"] = self.env.channel_registry.get_id(full)
            self.chans[full] = (g, short, kind)
        self.log(**e)
        return had

    def value(self, full):
        kind = self.chans[full][2]
        return rng.choice(list(COLORS.values())) if isinstance(kind, str) else rng.choice(PRIMS[kind])

    def members(self, g):
        return [c for c in self.chans if self.chans[c][0] == g]

    def access(self, g, change, fail=None, body_fails=False):
        """with registry.group(g) as data: data.update(change)"""
        t = thread_no()
        w = {}
        self.log(op="call", t=t, what="read", g=g, w={"none": {"v": "", "ok": False}}, maybe=False, fails=False)
        ok, entered = True, False
        try:
            with self.reg.group(self.groups[g]) as data:
                entered = True
                self.log(op="ret", t=t, ok=True, got={"%s.%s" % (g, k): show(v) for k, v in data.items()})
                for full, v in change.items():
                    data[self.chans[full][1]] = v
                if fail:
                    data[fail[0]] = fail[1]
                for k, v in data.items():
                    full = "%s.%s" % (g, k)
                    kind = self.kinds.get(full)
                    good = kind is not None and (v in COLORS.values() if isinstance(kind, str) else v in PRIMS[kind] or v == 0)
                    w[full] = {"v": show(v), "ok": bool(good)}
                self.log(op="call", t=t, what="write", g=g, w=w or {"none": {"v": "", "ok": False}}, maybe=body_fails, fails=bool(fail) and fail[2])
                if body_fails:
                    raise ZeroDivisionError()
        except ZeroDivisionError:
            ok = True
        except (AssertionError, KeyError, AttributeError):
            if not entered:
                raise
            ok = False
        self.log(op="ret", t=t, ok=ok, got={"none": ""})

    def single(self, full, v, how):
        t = thread_no()
        kind = self.chans[full][2]
        self.log(op="call", t=t, what="write", g="", w={full: {"v": show(v), "ok": True}}, maybe=False, fails=False)
        i = self.env.channel_registry.get_id(full)
        if isinstance(kind, str):
            ok = self.env.set_enum_now(i, v) if how else self.env.command_enum_channel(full, v)
        else:
            ok = self.env.set_now(i, v) if how else self.env.command_channel(full, v)
        self.log(op="ret", t=t, ok=bool(ok), got={"none": ""})

    def dispatch(self):
        t = thread_no()
        self.log(op="call", t=t, what="dispatch", g="", w={"none": {"v": "", "ok": False}}, maybe=False, fails=False)
        self.env.dispatch(float(self.k), False)
        got = {}
        while not self.env.frame_queue.empty():
            d, n = self.env.get_next_frame().raw
            f = self.env.decode_frame(d, n)
            for ch in (f.body.get("channels", []) if isinstance(f.body, dict) else []):
                name = ch["channel"].name
                if name in self.chans:
                    kind = self.chans[name][2]
                    got[name] = show(COLORS.get(ch["value"], ch["value"])) if isinstance(kind, str) else show(ch["value"])
        self.log(op="ret", t=t, ok=True, got=got or {"none": ""})

    def lookup(self):
        r = self.env.channel_registry
        self.log(op="lookup", names={g: self.reg.get_id(g) for g in self.groups}, items={g: self.reg.get_item(i).name for g, i in self.groups.items()},
                 chans={c: self.reg.get_item(self.groups[x[0]]).channels[x[1]]["id"] for c, x in self.chans.items()} or {"none": 0},
                 reg={c: r.get_id(c) if r.get_item(r.get_id(c)).name == c else -2 for c in self.chans} or {"none": 0})


def finish(o, res=None, desc=None):
    ev = o.ev
    if res is not None:
        if res.deadlock or res.livelock:
            ev.append({"op": "hang", "what": str(res.deadlock)})
        for n, e in res.errors:
            ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
        if res.main_exc is not None and not res.deadlock:
            ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceGroup", ev, dict(o.cfg, schedule=str(desc)))


def sequential(g):
    w = World(mtu=rng.choice((64, 120, 200)), metrics=rng.choice((None, 1.0)))

    def body(s):
        w.group("g")
        w.add("g", "p", Primitive.UINT8)
        w.add("g", "e", "color", rng.random() < 0.5)
        for k, what in enumerate(g):
            names = list(w.groups)
            gr = rng.choice(names)
            mem = w.members(gr)
            some = {c: w.value(c) for c in mem if rng.random() < 0.7}
            if what == "group":
                w.group("g%d" % len(w.groups) if rng.random() < 0.7 else gr)
            elif what == "add":
                w.add(gr, "n%d" % k, rng.choice(list(PRIMS)), rng.random() < 0.5)
            elif what == "enum":
                w.add(gr, "n%d" % k, "color" if rng.random() < 0.7 else "nosuchenum")
            elif what == "dup":
                if mem:
                    w.add(gr, w.chans[rng.choice(mem)][1], rng.choice((Primitive.BOOLEAN, "color")), True)
            elif what == "data":
                w.access(gr, some)
            elif what == "fail":
                w.access(gr, some, body_fails=True)
            elif what == "unknown":
                w.access(gr, some, ("nosuch%d" % k, 1, True))
            elif what == "bad":
                cs = [c for c in mem if not isinstance(w.chans[c][2], str)]
                if cs:
                    c = rng.choice(cs)
                    w.access(gr, some, (w.chans[c][1], BAD[w.chans[c][2]], False))
            elif what == "badenum":
                cs = [c for c in mem if isinstance(w.chans[c][2], str)]
                if cs:
                    w.access(gr, some, (w.chans[rng.choice(cs)][1], "nosuchcolor", True))
            elif what == "set":
                if mem:
                    c = rng.choice(mem)
                    w.single(c, w.value(c), rng.random() < 0.5)
            else:
                w.dispatch()
            w.lookup()
        for gr in list(w.groups):
            w.access(gr, {})
        w.dispatch()
        w.lookup()
    res = sched.Sched(sched.Policy(), lines=False).run(body)
    finish(w, res)


WORDS = ("group", "add", "add", "enum", "dup", "data", "data", "fail", "unknown", "bad", "badenum", "set", "dispatch")
for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.02:
        continue
    sequential(g)
for _ in range(ctx.n(200, 4000)):
    sequential([rng.choice(WORDS) for _ in range(rng.randrange(3, 25))])


class Conc(World):
    """Threads that write whole groups, read them, dispatch and grow them."""

    def __init__(self, progs, growing=False):
        super().__init__(len(progs), 80)
        self.progs = progs
        self.group("g")
        self.group("h")
        for s in ("a", "b", "c"):
            self.add("g", s, Primitive.UINT8)
        self.add("g", "e", "color")
        self.add("h", "a", Primitive.UINT32)
        self.add("h", "b", Primitive.BOOLEAN)
        self.cfg["growing"] = growing
        self.cfg["progs"] = str(progs)

    def op(self, w):
        if w[0] == "w":
            n = w[2]
            self.access(w[1], {c: (list(COLORS.values())[n % 4] if self.chans[c][2] == "color" else (0, 1, 7, 255)[n % 4] if self.chans[c][2] == Primitive.UINT8
                                   else (0, 5)[n % 2] if self.chans[c][2] == Primitive.UINT32 else n % 2 == 1) for c in sched.event(lambda: self.members(w[1]))})
        elif w[0] == "r":
            self.access(w[1], {})
        elif w[0] == "grow":
            self.add(w[1], w[2], Primitive.UINT8 if w[2] != "z" else "color")
        elif w[0] == "set":
            self.single(w[1], w[2], True)
        else:
            self.dispatch()

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.cfg_done = True
        self.op(("r", "g"))
        self.op(("d",))
        sched.event(self.lookup)


PROGS = [
    ([[("w", "g", 1), ("w", "g", 2)], [("d",), ("d",)]], False),
    ([[("w", "g", 1), ("r", "h")], [("w", "g", 2), ("w", "h", 3)]], False),
    ([[("w", "g", 1)], [("set", "g.b", 255), ("d",)], [("w", "h", 1)]], False),
    ([[("grow", "g", "y"), ("grow", "g", "z")], [("r", "g"), ("w", "g", 1)]], True),
    ([[("w", "g", 3)], [("r", "g"), ("r", "g")], [("d",)]], False),
]
runs = 0
for pr, growing in PROGS:
    for desc, o, res in sched.explore(lambda: Conc(pr, growing), rng, ctx.n(140, 4000), orders=(None, ["c1", "c0"]), two=0.4):
        runs += 1
        finish(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceGroup", None)]["traces"]
left = ["mix", "lost", "id"]
for t in ts:
    if not left:
        break
    b = copy.deepcopy(t)
    ev = b["ev"]
    w = left[-1]
    if w == "id":
        idx = [k for k, e in enumerate(ev) if e["op"] == "lookup" and "none" not in e["chans"]]
        if not idx:
            continue
        ev[idx[-1]]["chans"]["g.p"] = 999
    elif w == "lost":
        idx = [k for k, e in enumerate(ev) if e["op"] == "call" and e["what"] == "write" and not e["fails"] and not e["maybe"] and e["w"].get("g.p", {}).get("v", "int:0") not in ("int:0",)]
        if not idx or b["cfg"]["threads"] > 1:
            continue
        ev[idx[0]]["w"]["g.p"]["v"] = "int:99"
        nxt = ev[idx[0] + 1:idx[0] + 4]
        if [e["op"] for e in nxt] != ["ret", "call", "ret"] or not nxt[0]["ok"] or nxt[1]["what"] != "read" or "g.p" not in nxt[2]["got"]:
            continue
    else:
        if b["cfg"]["threads"] < 3:
            continue
        idx = [k for k, e in enumerate(ev) if e["op"] == "ret" and "h.a" not in e["got"] and e["got"].get("g.b") == "int:7" and e["got"].get("g.a") == "int:7"]
        if not idx:
            continue
        ev[idx[0]]["got"]["g.b"] = "int:1"
    left.pop()
    ctx.add("TraceGroup", ev, b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left
ctx.finish()

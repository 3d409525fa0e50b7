"""C24: enumerations, the registries that hold them and the channels that use them."""
import copy
import io
import json
import os
import tempfile
from enum import IntEnum
from common import Ctx, guard, end

from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.frame import FRAME_TYPES
from vtelem.enums.primitive import Primitive, get_name
from vtelem.registry.enum_retry import EnumRegistry as Described
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import MESSAGE_TYPES

ctx = Ctx()
rng = ctx.rng
TYPES = [get_name(p) for p in Primitive]


def codes(s):
    return [ord(c) for c in s]


def text(c):
    return "".join(map(chr, c))


def show(e):
    d = json.loads(e.json_str())
    names = list(e)
    return {"names": [codes(n) for n in names], "d": codes(e.default),
            "map": [{"v": int(k), "n": codes(v)} for k, v in d["mappings"].items()], "name": e.name}


def ms_of(e):
    return [{"v": int(k), "n": codes(v)} for k, v in json.loads(e.json_str())["mappings"].items()]


BASE = [{"name": e.name, "ms": [{"v": e.get_value(n), "n": codes(n)} for n in e], "d": codes(e.default)} for e in (FRAME_TYPES, MESSAGE_TYPES)]


def attempt(fn):
    """The result, or None when the operation reports that it can't."""
    try:
        return fn()
    except (AssertionError, KeyError, ValueError, LookupError):
        return None


class World:
    def __init__(self, metrics=False):
        self.ev = []
        self.env = TelemetryEnvironment(256, metrics_rate=1.0 if metrics else None, app_id_basis=0.5)
        self.slots = []
        self.desc = Described()
        self.chans = []
        self.n = 0

    def make(self, how, name, ms, d=()):
        ms = [dict(m) for m in ms]
        values = {m["v"]: text(m["n"]) for m in ms}
        if how == "type":
            d = ()
            if len({text(m["n"]) for m in ms}) < len(ms) or not ms:
                how = "values"
        default = text(d) if d else None

        def build():
            if how == "values":
                return user_enum(name, values, default)
            if how == "type":
                camel = "".join(p.title() for p in name.split("_"))
                return from_enum(IntEnum(camel, [(text(m["n"]), m["v"]) for m in ms]))
            data = {"name": name, "mappings": {str(k): v for k, v in values.items()}, "default": default, "type": "user_enum"}
            if how == "text":
                return user_enum("x", {0: "x"}).load_str(json.dumps(data))
            if how == "data":
                return UserEnum({"name": name, "mappings": dict(values), "default": default})
            fd, path = tempfile.mkstemp()
            with os.fdopen(fd, "w") as f:
                json.dump(data, f, indent=3)
            try:
                with open(path) as f:
                    return user_enum("x", {0: "x"}).load(f)
            finally:
                os.unlink(path)
        e = attempt(build) if values or how != "type" else None
        self.ev.append({"op": "make", "how": how, "ms": ms, "d": list(d), "ok": e is not None,
                        "show": show(e) if e is not None else {"none": 0}})
        if e is not None:
            self.slots.append(e)
        return len(self.slots) if e is not None else 0

    def show(self, s):
        self.ev.append({"op": "show", "s": s, "show": show(self.slots[s - 1])})

    def copy(self, s):
        e = self.slots[s - 1]
        r = e.load_str(e.json_str(rng.choice((None, 2))))
        self.ev.append({"op": "copy", "s": s, "eq": bool(r == e and e == r), "show": show(r)})

    def str(self, s, v):
        r = attempt(lambda: self.slots[s - 1].get_str(v))
        self.ev.append({"op": "str", "s": s, "v": v, "ok": r is not None, "n": codes(r) if r is not None else []})

    def value(self, s, n):
        r = attempt(lambda: self.slots[s - 1].get_value(text(n)))
        self.ev.append({"op": "value", "s": s, "n": list(n), "ok": r is not None, "v": r if r is not None else 0})
        p = attempt(lambda: self.slots[s - 1].get_primitive(text(n)))
        self.ev.append({"op": "prim", "s": s, "n": list(n), "ok": p is not None, "v": p.get() if p is not None else 0})

    def reg(self, s, how="env"):
        e = self.slots[s - 1]
        if how == "env":
            r = attempt(lambda: self.env.add_enum(e))
        else:
            def strict():
                ok, i = self.env.enum_registry.add_enum(e)
                if ok:
                    self.env.enum_registry.export(self.env.type_registry)
                return i if ok else None
            r = attempt(strict)
        self.ev.append({"op": "reg", "s": s, "name": e.name, "how": "again" if how == "env" else "strict", "ok": r is not None,
                        "id": r if r is not None else 0})

    def regshow(self):
        reg = self.env.enum_registry
        d = json.loads(reg.describe(bool(rng.getrandbits(1))))
        alls = []
        for i in range(reg.count()):
            e = reg.get_item(i)
            s = show(e)
            x = d["enums"][str(i)]
            # the exported description says the same
            if (x["name"], x["default"], {int(k): v for k, v in x["mappings"].items()}) != \
                    (e.name, e.default, {m["v"]: text(m["n"]) for m in s["map"]}) or d["mappings"].get(e.name) != i:
                s["d"] = codes("description differs")
            t = self.env.type_registry.get_id(e.name)
            if t is None or d["global_mappings"].get(str(t)) != i:
                s["d"] = codes("not exported as a type")
            alls.append(s)
        self.ev.append({"op": "regshow", "all": alls if len(d["enums"]) == len(alls) == len(d["mappings"]) == len(d["global_mappings"]) else []})

    def hadd(self, s):
        e = self.slots[s - 1]
        r = attempt(lambda: self.desc.add(e))
        self.ev.append({"op": "hadd", "s": s, "name": e.name, "ok": r is not None, "id": r if r is not None else 0})

    def hload(self):
        new = self.desc.load_str(self.desc.json_str(rng.choice((None, 4))))
        if not new == self.desc:
            self.ev.append({"op": "differs"})
        self.desc = new

    def hshow(self):
        alls, i = [], 0
        while True:
            e = attempt(lambda: self.desc.get_enum(i))
            if e is None:
                break
            alls.append(show(e))
            i += 1
        self.ev.append({"op": "hshow", "all": alls})

    def chan(self, name, x=(), track=False, metric=False):
        self.n += 1
        cn = "chan%d" % self.n
        init = (text(x), 1.0) if x else None
        if metric:
            def add():
                self.env.add_enum_metric(cn, name, track, init)
                return self.env.metrics[cn]
            r = attempt(add)
        else:
            r = attempt(lambda: self.env.add_enum_channel(cn, name, 1.0, track, init))
        if r is not None:
            self.chans.append((r, cn, metric))
        self.ev.append({"op": "chan", "name": name, "x": list(x), "ok": r is not None, "c": len(self.chans) if r is not None else 0,
                        "left": self.env.has_channel(cn)})

    def cset(self, c, x, how):
        i, n, metric = self.chans[c - 1]
        if metric:
            def s():
                self.env.set_enum_metric(n, text(x), 2.0)
                return True
        elif how == 0:
            s = lambda: self.env.set_enum_now(i, text(x))
        elif how == 1:
            s = lambda: self.env.command_enum_channel(n, text(x))
        else:
            s = lambda: self.env.command_enum_channel_id(i, text(x))
        r = attempt(s)
        self.ev.append({"op": "cset", "c": c, "x": list(x), "ok": bool(r)})

    def craw(self, c, v):
        r = attempt(lambda: self.env.set_now(self.chans[c - 1][0], v))
        self.ev.append({"op": "craw", "c": c, "v": v, "ok": bool(r)})

    def cget(self, c):
        i, n, metric = self.chans[c - 1]
        r = attempt((lambda: self.env.get_enum_metric(n)) if metric and rng.random() < 0.5 else (lambda: self.env.get_enum_value(i)))
        self.ev.append({"op": "cget", "c": c, "v": self.env.get_value(i), "ok": r is not None, "n": codes(r) if r is not None else []})
        if not self.env.is_enum_channel(i):
            self.ev.append({"op": "not an enumeration channel"})

    def final(self):
        for s in range(1, len(self.slots) + 1):
            self.show(s)
        self.regshow()
        self.hshow()
        for c in range(1, len(self.chans) + 1):
            self.cget(c)


HOWS = ("values", "type", "text", "data", "file")


def run(fn, metrics=False):
    w = World(metrics)
    with guard(w.ev):
        w.base = len(BASE)
        fn(w)
        w.final()
    w.ev.append(end())
    base = list(BASE)
    if metrics:
        base = BASE
    ctx.add("TraceEnum", w.ev, {"base": base, "types": TYPES})


for h in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.3:
        continue

    def fn(w):
        for o in h:
            if o["op"] == "reg":
                s = w.make(rng.choice(HOWS), o["name"], o["ms"])
                if s:
                    w.reg(s, rng.choice(("env", "strict")))
                    w.hadd(s)
            elif o["op"] == "chan":
                w.chan(o["name"], o["x"], rng.random() < 0.5)
            elif w.chans:
                c = rng.randrange(1, len(w.chans) + 1)
                w.cset(c, o["x"], 0 if o["op"] == "cset" else rng.choice((1, 2)))
                w.cget(c)
    run(fn)

ALPHA = "abcXYZ_09"


def rname():
    return [ord(rng.choice("abXY"))] + [ord(rng.choice(ALPHA)) for _ in range(rng.randrange(0, 3))]


def rmembers(n):
    vs = rng.sample(range(0, 8), n) if n <= 8 and rng.random() < 0.5 else rng.sample(range(-3, 300), n)
    if rng.random() < 0.6:
        seen, out = set(), []
        while len(out) < n:
            x = rname()
            if text(x).lower() not in seen:
                seen.add(text(x).lower())
                out.append(x)
    else:
        out = [rname() for _ in range(n)]
    return [{"v": v, "n": x} for v, x in zip(vs, out)]


for k in range(ctx.n(250, 4000)):
    metrics = rng.random() < 0.3

    def fn(w):
        for _ in range(rng.randrange(8, 30)):
            op = rng.random()
            if op < 0.2 or not w.slots:
                ms = rmembers(rng.choice((0, 1, 1, 2, 3, 5)))
                d = ()
                if ms and rng.random() < 0.3:
                    d = codes(text(rng.choice(ms)["n"]).lower())
                w.make(rng.choice(HOWS), rng.choice(("p", "q", "state", "my_enum", "float", "uint8")), ms, d)
                continue
            s = rng.randrange(1, len(w.slots) + 1)
            if op < 0.35:
                w.value(s, rng.choice((rname(), codes("unknown"), [], rng.choice(list(map(codes, w.slots[s - 1]))))))
            elif op < 0.47:
                w.str(s, rng.choice((rng.randrange(-2, 9), 255, 299)))
            elif op < 0.53:
                w.show(s)
            elif op < 0.58:
                w.copy(s)
            elif op < 0.68:
                # a name that belongs to a type is refused by the environment
                w.reg(s, "env" if w.slots[s - 1].name in TYPES else rng.choice(("env", "strict")))
            elif op < 0.74:
                w.hadd(s)
            elif op < 0.77:
                w.hload()
                w.hshow()
            elif op < 0.85:
                e = rng.choice(w.slots)
                w.chan(rng.choice((e.name, "p", "nothing", "message_type")), rng.choice(((), rng.choice(list(map(codes, e))), codes("json"))),
                       rng.random() < 0.5, metrics and rng.random() < 0.5)
            elif op < 0.88:
                w.regshow()
            elif w.chans:
                c = rng.randrange(1, len(w.chans) + 1)
                if rng.random() < 0.2:
                    w.craw(c, rng.randrange(-2, 260))
                else:
                    w.cset(c, rng.choice((rname(), codes("json"), codes("TEXT"), rng.choice(list(map(codes, rng.choice(w.slots)))))), rng.randrange(3))
                w.cget(c)
    run(fn, metrics)

# large enumerations
for n in (255, 256, 257):
    def fn(w):
        s = w.make("values", "big", [{"v": v, "n": codes("n%d" % v)} for v in range(min(n, 256))])
        w.copy(s)
        w.reg(s)
        w.chan("big", codes("n200"))
        w.cset(1, codes("N255"), 1)
        w.cget(1)
    if n < 257:
        run(fn)

ts = ctx.batches[("TraceEnum", None)]["traces"]
for kind in ("cget", "value", "regshow"):
    for t in ts:
        bad = copy.deepcopy(t)
        hit = False
        for e in bad["ev"]:
            if e["op"] == kind and e.get("ok", True):
                if kind == "cget":
                    e["n"] = e["n"] + [97]
                elif kind == "value":
                    e["v"] += 1
                else:
                    e["all"] = e["all"][:-1]
                hit = True
                break
        if hit:
            ctx.add("TraceEnum", bad["ev"], bad["cfg"], canary=True)
            break
ctx.finish()

"""C14: commands to channels."""
import copy
import math
import struct
from common import Ctx, guard, end

from vtelem.classes.user_enum import user_enum
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories.telemetry_environment import create_channel_commander
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
PRIMS = {"bool": Primitive.BOOLEAN, "int8": Primitive.INT8, "uint8": Primitive.UINT8, "int16": Primitive.INT16, "uint16": Primitive.UINT16,
         "int32": Primitive.INT32, "uint32": Primitive.UINT32, "int64": Primitive.INT64, "uint64": Primitive.UINT64,
         "float": Primitive.FLOAT, "double": Primitive.DOUBLE}
MEMBERS = [("red", 0), ("green", 3), ("blue!", 255), ("toobig", 256), ("\u00e9t\u00e9", 77), ("minus", -1)]


def big(n):
    d, m = [], abs(n)
    while m:
        d.append(m % 10000)
        m //= 10000
    return {"neg": n < 0, "d": d}


def show(v):
    """The abstract form of a value."""
    r = {"k": "none", "n": big(0), "s": "", "low": ""}
    if isinstance(v, bool):
        r.update(k="bool", n=big(int(v)))
    elif isinstance(v, int):
        r.update(k="int", n=big(v))
    elif isinstance(v, float):
        if v != v or math.isinf(v):
            r.update(k="float", s=repr(v))
        else:
            try:
                struct.pack("!f", v)
                x = v * 1024
                r.update(k="float", n=big(int(x)), s="" if x == int(x) else "other " + repr(v))
            except OverflowError:
                r.update(k="float", s="over")
    elif isinstance(v, str):
        r.update(k="str", low=v.lower(), s=v)
    else:
        r.update(k="other")
    return r


def parse(text):
    for t in (int, float):
        try:
            return t(text)
        except (TypeError, ValueError):
            pass
    return {"True": True, "False": False}.get(text, text)


class World:
    def __init__(self, metrics=False, direct=False):
        self.ev, self.direct = [], direct
        self.env = env = TelemetryEnvironment(1024, metrics_rate=1.0 if metrics else None, app_id_basis=0.5)
        self.d = CommandQueueDaemon("cmd", env if metrics else None)
        create_channel_commander(env, self.d, command_name="ch" if metrics else "channel")
        self.cmdname = "ch" if metrics else "channel"
        assert env.add_enum(user_enum("color", {v: n for n, v in MEMBERS})) >= 0
        self.ids = {}
        # channels that were there before are addressable, too, but not commandable
        chans = []
        n = env.channel_registry.count()
        for i in range(n):
            chans.append({"name": env.channel_registry.get_item(i).name, "type": "other", "may": False, "enum": []})
        order = list(PRIMS) + ["enum", "fixed", "fixedenum", "A", "a"]
        rng.shuffle(order)
        track = bool(rng.getrandbits(1))
        for o in order:
            ms = [{"n": k.lower(), "v": v} for k, v in MEMBERS] if "enum" in o else []
            if ms:
                i = env.add_enum_channel(o, "color", 1.0, track, None, o == "enum")
            else:
                i = env.add_channel(o, PRIMS.get(o, Primitive.INT16), 1.0, track, None, o != "fixed")
            assert i == len(chans)
            chans.append({"name": o, "type": "uint8" if ms else o if o in PRIMS else "int16", "may": not o.startswith("fixed"), "enum": ms})
            self.ids[o] = i
        self.chans = chans
        self.cfg = {"chans": chans, "vals": self.snap()}
        if not direct:
            assert self.d.start()

    def snap(self):
        # channels the system itself writes to aren't judged
        return [show(self.env.get_value(i)) if c["type"] != "other" else show(0) for i, c in enumerate(self.chans)]

    def app(self, name, v):
        try:
            self.env.set_now(self.ids[name], v)
        except Exception:
            pass
        self.ev.append({"op": "app", "snap": self.snap()})

    def cmd(self, data, api=None):
        c = {"op": data["operation"] if isinstance(data.get("operation"), str) else "", "hasname": "channel_name" in data, "hasid": "channel_id" in data,
             "nameok": isinstance(data.get("channel_name"), str), "name": data["channel_name"] if isinstance(data.get("channel_name"), str) else "",
             "idok": type(data.get("channel_id")) is int, "id": data["channel_id"] if type(data.get("channel_id")) is int else 0,
             "hasval": "value" in data, "val": show(data.get("value"))}
        if c["id"] > 1 << 30:
            c["idok"] = False
        if api:
            try:
                ok, msg = bool(api()), "done"
            except Exception as exc:
                ok, msg = False, "raised"
        elif self.direct:
            out = []
            self.d.handle(({"command": self.cmdname, "data": data}, lambda a, b: out.append((a, b))))
            ok, msg = out[0] if len(out) == 1 else (None, "")
        else:
            ok, msg = self.d.execute({"command": self.cmdname, "data": data})
        got = parse(msg) if c["op"] == "get" else None
        if isinstance(got, int) and not isinstance(got, bool) and c["op"] == "get":
            i = c["id"] if c["hasid"] and c["idok"] else self.ids.get(c["name"], -1)
            if 0 <= i < len(self.chans) and self.chans[i]["type"] in ("float", "double"):
                got = float(got)
        self.ev.append({"op": "cmd", "cmd": c, "ok": ok, "says": isinstance(msg, str) and msg != "", "snap": self.snap(),
                        "got": show(got), "text": str(msg)})

    def set_api(self, name, v):
        i = self.ids.get(name, 999)
        data = {"operation": "set", "value": v}
        en = "enum" in name
        if rng.random() < 0.5:
            data["channel_name"] = name
            self.cmd(data, lambda: (self.env.command_enum_channel if en else self.env.command_channel)(name, v))
        else:
            data["channel_id"] = i
            self.cmd(data, lambda: (self.env.command_enum_channel_id if en else self.env.command_channel_id)(i, v))


def bounds(t):
    v = PRIMS[t].value
    return v.min, v.max


def amount(kind, t, op):
    base = "uint8" if "enum" in t else "int16" if t not in PRIMS else t
    fl = base in ("float", "double")
    lo, hi = bounds(base) if base not in ("bool", "float", "double") else (0, 1)
    if kind == "one":
        return 1.0 if fl and op == "set" else 1
    if kind == "minus":
        return -2.5 if fl else rng.choice((-1, -3))
    if kind == "edge":
        return rng.choice((float(1 << 20), -0.0009765625)) if fl else rng.choice((lo, hi, hi - 1, lo + 1))
    if kind == "beyond":
        return rng.choice((1 << 200, 10 ** 30)) if not fl else rng.choice((1e39, -1e300)) if op == "set" else "1"
    if kind == "frac":
        return rng.choice((0.5, 2.0, -1.25))
    if kind == "text":
        return rng.choice(("", "1", "True", "0x1", "unknown", "red ", "0"))
    if kind == "member":
        return rng.choice([n for n, _ in MEMBERS] + ["RED", "Green", "BLUE!"])
    if kind == "null":
        return None
    if kind == "list":
        return rng.choice(([], [1], {"value": 1}, ["red"]))
    if kind == "truth":
        # whether a truth value counts as a number is left open
        return bool(rng.getrandbits(1)) if op == "set" and base in ("bool", "float", "double") else "true"
    if kind == "special":
        return rng.choice((float("inf"), float("-inf"))) if op == "set" and fl else rng.choice((hi + 1, lo - 1))
    raise AssertionError(kind)


def concrete(w, g):
    t = g["type"]
    data = {}
    op = g["op"]
    if op == "bad":
        data["operation"] = rng.choice(("", "SET", "Get", "inc", "reset", None, 5, ["set"], {}, "set "))
    elif op != "none":
        data["operation"] = op
    way = g["way"]
    i = w.ids[t]
    if way in ("name", "both"):
        data["channel_name"] = t
    if way in ("id", "both"):
        data["channel_id"] = i
    if way == "mismatch":
        data["channel_name"] = t
        data["channel_id"] = rng.choice((i + 1, -1, 999, None, str(i), i - 1))
    if way == "noname":
        data["channel_name"] = rng.choice((t + " ", t.upper() + "_", "", "value"))
        if rng.random() < 0.3:
            data["channel_id"] = i
    if way == "noid":
        data["channel_id"] = rng.choice((-1, len(w.chans), 1000, 1 << 70, -len(w.chans)))
    if way == "badname":
        data["channel_name"] = rng.choice((None, 5, [t], {}, i))
    if way == "badid":
        data["channel_id"] = rng.choice((None, str(i), [i], {}, i + 0.5, t))
    if g["amount"] != "absent":
        data["value"] = amount(g["amount"], t, op)
    if rng.random() < 0.2:
        data["extra"] = 1
    keys = list(data)
    rng.shuffle(keys)
    return {k: data[k] for k in keys}


def finite(w, t):
    """Sums are judged for channels that hold a finite value."""
    v = w.env.get_value(w.ids[t])
    if isinstance(v, float) and (v != v or abs(v) > 1 << 40):
        w.app(t, rng.choice((0.0, 1.5, -3.25)))


def run(steps, metrics, direct):
    ev = []
    with guard(ev):
        w = World(metrics, direct)
        ev, w.ev = w.ev, ev
        w.ev.extend(ev)
        for g in steps:
            if g is None:
                t = rng.choice(list(w.ids))
                w.app(t, amount(rng.choice(("one", "minus", "edge", "frac")), t, "set") if "enum" not in t else rng.choice((0, 3, 255, 77)))
            elif g == "api":
                t = rng.choice(list(w.ids))
                k = rng.choice(("one", "minus", "edge", "beyond", "frac", "text", "member", "special"))
                w.set_api(t, amount(k, t, "set"))
            elif g == "metric":
                # the system's own channels can't be commanded
                if w.chans[0]["type"] == "other":
                    v0 = w.env.get_metric("metrics_rate")
                    w.cmd({"operation": rng.choice(("set", "increment", "decrement")), "channel_name": "metrics_rate", "value": 2.0})
                    if w.env.get_metric("metrics_rate") != v0:
                        w.ev.append({"op": "crash", "what": "a metric was commanded"})
            else:
                if g["op"] in ("increment", "decrement"):
                    finite(w, g["type"])
                w.cmd(concrete(w, g))
        w.d.stop()
        cfg = w.cfg
        w.ev.append(end())
        ctx.add("TraceChanCmd", w.ev, cfg, chunk=40)
        return
    ctx.add("TraceChanCmd", ev + [end()], {"chans": [], "vals": []})


gen = list(ctx.gen.get("gen", []))
rng.shuffle(gen)
n = ctx.n(70, 100)
gen = gen[:ctx.n(3000, len(gen))]
for k in range(0, len(gen), n):
    steps = []
    for g in gen[k:k + n]:
        steps.append(g)
        if rng.random() < 0.15:
            steps.append(None)
        if rng.random() < 0.15:
            steps.append("api")
        if rng.random() < 0.02:
            steps.append("metric")
    run(steps, (k // n) % 3 == 0, (k // n) % 4 == 1)
# longer histories of the operations that do something
for k in range(ctx.n(30, 600)):
    ty = rng.sample(list(PRIMS) + ["enum"], 4)
    steps = [{"op": rng.choice(("set", "get", "increment", "increment", "decrement", "decrement")), "way": rng.choice(("name", "id", "both")), "type": rng.choice(ty),
              "amount": rng.choice(("absent", "one", "one", "minus", "edge", "edge", "frac", "member", "special"))} for _ in range(60)]
    run(steps, k % 3 == 0, k % 2 == 0)

# the checker must reject: a failure called success, another channel changed, a sum that is off, a wrong report
ts = ctx.batches[("TraceChanCmd", None)]["traces"]
missing = []
for what in ("ok", "other", "sum", "got"):
    for t in ts:
        b = copy.deepcopy(t)
        ev = b["ev"]
        idx = [k for k, e in enumerate(ev) if e["op"] == "cmd" and e["cmd"]["op"] == ("increment" if what == "sum" else "get" if what == "got" else "set") and e["ok"] is (what != "ok")]
        idx = [k for k in idx if what != "got" or ev[k]["got"]["k"] == "int"]
        idx = [k for k in idx if what != "sum" or "0" < str(len(ev[k]["snap"])) ]
        if not idx or any(e["op"] in ("crash", "hang") for e in ev):
            continue
        e = ev[idx[0]]
        if what == "ok":
            e["ok"] = True
        elif what == "got":
            e["got"]["n"] = big(12345)
        elif what == "other":
            j = [k for k, s in enumerate(e["snap"]) if k != e["cmd"]["id"] and b["cfg"]["chans"][k]["name"] != e["cmd"]["name"] and s["k"] == "int"][-1]
            e["snap"][j]["n"] = big(99)
        else:
            j = [k for k, s in enumerate(e["snap"]) if s != (ev[idx[0] - 1]["snap"] if idx[0] else b["cfg"]["vals"])[k] and s["k"] == "int"]
            if not j:
                continue
            e["snap"][j[0]]["n"]["d"] = [7, 7]
        ctx.add("TraceChanCmd", ev, b["cfg"], canary=True)
        break
    else:
        missing.append(what)
ctx.stats["canary_kinds_missing"] = missing
ctx.finish()

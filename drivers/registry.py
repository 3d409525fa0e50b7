"""C09: every kind of registry, sequentially and from two threads."""
import json
import sys
from common import Ctx, guard, end
import sched
sched.install()
import threading

from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive, get_name
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.enum_retry import EnumRegistry as DescribedRegistry
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import TypeRegistry, get_default
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
PRIMS = list(Primitive)


def k_track(item):
    return len(item.name) % 2 == 0


class Kind:
    """One kind of registry: how to build items and how to read them back."""
    names = ()
    items = ()
    describes = True

    def fresh(self):
        raise NotImplementedError

    def add(self, reg, name, item):
        ok, i = reg.add(name, item)
        return ok, i

    def parse(self, reg, indented):
        d = json.loads(reg.describe(indented))
        m = d.pop("mappings")
        d.pop("global_mappings", None)
        (table,) = d.values()
        order = sorted(m.items(), key=lambda kv: kv[1])
        names = [k for k, _ in order]
        if [v for _, v in order] != list(range(len(order))) or sorted(int(k) for k in table) != list(range(len(order))):
            return ["description is not dense"], [json.dumps(d)]
        return names, [self.jtoken(n, table[str(i)]) for n, i in order]


class Plain(Kind):
    def fresh(self):
        return Registry("things")

    def make(self, name, k):
        return "item-%d" % k

    def token(self, x):
        return x

    def jtoken(self, n, x):
        return x


class Seeded(Plain):
    names = ("zero", "one")
    items = ("i0", "i1")

    def fresh(self):
        return Registry("things", [("zero", "i0"), ("one", "i1"), ("zero", "again")])


class Channels(Kind):
    def fresh(self):
        return ChannelRegistry()

    def make(self, name, k):
        return Channel(name, PRIMS[k % len(PRIMS)], 0.5 * (1 + k % 7), None, k % 3 != 0)

    def token(self, c):
        t = c.type.value
        return "%s %s %d %s %s %s" % (c.name, t.name, t.size, t.signed, c.rate, c.commandable)

    def jtoken(self, n, x):
        t = x["type"]
        return "%s %s %d %s %s %s" % (x["name"], t["name"], t["size"], t["signed"], x["rate"], x["commandable"])

    def add(self, reg, name, item):
        return reg.add_channel(item)


class SeededChannels(Channels):
    def __init__(self):
        self.chans = [Channel("p", Primitive.INT8, 1.0), Channel("q", Primitive.FLOAT, 2.0)]
        self.names = tuple(c.name for c in self.chans)
        self.items = tuple(self.token(c) for c in self.chans)

    def fresh(self):
        return ChannelRegistry([Channel("p", Primitive.INT8, 1.0), Channel("q", Primitive.FLOAT, 2.0),
                                Channel("p", Primitive.BOOLEAN, 3.0)])


class EnvChannels(Channels):
    """Channels registered through a telemetry environment."""

    def fresh(self):
        self.env = TelemetryEnvironment(128, app_id_basis=0.5)
        return self.env.channel_registry

    def add(self, reg, name, item):
        try:
            return True, self.env.add_channel(name, item.type, item.rate, k_track(item), None, item.commandable)
        except AssertionError:
            return False, -1


class Enums(Kind):
    def fresh(self):
        return EnumRegistry()

    def make(self, name, k):
        return user_enum(name, {j: "v%d_%d" % (k, j) for j in range(1 + k % 4)})

    def token(self, e):
        return "%s %s %s" % (e.name, e.default, ",".join(sorted("%s=%d" % (s, e.get_value(s)) for s in e)))

    def jtoken(self, n, x):
        return "%s %s %s" % (x["name"], x["default"], ",".join(sorted("%s=%d" % (v, int(k)) for k, v in x["mappings"].items())))

    def add(self, reg, name, item):
        return reg.add_enum(item)


class Described(Enums):
    """The enumeration registry that is an encodable object itself."""

    def fresh(self):
        class Reg(DescribedRegistry):
            def get_id(self, name):
                ids = [k for k, v in self.data["mappings"].items() if v == name]
                return ids[0] if len(ids) == 1 else None if not ids else -2

            def get_item(self, i):
                return self.get_enum(i) if i in self.data["mappings"] else None

            def count(self):
                return self.curr_id
        return Reg()

    def add(self, reg, name, item):
        try:
            return True, reg.add(item)
        except AssertionError:
            return False, -1

    def parse(self, reg, indented):
        d = json.loads(reg.json_str(2 if indented else None))
        order = sorted((int(k), v) for k, v in d.get("mappings", {}).items())
        if [k for k, _ in order] != list(range(len(order))) or {v for _, v in order} != set(d.get("enums", {})):
            return ["description is not dense"], [json.dumps(d)]
        return [n for _, n in order], [self.jtoken(n, d["enums"][n]) for _, n in order]


class Types(Kind):
    def __init__(self):
        self.names = tuple(get_name(p) for p in PRIMS)
        self.items = tuple(self.token(p) for p in PRIMS)

    def fresh(self):
        return get_default()

    def make(self, name, k):
        return PRIMS[k % len(PRIMS)]

    def token(self, p):
        return "%s %d %s" % (p.value.name, p.value.size, p.value.signed)

    def jtoken(self, n, x):
        return "%s %d %s" % (x["name"], x["size"], x["signed"])


class BareTypes(Types):
    names = ()
    items = ()

    def __init__(self):
        pass

    def fresh(self):
        return TypeRegistry()


class Services(Kind):
    def fresh(self):
        return ServiceRegistry()

    def make(self, name, k):
        return [("host%d" % k, k + j) for j in range(k % 3)]

    def token(self, s):
        return json.dumps([list(x) for x in s])

    def jtoken(self, n, x):
        return json.dumps([list(y) for y in x])


class Groups(Kind):
    describes = False

    def fresh(self):
        return ChannelGroupRegistry(TelemetryEnvironment(128, app_id_basis=0.5))

    def make(self, name, k):
        return "group " + name

    def token(self, g):
        return g if isinstance(g, str) else "group " + g.name

    def add(self, reg, name, item):
        try:
            return True, reg.create_group(name)
        except AssertionError:
            return False, -1


KINDS = [Plain, Seeded, Channels, SeededChannels, EnvChannels, Enums, Described, Types, BareTypes, Services, Groups]


def call(ev, t, what, name="", item="", i=0):
    ev.append({"op": "call", "t": t, "what": what, "name": name, "item": item, "id": i})


def perform(ev, kind, reg, t, act, arg, k):
    if act == "add":
        item = kind.make(arg, k)
        call(ev, t, "add", arg, kind.token(item))
        ok, i = kind.add(reg, arg, item)
        ev.append({"op": "ret", "t": t, "ok": bool(ok), "id": i})
    elif act == "id":
        call(ev, t, "id", arg)
        r = reg.get_id(arg)
        ev.append({"op": "ret", "t": t, "ok": r is not None, "id": -1 if r is None else r})
    elif act == "item":
        call(ev, t, "item", i=arg)
        r = reg.get_item(arg)
        ev.append({"op": "ret", "t": t, "ok": r is not None, "got": "" if r is None else kind.token(r)})
    elif act == "count":
        call(ev, t, "count")
        ev.append({"op": "ret", "t": t, "id": reg.count()})
    elif act == "describe" and kind.describes:
        call(ev, t, "describe")
        n, x = kind.parse(reg, bool(k % 2))
        ev.append({"op": "ret", "t": t, "names": n, "items": x})


def project(ev, kind, reg, names, t=1):
    perform(ev, kind, reg, t, "count", None, 0)
    for n in names:
        perform(ev, kind, reg, t, "id", n, 0)
    for i in range(-1, len(names) + 2):
        perform(ev, kind, reg, t, "item", i, 0)
    perform(ev, kind, reg, t, "describe", None, 0)


def cfg(kind, threads=1):
    return {"threads": threads, "names": list(kind.names), "items": list(kind.items)}


def sequence(kindcls, acts, project_each=False):
    ev = []
    kind = kindcls()
    c = cfg(kind)
    base = len(kind.names)
    with guard(ev):
        reg = kind.fresh()
        for k, (act, arg) in enumerate(acts):
            if act == "item":
                arg = int(arg) + base
            perform(ev, kind, reg, 1, act, arg, k)
        project(ev, kind, reg, sorted({a for op, a in acts if op in ("add", "id")} | set(kind.names)))
    ev.append(end())
    ctx.add("TraceRegistry", ev, c)


gen = ctx.gen.get("gen", [])
for g in gen:
    kinds = KINDS if ctx.thorough else [KINDS[hash(str(g)) % len(KINDS)], KINDS[(hash(str(g)) // 16) % len(KINDS)]]
    if ctx.thorough or rng.random() < 0.35:
        for kc in kinds:
            sequence(kc, g)

for k in range(ctx.n(60, 600)):
    names = ["n%d" % j for j in range(8)]
    acts = []
    for _ in range(rng.randrange(5, 40)):
        op = rng.choice(("add", "add", "id", "item", "count", "describe"))
        acts.append((op, rng.choice(names) if op in ("add", "id") else rng.randrange(-2, 9) if op == "item" else ""))
    sequence(rng.choice(KINDS), acts)

# an unknown name stays unknown and registrable: also through the environment and for enum exports
# two threads
if True:
    class Pair:
        def __init__(self, kindcls, progs):
            self.kind = kindcls()
            self.reg = self.kind.fresh()
            self.progs, self.ev = progs, []

        def body(self, t):
            for k, (act, arg) in enumerate(self.progs[t]):
                perform(self.ev, self.kind, self.reg, t + 1, act, arg, 10 * t + k)

        def main(self, s):
            ts = [threading.Thread(target=self.body, args=(t,), name="t%d" % t) for t in range(len(self.progs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            project(self.ev, self.kind, self.reg, ["a", "b", "c"])

    progs = [
        [[("add", "a"), ("add", "b")], [("add", "b"), ("id", "a")]],
        [[("add", "a"), ("item", 0), ("id", "a")], [("add", "a"), ("count", ""), ("item", 0)]],
        [[("add", "a"), ("add", "c")], [("add", "b"), ("describe", ""), ("add", "a")]],
    ]
    runs = 0
    for kc in ([Plain, EnvChannels, Enums, Described, Groups] if not ctx.thorough else [Plain, Channels, EnvChannels, Enums, Described, BareTypes, Services, Groups]):
        for pr in progs:
            for desc, o, res in sched.explore(lambda: Pair(kc, pr), rng, ctx.n(60, 1500), orders=(None, ["t1", "t0"])):
                runs += 1
                ev = o.ev
                if res.deadlock or res.livelock:
                    ev.append({"op": "hang", "what": str(res.deadlock)})
                for n, e in res.errors:
                    ev.append({"op": "crash", "what": "%s: %r" % (n, e)})
                if res.main_exc is not None and not res.deadlock:
                    ev.append({"op": "crash", "what": repr(res.main_exc)})
                ev.append(end())
                ctx.add("TraceRegistry", ev, dict(cfg(o.kind, 2), schedule=str(desc)))
    ctx.stats["schedules"] = runs

t0 = ctx.batches[("TraceRegistry", None)]["traces"][0]
bad = json.loads(json.dumps(t0))
for e in bad["ev"]:
    if e["op"] == "ret" and "id" in e:
        e["id"] += 1
        break
ctx.add("TraceRegistry", bad["ev"], bad["cfg"], canary=True)
ctx.finish()

"""C25: descriptions of enumerations, registries of them and primitives; their schemas, text and files."""
import copy
import io
import json
import os
import shutil
import tempfile
from enum import IntEnum
from pathlib import Path
from common import Ctx, guard, end

from vtelem.classes.serdes import SerializableParams
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.frame import FRAME_TYPES
from vtelem.enums.primitive import Primitive, get_name
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.schema.manager import SchemaManager, package_schemas
from vtelem.serializables.primitive import SerializablePrimitive, from_primitive, get_all
from vtelem.types.frame import MESSAGE_TYPES, MessageType

ctx = Ctx()
rng = ctx.rng
CLS = {"user_enum": UserEnum, "enum_registry": EnumRegistry, "serializable_primitive": SerializablePrimitive}
PRIMS = [get_name(p) for p in Primitive]


def codes(s):
    return [ord(c) for c in s]


CFG = {"prims": [codes(p) for p in PRIMS]}


def scalar(v):
    if v is None:
        return "null", []
    if isinstance(v, bool):
        return "bool", [49 if v else 48]
    if isinstance(v, int):
        return "int", codes(str(v))
    if isinstance(v, float):
        return "float", codes(repr(v))
    if isinstance(v, str):
        return "str", codes(v)
    if isinstance(v, dict):
        return "map", []
    return "list", codes(json.dumps(v))


def value(v):
    t, c = scalar(v)
    m = []
    if t == "map":
        for k, x in v.items():
            kt, kc = scalar(k)
            vt, vc = scalar(x)
            m.append({"kt": kt, "kc": kc, "vt": vt, "vc": vc})
    return {"t": t, "c": c, "m": m}


def desc(data):
    return [{"f": f, "v": value(v)} for f, v in data.items()]


def deep(data):
    """Everything below the first two levels, independent of the order of entries."""
    return json.dumps(data, sort_keys=True, default=str)


def nested(name):
    return {"name": name, "default": "a", "mappings": {"0": "a", "7": "b_2"}, "type": "user_enum"}


def unscalar(t, c, name=""):
    s = "".join(map(chr, c))
    return {"null": lambda: None, "bool": lambda: s == "1", "int": lambda: int(s), "float": lambda: float(s), "str": lambda: s,
            "map": lambda: nested(name), "list": lambda: [1, "x"]}[t]()


def unvalue(v):
    if v["t"] != "map":
        return unscalar(v["t"], v["c"])
    return {unscalar(e["kt"], e["kc"]): unscalar(e["vt"], e["vc"], "".join(map(chr, e["kc"]))) for e in v["m"]}


def managers():
    """The same schemas, from the package, a directory or single files."""
    a = SchemaManager()
    a.load_package(require_all=True)
    b = SchemaManager()
    b.load_dir(package_schemas(), require_all=True)
    c = SchemaManager({})
    for p in sorted(package_schemas().iterdir()):
        c.add(p, require_all=True)
    return [a, b, c]


def some():
    a = SchemaManager()
    a.load_package()
    return a


ALL, SOME = managers(), some()


def make(kind, data, schema):
    cls = CLS[kind]
    if schema == "none":
        return cls(data)
    man = SOME if schema == "some" else rng.choice(ALL)
    way = rng.randrange(3)
    if way == 0:
        return cls(data, manager=man)
    if way == 1:
        return cls(data, SerializableParams(schema=cls.schema(man)))
    return cls(data, SerializableParams(schema=man[cls.__name__]), manager=man)


def build(ev, kind, data, schema):
    given, src = desc(data), copy.deepcopy(data)
    # the order of a description's fields doesn't matter
    keys = list(src)
    rng.shuffle(keys)
    src = {k: src[k] for k in keys}
    e = {"op": "build", "kind": kind, "schema": schema, "data": given, "ok": True, "valid": False, "has": [], "accepted": False}
    ev.append(e)
    try:
        obj = make(kind, src, schema)
    except Exception:  # a description that no object can be made from
        e["ok"] = False
        return None
    e["has"], e["valid"] = desc(obj.data), bool(obj.valid)
    if schema == "none":
        e["accepted"] = True
    else:
        e["accepted"] = bool((ALL[0] if schema == "all" else SOME).get(CLS[kind]).validate(copy.deepcopy(obj.data)))
    return obj


def textual(obj):
    """Do the entries of this object survive as text (no keys of several types, no fields that decode differently)?"""
    return all(not isinstance(v, dict) or len({type(k) for k in v}) < 2 for v in obj.data.values())


def shuffled(text):
    def pairs(p):
        rng.shuffle(p)
        return dict(p)
    return json.dumps(json.loads(text, object_pairs_hook=pairs), indent=rng.choice((None, 1)))


def use(obj):
    """What an object lets its users see."""
    if isinstance(obj, UserEnum):
        names = sorted(obj)
        return [names, [obj.get_value(n) for n in names], sorted(obj.get_str(obj.get_value(n)) for n in names), obj.default, obj.name]
    if isinstance(obj, EnumRegistry):
        ids = sorted(obj.data["mappings"])
        return [ids, [use(obj.get_enum(i)) for i in ids], obj.curr_id]
    return [obj.primitive.name, obj.name]


def encode(obj, form, tmp):
    if form == "plain":
        return obj.json_str()
    if form == "indented":
        return obj.json_str(rng.choice((1, 2, 4)))
    if form == "shuffled":
        return shuffled(obj.json_str())
    if form == "stream":
        out = io.StringIO()
        obj.json(out, rng.choice((None, 2)))
        return out.getvalue()
    path = os.path.join(tmp, "o.json")
    with open(path, "w", encoding="utf-8") as f:
        obj.json(f, rng.choice((None, 2)))
    return Path(path)


FORMS = ["plain", "indented", "shuffled", "stream", "file"]


def rounds(ev, obj, kind, was, schema, tmp, forms=FORMS):
    for form in forms:
        e = {"op": "round", "kind": kind, "data": desc(obj.data), "has": [], "ok": True, "eq": False, "same": False, "valid": False, "was": bool(was)}
        ev.append(e)
        before = deep(obj.data)
        # a description that was not accepted may lack what an object needs
        try:
            seen = use(obj)
        except Exception:
            seen = None
        try:
            text = encode(obj, form, tmp)
            if form in ("plain", "indented"):
                ev.insert(-1, {"op": "text", "indented": form == "indented", "multi": "\n" in text})
            if isinstance(text, Path):
                with open(text, encoding="utf-8") as f:
                    got = obj.load(f)
            elif schema == "other":
                got = make(kind, json.loads(text), "all")
            else:
                got = obj.load_str(text)
        except Exception:
            e["ok"] = False
            return
        e["has"], e["valid"] = desc(got.data), bool(got.valid)
        e["same"] = (seen is None or deep(use(got)) == deep(seen)) and deep(got.data) == before == deep(obj.data) and type(got) is type(obj)
        e["eq"] = (got == obj) and (obj == got) and not (got != obj)


def compare(ev, a, b, kind):
    ev.append({"op": "compare", "kind": kind, "data": desc(a.data), "has": desc(b.data), "same": deep(a.data) == deep(b.data) and type(a) is type(b),
               "eq": (a == b) if (a == b) == (b == a) else deep(a.data) != deep(b.data)})


def inner(obj):
    if not isinstance(obj, EnumRegistry):
        return True
    return all(obj.data["enums"][n] == obj.get_enum(i).data and UserEnum(copy.deepcopy(obj.data["enums"][n]), manager=ALL[0]).valid
               for i, n in obj.data["mappings"].items() if n in obj.data["enums"])


def describe(ev, obj, kind):
    man = rng.choice(ALL)
    ev.append({"op": "describe", "kind": kind, "data": desc(obj.data), "valid": bool(obj.validate(manager=man)), "inner": inner(obj)})


def run(fn):
    ev = []
    tmp = tempfile.mkdtemp()
    with guard(ev):
        fn(ev, tmp)
        ev.append(end())
    shutil.rmtree(tmp)
    ctx.add("TraceSerdes", ev, CFG, chunk=40)
    return ev


# ---- everything the specification's generator describes
cases = list(ctx.gen.get("gen", []))
rng.shuffle(cases)
cases = cases[:ctx.n(3000, 40000)]
for i in range(0, len(cases), 25):
    def fn(ev, tmp, part=cases[i:i + 25]):
        objs = []
        for g in part:
            data = {f: unvalue(v) for f, v in g["d"].items()}
            obj = build(ev, g["kind"], data, g["full"])
            if obj is None:
                continue
            if ev[-1]["valid"] and g["full"] == "all":
                describe(ev, obj, g["kind"])
            if textual(obj):
                rounds(ev, obj, g["kind"], obj.valid, g["full"], tmp, [rng.choice(FORMS)])
            objs.append((g["kind"], obj))
        for _ in range(8):
            k, a = rng.choice(objs)
            _, b = rng.choice(objs)
            compare(ev, a, b, k)
    run(fn)

# ---- what programs create
ALPHA = "abcdefghijklmnopqrstuvwxyz"


def ident_(cased=False):
    n = rng.choice((1, 2, 3, 8, 20))
    s = "".join(rng.choice(ALPHA + ("ABCDEFGHIJ" if cased else "") + "0123456789_") for _ in range(n - 1))
    return rng.choice(ALPHA + ("ABC" if cased else "")) + s


def names(n, cased=True):
    out = {}
    while len(out) < n:
        x = ident_(cased)
        out.setdefault(x.lower(), x)
    return list(out.values())


def ints(n):
    pool = rng.choice((list(range(n)), [rng.randrange(-1000, 1 << 40) for _ in range(n)], [10 * i - 5 for i in range(n)]))
    return list(dict.fromkeys(pool))


def good(kind):
    if kind == "user_enum":
        m = dict(zip(ints(3), names(3)))
        return {"name": ident_(), "mappings": m, "default": rng.choice((None, list(m.values())[0].lower()))}
    if kind == "enum_registry":
        ns = names(rng.randrange(3), False)
        if not ns:
            return {}
        return {"mappings": {i * 3: n for i, n in enumerate(ns)}, "enums": {n: nested(n) for n in ns}}
    return dict(from_primitive(rng.choice(list(Primitive))).data)


def an_enum(i):
    n = rng.choice((1, 2, 3, 5, 30))
    vals = ints(n)
    ns = names(len(vals))
    way = rng.randrange(3)
    name = ident_(True) + str(i)
    if way == 0:
        return user_enum(name, dict(zip(vals, ns)))
    if way == 1:
        return user_enum(name, dict(zip(vals, ns)), rng.choice(ns).lower(), rng.choice(ALL))
    return from_enum(IntEnum(name.replace("_", "") or "e", {"m_" + x: v for x, v in zip(ns, vals)}))


def program(ev, tmp):
    es = [an_enum(i) for i in range(rng.choice((1, 3)))]
    for e in es:
        e.manager = rng.choice(ALL)
        describe(ev, e, "user_enum")
        rounds(ev, e, "user_enum", True, "all", tmp, rng.sample(FORMS, 2))
        rounds(ev, e, "user_enum", True, "other", tmp, ["plain", "shuffled"])
    man = rng.choice(ALL)
    r = rng.random()
    reg = EnumRegistry(manager=man) if r < 0.4 else EnumRegistry({"mappings": {}} if r < 0.5 else good("enum_registry"), manager=man)
    had = bool(reg.valid)
    ids = []
    by = {}
    for e in es + rng.sample([FRAME_TYPES, MESSAGE_TYPES], rng.randrange(3)):
        if e.name not in by:
            by[e.name] = reg.add(e)
            describe(ev, reg, "enum_registry")
    if rng.random() < 0.5 and "message_type" not in by:
        reg.add_from_enum(MessageType)
    describe(ev, reg, "enum_registry")
    for form in rng.sample(FORMS, 3):
        rounds(ev, reg, "enum_registry", True, "all", tmp, [form])
    rounds(ev, reg, "enum_registry", True, "other", tmp, ["plain", "shuffled"])
    # a decoded registry goes on where the original was
    got = reg.load_str(reg.json_str())
    x = user_enum("the_next", {1: "one"})
    y = user_enum("the_next", {1: "one"})
    compare(ev, got, reg, "enum_registry")
    before = sorted(got.data["mappings"])
    a = got.add(x)
    compare(ev, got, reg, "enum_registry")
    b = reg.add(y)
    compare(ev, got, reg, "enum_registry")
    ev.append({"op": "next", "a": a, "b": b, "ids": before})
    describe(ev, got, "enum_registry")
    rounds(ev, got, "enum_registry", True, "all", tmp, ["plain"])


for _ in range(ctx.n(40, 400)):
    run(program)


def builtin(ev, tmp):
    for e in (FRAME_TYPES, MESSAGE_TYPES):
        describe(ev, e, "user_enum")
        rounds(ev, e, "user_enum", True, "all", tmp)
        rounds(ev, e, "user_enum", True, "other", tmp)
    objs = [from_primitive(p, manager=rng.choice(ALL)) for p in Primitive]
    for p, o in zip(Primitive, objs):
        describe(ev, o, "serializable_primitive")
        rounds(ev, o, "serializable_primitive", o.valid, "all", tmp)
        rounds(ev, o, "serializable_primitive", True, "other", tmp)
        ev.append({"op": "prim", "name": o.name, "of": get_name(p), "has": {k: (str(o.data.get(k, "")) if k in ("min", "max") else o.data[k]) for k in ("size", "signed", "integer", "min", "max")}, "same": o.primitive is p and o.load_str(o.json_str()).primitive is p})
    for a in objs:
        for b in objs:
            compare(ev, a, b, "serializable_primitive")
    got = get_all(manager=ALL[0])
    ev.append({"op": "all", "names": sorted(codes(o.name) for o in got)})
    for o in got:
        describe(ev, o, "serializable_primitive")


run(builtin)

def mixed(ev, tmp):
    """The same data in objects of different kinds."""
    for typ in ("user_enum", "serializable_primitive"):
        d = {"name": "int8", "default": "a", "mappings": {1: "a"}, "type": typ}
        a, b = build(ev, "user_enum", copy.deepcopy(d), "all"), build(ev, "serializable_primitive", copy.deepcopy(d), "all")
        compare(ev, a, b, "user_enum")
        compare(ev, b, a, "user_enum")
        compare(ev, a, UserEnum(copy.deepcopy(d)), "user_enum")


run(mixed)

# ---- random descriptions, acceptable or not
WORDS = ["a", "b_2", "Upper", "", "with space", "dash-ed", "9", "_", "é", "unit", "user_enum", "enum_registry", "serializable_primitive"] + PRIMS


def rvalue():
    r = rng.random()
    if r < 0.3:
        return rng.choice(WORDS)
    if r < 0.5:
        return rng.choice((None, True, False, 2, -3, 2.5, [1], 1 << 40))
    ks = rng.choice(([2, 3, -4], ["2", "3", "-4"], ["a", "b_2", "Upper"]))
    return {k: rng.choice((rng.choice(WORDS), rng.choice(("a", "c")), 4, None)) for k in ks[:rng.randrange(4)]}


def randoms(ev, tmp):
    objs = []
    for _ in range(20):
        kind = rng.choice(list(CLS))
        d = good(kind)
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            f = rng.choice(sorted(set(d) | {"type", "name", "extra", "min", "default"}))
            if rng.random() < 0.3:
                d.pop(f, None)
            elif f != "enums":
                d[f] = rvalue()
        if rng.random() < 0.3 and isinstance(d.get("mappings"), dict):
            d["mappings"] = {str(k): v for k, v in d["mappings"].items()}
        schema = rng.choice(("all", "all", "some", "none"))
        obj = build(ev, kind, d, schema)
        if obj is None:
            continue
        objs.append((kind, obj))
        if textual(obj):
            rounds(ev, obj, kind, obj.valid, schema, tmp, [rng.choice(FORMS)])
    for _ in range(6):
        k, a = rng.choice(objs)
        compare(ev, a, rng.choice(objs)[1], k)


for _ in range(ctx.n(60, 800)):
    run(randoms)

# ---- canaries
ts = ctx.batches[("TraceSerdes", None)]["traces"]
missing = []


def canary(what, pick, change):
    for t in ts:
        for i, e in enumerate(t["ev"]):
            if not t.get("canary") and pick(e):
                bad = copy.deepcopy(t)
                change(bad["ev"][i])
                ctx.add("TraceSerdes", bad["ev"], bad["cfg"], canary=True, chunk=40)
                return
    missing.append(what)


canary("valid", lambda e: e["op"] == "build" and e["ok"] and e["valid"] and e["schema"] == "all", lambda e: e.update(valid=False))
canary("invalid", lambda e: e["op"] == "build" and e["ok"] and not e["valid"], lambda e: e.update(valid=True))
canary("has", lambda e: e["op"] == "build" and e["ok"] and e["valid"] and e["kind"] == "user_enum" and e["schema"] == "all", lambda e: e.update(has=e["has"][1:]))
canary("round", lambda e: e["op"] == "round" and e["ok"], lambda e: e.update(has=e["has"][1:]))
canary("eq", lambda e: e["op"] == "round" and e["eq"], lambda e: e.update(eq=False))
canary("was", lambda e: e["op"] == "round" and e["ok"], lambda e: e.update(valid=not e["was"]))
canary("compare", lambda e: e["op"] == "compare", lambda e: e.update(eq=not e["eq"]))
canary("was invalid", lambda e: e["op"] == "round" and e["ok"] and not e["was"], lambda e: e.update(valid=True))
canary("describe", lambda e: e["op"] == "describe", lambda e: e.update(valid=False))
canary("next", lambda e: e["op"] == "next", lambda e: e.update(a=e["a"] + 1))
canary("prim", lambda e: e["op"] == "prim", lambda e: e["has"].update(max="3"))
canary("text", lambda e: e["op"] == "text", lambda e: e.update(multi=not e["multi"]))
canary("inner", lambda e: e["op"] == "describe", lambda e: e.update(inner=False))
canary("all", lambda e: e["op"] == "all", lambda e: e.update(names=e["names"][1:]))
ctx.stats["canary_kinds_missing"] = missing
ctx.finish()

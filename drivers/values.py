"""Abstract values shared with specs/Codec.tla."""
import math
import struct


def digits(n):
    return [int(c) for c in str(abs(n))]


def value(v):
    if isinstance(v, bool):
        return {"k": "bool", "b": v}
    if isinstance(v, int):
        return {"k": "int", "neg": v < 0, "d": digits(v)}
    return flt(float(v))


def flt(v):
    neg = math.copysign(1.0, v) < 0
    r = {"k": "float", "cls": "fin", "neg": neg, "lead": 0, "e": 0, "m": [0] * 13}
    if math.isnan(v):
        r["cls"] = "nan"
    elif math.isinf(v):
        r["cls"] = "inf"
    elif v == 0.0:
        r["cls"] = "zero"
    else:
        h = abs(v).hex()            # 0xL.mmmmmmmmmmmmmp+e
        man, e = h[2:].split("p")
        r["lead"] = int(man[0])
        m = man[2:]
        r["m"] = [int(c, 16) for c in m.ljust(13, "0")]
        r["e"] = int(e)
    return r


def typed(prim, v):
    """The abstract form of a value held in a channel of this type."""
    name = prim.value.name
    if name == "boolean":
        return {"k": "bool", "b": bool(v)} if isinstance(v, bool) else value(v)
    if name in ("float", "double"):
        return flt(v) if isinstance(v, float) else value(v)
    return {"k": "int", "neg": v < 0, "d": digits(v)} if isinstance(v, int) and not isinstance(v, bool) else value(v)


def tm(t):
    """A dyadic time: whole seconds (digits) and 1024ths."""
    s = math.floor(t)
    n = (t - s) * 1024
    assert n == int(n) and t >= 0, t
    return {"s": digits(int(s)), "n": int(n)}


def ubytes(n, width):
    if not isinstance(n, int) or n < 0 or n >= 256 ** width:
        return [-1]
    return list(n.to_bytes(width, "big"))


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1 / 3, 3.4028234663852886e38, -3.4028234663852886e38, 1.401298464324817e-45,
          1.1754943508222875e-38, 1e-40, 7.006492321624085e-46, 7.006492321624086e-46, 16777217.0, 16777219.0, 2.5, 1e10, 1e-300,
          float("inf"), float("-inf"), 0.99999999, 3.40282356e38]
DOUBLES = FLOATS + [1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e300, -1e-310, 123456.789]


def extremes(prim):
    name = prim.value.name
    if name == "boolean":
        return [False, True]
    if name == "float":
        return FLOATS
    if name == "double":
        return DOUBLES
    bits = prim.value.size * 8
    if prim.value.signed:
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
        return [0, 1, -1, lo, hi, lo + 1, hi - 1, hi // 2]
    hi = (1 << bits) - 1
    return [0, 1, hi, hi - 1, hi // 2, hi // 2 + 1]


def rand_value(prim, rng):
    name = prim.value.name
    if rng.random() < 0.5:
        return rng.choice(extremes(prim))
    if name == "boolean":
        return rng.random() < 0.5
    if name == "float":
        return struct.unpack("!f", struct.pack("!f", rng.choice((rng.uniform(-1e6, 1e6), rng.gauss(0, 1), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-44, 38)))))[0]
    if name == "double":
        return rng.choice((rng.uniform(-1e6, 1e6), rng.gauss(0, 1), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-320, 308)))
    ex = extremes(prim)
    return rng.randrange(min(ex), max(ex) + 1)


def parsed(res):
    """The abstract form of a decoded frame."""
    if res is None:
        return {"none": True}
    h = res.header
    items = []
    body = res.body
    k = int(h.type)
    if k == 1:
        for c in body["channels"]:
            items.append({"id": c["id"], "name": c["channel"].name, "v": value(c["value"])})
    elif k == 2:
        for c in body["events"]:
            items.append({"id": c["id"], "name": c["channel"].name,
                          "pv": value(c["previous"]["value"]), "pt": ubytes(c["previous"]["time"], 8),
                          "v": value(c["current"]["value"]), "t": ubytes(c["current"]["time"], 8)})
    elif k == 3:
        items.append({"mtype": body["message_type"], "number": ubytes(body["message_number"], 2),
                      "mcrc": ubytes(body["message_crc"], 4), "index": ubytes(body["fragment_index"], 2),
                      "total": ubytes(body["total_fragments"], 2), "data": list(body["fragment_bytes"])})
    elif k == 4:
        items.append({"id": body["id"], "index": ubytes(body["index"], 4), "data": list(body["data"])})
    return {"none": False, "app": ubytes(h.app_id, 2), "kind": k, "ts": ubytes(h.timestamp, 8),
            "count": ubytes(h.size, 4), "len": h.length, "items": items,
            "crc": [] if res.footer.crc is None else ubytes(res.footer.crc, 4)}

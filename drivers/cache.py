"""C28: data caches that are written, cleaned, loaded and shared by instances."""
import copy
import os
import shutil
import tempfile
from common import Ctx, guard, end

from vtelem.classes.data_cache import DataCache

ctx = Ctx()
rng = ctx.rng


def tok(v):
    """A canonical text of a value that keeps types apart."""
    if isinstance(v, dict):
        return "{" + ",".join(sorted("%s:%s" % (tok(k), tok(x)) for k, x in v.items())) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(map(tok, v)) + "]"
    return "%s %s" % (type(v).__name__, ascii(v))


def files(d):
    return sum(len(f) + len(s) for _, s, f in os.walk(d))


class World:
    def __init__(self, root):
        self.ev, self.root = [], root
        self.c = {}
        self.where = {}

    def path(self, d):
        return os.path.join(self.root, "sub", "d%d" % d)

    def mem(self, i):
        return [{"k": k, "v": tok(v)} for k, v in self.c[i].data.items()]

    def open(self, i, d=1):
        self.c[i] = DataCache(self.path(d))
        self.where[i] = d
        self.ev.append({"op": "open", "i": i, "d": d, "mem": self.mem(i)})

    def put(self, i, k, v):
        self.c[i].data[k] = v
        self.ev.append({"op": "put", "i": i, "k": k, "v": tok(v)})

    def drop(self, i, k):
        if k in self.c[i].data:
            del self.c[i].data[k]
            self.ev.append({"op": "drop", "i": i, "k": k})

    def write(self, i):
        self.c[i].write()
        self.ev.append({"op": "write", "i": i, "i2": self.where[i], "mem": self.mem(i)})

    def clean(self, i):
        self.c[i].clean()
        self.ev.append({"op": "clean", "i": i, "i2": self.where[i], "mem": self.mem(i), "files": files(self.path(self.where[i]))})

    def load(self, i, d):
        self.c[i].load(self.path(d))
        self.ev.append({"op": "load", "i": i, "d": d, "mem": self.mem(i)})


def run(fn, ident=None):
    root = tempfile.mkdtemp()
    w = World(root)
    try:
        with guard(w.ev):
            fn(w)
    finally:
        shutil.rmtree(root)
    w.ev.append(end())
    ctx.add("TraceCache", w.ev, ident=ident)


STR = ["", "x", "yes", "no", "null", "~", "1e3", "0o17", "0x1f", "12", "1.5", "x\ny\n", "\n", " lead", "trail ", "\u00e9\u2603", "2001-01-01",
       "# c", "\t", "\x07", "\u2028x", "{{x}}", "%s", "\r\n", "- a", "a: b", "'q'", '"q"', "[1]", "!tag", "&a", "*a", "|", ">", "true", ".inf", "a" * 300]
NUM = [0, -1, 1, 255, 1 << 31, 1 << 70, 0.1, -0.5, 1e20, 1e-9, 1e300, float("inf"), True, False, None]


def value(depth=2):
    x = rng.random()
    if depth and x < 0.35:
        return {rng.choice([rng.choice(STR[:16]), rng.randrange(5), str(rng.randrange(5))]): value(depth - 1) for _ in range(rng.randrange(0, 4))}
    if depth and x < 0.5:
        return [value(depth - 1) for _ in range(rng.randrange(0, 4))]
    return rng.choice(STR if rng.random() < 0.5 else NUM)


def top():
    return {rng.choice(("a", "b", 1, "1", "yes", "")): value() for _ in range(rng.randrange(0, 4))}


KEYS = ["a", "b", "0", "1", "key one", "yes", "null", "\u00e9", "_x", "A"]

for h in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.12:
        continue

    def fn(w):
        w.open(1)
        w.open(2)
        for op, i, k in h:
            i = int(i)
            if op == "put":
                w.put(i, k, top())
            elif op == "drop":
                w.drop(i, k)
            else:
                getattr(w, op)(i)
        w.open(1)
    run(fn)

for _ in range(ctx.n(120, 2500)):
    def fn(w):
        w.open(1)
        w.open(2, rng.choice((1, 2)))
        for _ in range(rng.randrange(5, 25)):
            i = rng.choice((1, 1, 2))
            op = rng.random()
            if op < 0.45:
                w.put(i, rng.choice(KEYS), top() if rng.random() < 0.8 else rng.choice([x for x in NUM if x] + STR[5:]))
            elif op < 0.5:
                w.drop(i, rng.choice(KEYS))
            elif op < 0.7:
                w.write(i)
            elif op < 0.8:
                w.clean(i)
            else:
                w.open(i, w.where[i])
        w.open(1, w.where[1])
    run(fn)

# loading a second directory adds what is there
for _ in range(ctx.n(30, 400)):
    def fn(w):
        w.open(1, 1)
        w.open(2, 2)
        for k in rng.sample(KEYS[:5], 2):
            w.put(1, k, top())
        for k in rng.sample(KEYS[5:], 3):
            w.put(2, k, top())
        w.write(1)
        w.write(2)
        if rng.random() < 0.5:
            w.open(1, 1)
        w.load(1, 2)
        w.load(1, 2)
        w.load(1, 1)
        if rng.random() < 0.5:
            w.clean(1)
            w.load(1, 2)
        w.write(1)
        w.open(2, 1)
    run(fn)

# keys and values that can't be stored this way (see KNOWN_FINDINGS.txt)
def fn(w):
    w.open(1)
    w.put(1, "a.b", {"x": 1})
    w.write(1)
    w.open(1)


run(fn, "dotted-key")


for empty in (None, 0, 0.0, False, "", []):
    def fn(w):
        w.open(1)
        w.put(1, "k", empty)
        w.write(1)
        w.open(1)
    run(fn, "empty-value")

ts = ctx.batches[("TraceCache", None)]["traces"]
for t in ts:
    bad = copy.deepcopy(t)
    es = [e for e in bad["ev"] if e["op"] == "open" and e["mem"]]
    if es and "id" not in bad:
        es[-1]["mem"][0]["v"] += "?"
        ctx.add("TraceCache", bad["ev"], canary=True)
        break
ctx.finish()

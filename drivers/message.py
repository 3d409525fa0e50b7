"""C07, C08: messages through fragments, caches, restarts and interruptions."""
import copy
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading
from common import Ctx, guard, end
from values import tm, ubytes

from vtelem.classes.user_enum import user_enum
from vtelem.frame.framer import Framer
from vtelem.message.cache import MessageCache, from_temp_dir
from vtelem.message.framer import MessageFramer
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import MessageType

ctx = Ctx()
rng = ctx.rng
MT = list(MessageType)


def wire(f):
    d, n = f.raw
    return bytes(d[:n]) if len(d) == n else bytes(d)


class Run:
    def __init__(self, mtu, crc, app=0.25):
        self.framer = MessageFramer(mtu, app, crc)
        self.env = TelemetryEnvironment(4096, app_id_basis=app, use_crc=crc)
        self.ev = []
        self.cfg = {"mtu": mtu, "crc": crc, "app": ubytes(self.env.app_id.get(), 2)}
        self.dir = tempfile.mkdtemp()
        self.base = os.path.join(self.dir, "cache")
        self.cache = None
        self.notes = []

    def cb(self, h):
        def callback(mtype, number, data):
            self.notes.append({"h": h, "mtype": int(mtype), "number": number, "data": list(data)})
        return callback

    def take(self):
        r, self.notes = self.notes, []
        return r

    # ---- the sender
    def serialize(self, data, mtype=MessageType.AGNOSTIC, time=None, how="bytes", sample=None):
        """Returns the wires of the fragments."""
        e = {"op": "serialize", "mtype": int(mtype), "bytes": [], "timed": time is not None,
             "time": tm(time if time is not None else 0.0), "ok": True, "total": 0, "size": 0, "frames": []}
        fn = {"bytes": self.framer.serialize_message, "str": self.framer.serialize_message_str,
              "json": self.framer.serialize_message_json, "object": self.framer.serialize_object}[how]
        raw = {"bytes": lambda: data, "str": lambda: data.encode("utf-8"), "json": lambda: json.dumps(data).encode("utf-8"),
               "object": lambda: data.json_str().encode("utf-8")}[how]()
        e["bytes"] = list(raw)
        try:
            frames, size = fn(data, time, mtype) if how != "object" else fn(data, time, message_type=mtype)
        except AssertionError:
            e["ok"] = False
            self.ev.append(e)
            return []
        ws = [wire(f) for f in frames]
        idx = range(len(ws)) if sample is None else [i for i in sample if i < len(ws)]
        e["total"], e["size"] = len(ws), size
        e["frames"] = [{"i": i, "w": list(ws[i])} for i in idx]
        self.ev.append(e)
        return ws

    def many(self, mtype, n):
        for _ in range(n):
            self.framer.serialize_message(b"", 0.0, mtype)
        self.ev.append({"op": "many", "mtype": int(mtype), "n": n})

    # ---- the receiver
    def decode(self, w):
        r = self.env.decode_frame(w, len(w))
        b = r.body
        f = {"mtype": b["message_type"], "crc": ubytes(b["message_crc"], 4), "number": b["message_number"],
             "index": b["fragment_index"], "total": b["total_fragments"], "data": list(b["fragment_bytes"])}
        return r, f

    def open(self, handlers=()):
        m = {}
        for h, t in handlers:
            m.setdefault(t, []).append(self.cb(h))
        self.cache = MessageCache(self.base, m or None)
        self.ev.append({"op": "load", "handlers": [{"h": h, "mtype": int(t)} for h, t in handlers], "notes": self.take()})

    def handler(self, h, t):
        self.cache.add_callback(t, self.cb(h))
        self.ev.append({"op": "handler", "h": h, "mtype": int(t)})

    def ingest(self, w):
        r, f = self.decode(w)
        self.cache.ingest(r)
        self.ev.append({"op": "in", "f": f, "notes": self.take()})

    def list(self):
        offers = []
        for t in MT:
            for c in self.cache.complete(t):
                got = self.cache.content(t, c)
                offers.append({"mtype": int(t), "crc": ubytes(c, 4), "number": -1 if got is None else got[0],
                               "data": [] if got is None else list(got[1])})
        self.ev.append({"op": "list", "offers": offers})

    def content(self, w):
        _, f = self.decode(w)
        crc = int.from_bytes(bytes(f["crc"]), "big")
        for t in (MT[f["mtype"]], MT[(f["mtype"] + 1) % len(MT)]):
            for c in (crc, (crc + 1) % (1 << 32)):
                got = self.cache.content(t, c)
                self.ev.append({"op": "content", "mtype": int(t), "crc": ubytes(c, 4), "has": got is not None,
                                "number": 0 if got is None else got[0], "data": [] if got is None else list(got[1])})

    def save(self):
        self.cache.write()
        self.ev.append({"op": "save"})

    def clean(self):
        self.cache.clean()
        self.ev.append({"op": "clean"})

    def stop(self, w, point):
        """
        The process stops while it receives w: before its k-th operation on the file
        system ("op", k), or once n bytes of a file are written ("bytes", n).
        Returns whether it was still stopped in time.
        """
        r, f = self.decode(w)
        pid = os.fork()
        if pid == 0:
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if point[0] == "bytes":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (point[1], resource.RLIM_INFINITY))
                else:
                    count = [0]

                    def hook(name, args):
                        if name.split(".")[0] in ("open", "os", "shutil") and args and isinstance(args[0], (str, bytes)) \
                                and os.fsdecode(args[0]).startswith(self.dir):
                            if count[0] == point[1]:
                                os._exit(9)
                            count[0] += 1
                    sys.addaudithook(hook)
                self.cache.ingest(r)
                os._exit(0)
            except BaseException:
                os._exit(7)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if st == 7:
            self.ev.append({"op": "crash", "what": "receiving raised an exception"})
        self.ev.append({"op": "stop", "f": f, "whole": st == 0})
        self.cache = None
        return st != 0

    def finish(self, add=True):
        self.ev.append(end())
        shutil.rmtree(self.dir, ignore_errors=True)
        if add:
            ctx.add("TraceMessage", self.ev, self.cfg)


def blob(n):
    return bytes(rng.randrange(256) for _ in range(n))


def three(r, per):
    """Messages of two, three and one fragments; the first two may share a type."""
    t1 = rng.choice(MT)
    t2 = t1 if rng.random() < 0.6 else rng.choice(MT)
    t3 = rng.choice((t1, rng.choice(MT)))
    a = r.serialize(blob(per + rng.randrange(1, per + 1)), t1, rng.choice((None, 1.5)))
    b = r.serialize(blob(2 * per + rng.randrange(1, per + 1)), t2)
    c = r.serialize(rng.choice((b"", blob(per), blob(1))), t3)
    return (t1, t2, t3), [a, b, c]


def replay(h, every):
    crc = rng.random() < 0.5
    per = rng.choice((1, 2, 5))
    r = Run(15 + 11 + 4 * crc + per, crc)
    with guard(r.ev):
        ts, ms = three(r, per)
        hs = [(1, ts[0]), (2, ts[1]), (3, ts[2])] if rng.random() < 0.8 else []
        r.open(hs)
        if rng.random() < 0.5:
            r.handler(4, rng.choice(ts))
        for op, m, i in h:
            if op == "in":
                r.ingest(ms[m - 1][i])
            elif op == "stop":
                r.stop(ms[m - 1][i], rng.choice((("op", rng.randrange(0, 8)), ("bytes", rng.randrange(0, per + 1)))))
                r.open(hs)
            elif op == "save":
                r.save()
            elif op == "clean":
                r.clean()
            elif op == "load":
                r.open(hs)
            if every:
                r.list()
        r.list()
        for w in [x for m in ms for x in m]:          # everything is still usable
            r.ingest(w)
        r.list()
        r.content(ms[rng.randrange(3)][0])
    r.finish()


def long_history(restarts, steps):
    crc = rng.random() < 0.5
    per = rng.choice((3, 8, 30))
    r = Run(15 + 11 + 4 * crc + per, crc)
    with guard(r.ev):
        pool = []
        live = []
        hs = [(k, rng.choice(MT)) for k in range(rng.randrange(0, 6))]
        hs = sorted(set(hs))
        r.open(hs)
        for _ in range(rng.randrange(2, 6)):
            ws = r.serialize(blob(rng.choice((0, 1, per - 1, per, per + 1, 3 * per, 11 * per, rng.randrange(1, 12 * per)))), rng.choice(MT[:3]),
                             rng.choice((None, 1.0, 2.5)))
            pool.append(list(ws))
            live += ws
        order = list(live)
        mode = rng.randrange(4)
        if mode == 1:
            order.reverse()
        elif mode >= 2:
            rng.shuffle(order)
        extra = rng.choice((0, 0.3, 1.0))
        seq = []
        for w in order:
            seq.append(w)
            if rng.random() < extra:
                seq.append(rng.choice(order))
        if rng.random() < 0.4:
            lost = rng.choice(order)
            seq = [w for w in seq if w != lost]
        for k, w in enumerate(seq[:steps]):
            x = rng.random()
            if restarts and x < 0.25:
                y = rng.random()
                if y < 0.35:
                    r.stop(w, rng.choice((("op", rng.randrange(0, 9)), ("bytes", rng.randrange(0, per + 1)))))
                    r.open(hs)
                elif y < 0.65:
                    r.save()
                elif y < 0.9:
                    r.open(hs)
                else:
                    r.clean()
                r.list()
            else:
                r.ingest(w)
                if x > 0.9:
                    r.list()
                if 0.85 < x < 0.9:
                    r.content(w)
        r.list()
        # the same content again, as a new message
        if pool and rng.random() < 0.3:
            for w in seq[:3]:
                r.ingest(w)
        if restarts:
            r.save()
            r.open(hs)
            r.list()
    r.finish()


for k, h in enumerate(ctx.gen.get("gen", [])):
    if ctx.thorough or rng.random() < (0.12 if ctx.prop == "C07" else 0.03):
        replay(h, k % 2 == 0)

if ctx.prop == "C07":
    # sizes around every multiple of the room of a fragment
    for crc in (True, False):
        over = 15 + 11 + 4 * crc
        for mtu in (over - 15, over - 1, over, over + 1, over + 2, over + 7, over + 40):
            r = Run(mtu, crc, rng.choice((0.1, 0.5, 1.0)))
            with guard(r.ev):
                per = max(1, mtu - over)
                for k, n in enumerate(sorted({0, 1, per - 1, per, per + 1, 2 * per - 1, 2 * per, 2 * per + 1, 5 * per, 5 * per + 1})):
                    r.serialize(blob(n), MT[k % len(MT)], rng.choice((None, 0.0, 3.75)))
                    if mtu <= over and n in (0, 1):
                        r.serialize(blob(n), MT[0], 1.0)
            r.finish()
    # text, JSON and objects
    r = Run(70, True)
    with guard(r.ev):
        r.open([(1, MessageType.TEXT), (2, MessageType.JSON), (3, MessageType.ENUM)])
        for how, mt, xs in (("str", MessageType.TEXT, ["", "plain", "h\u00e9llo \u4e16\u754c \U0001f600 " * 9]),
                            ("json", MessageType.JSON, [{}, {"a": [1, 2.5, None, True], "b": {"c": "\u00fc" * 50}}]),
                            ("object", MessageType.ENUM, [user_enum("e", {k: "name%d" % k for k in range(9)})])):
            for x in xs:
                ws = r.serialize(x, mt, None, how)
                rng.shuffle(ws)
                for w in ws:
                    r.ingest(w)
                got = [r.cache.content_str(mt, c) for c in r.cache.complete(mt)]
                want = {"str": lambda: x, "json": lambda: json.dumps(x), "object": lambda: x.json_str()}[how]()
                if want not in [g[1] for g in got if g]:
                    r.ev.append({"op": "text content missing", "want": want})
        r.list()
    r.finish()
    # the number of a message wraps at the width of its field
    r = Run(40, True)
    with guard(r.ev, 120):
        r.many(MessageType.TEXT, 65533)
        for _ in range(6):
            r.serialize(b"wrap", MessageType.TEXT)
            r.serialize(b"other", MessageType.JSON)
    r.finish()
    # as many fragments as can be described, and one more
    r = Run(15 + 11 + 1, False)
    with guard(r.ev, 120):
        r.serialize(bytes(k % 251 for k in range(65535)), MessageType.JSON, 1.0, sample=(0, 1, 255, 256, 32768, 65533, 65534))
        r.serialize(bytes(65536), MessageType.JSON, 1.0, sample=(0, 1))
        r.serialize(bytes(3), MessageType.JSON, 1.0)
    r.finish()
    for k in range(ctx.n(120, 2500)):
        long_history(False, 200)
else:
    # every point at which receiving one fragment can be interrupted
    for case in range(ctx.n(6, 40)):
        per = rng.choice((2, 4, 9))
        prior = [rng.choice((("in", 1, 0), ("in", 2, 0), ("in", 2, 2), ("in", 3, 0), ("save", 0, 0), ("load", 0, 0)))
                 for _ in range(rng.randrange(0, 5))]
        target = rng.choice(((1, 0), (1, 1), (2, 1), (3, 0)))
        points = [("bytes", n) for n in range(per + 1)] + [("op", k) for k in range(12)]
        if case % 3 == 0:        # the fragment that completes its message
            prior.append(("in", target[0], 1 - target[1] if target[0] == 1 else 0))
        state = rng.getstate()
        for pt in points:
            rng.setstate(state)
            crc = rng.random() < 0.5
            r = Run(15 + 11 + 4 * crc + per, crc)
            late = True
            with guard(r.ev):
                ts, ms = three(r, per)
                hs = [(1, ts[0]), (2, ts[1]), (3, ts[2])]
                r.open(hs)
                for op, m, i in prior:
                    if op == "in":
                        r.ingest(ms[m - 1][i])
                    elif op == "save":
                        r.save()
                    else:
                        r.open(hs)
                late = r.stop(ms[target[0] - 1][target[1]], pt)
                r.open(hs)
                r.list()
                if rng.random() < 0.3:
                    r.save()
                    r.open(hs)
                rest = [x for m in ms for x in m]
                rng.shuffle(rest)
                for w in rest:
                    r.ingest(w)
                    r.list()
                r.save()
                r.open(hs)
                r.list()
            r.finish()
            if pt[0] == "op" and not late:
                break
    for k in range(ctx.n(100, 2500)):
        long_history(True, 60)
    # temporary caches
    for k in range(4):
        r = Run(60, True)
        with guard(r.ev):
            before = set(os.listdir(tempfile.gettempdir()))
            ws = r.serialize(blob(60), MT[k], 1.0)
            with from_temp_dir({MT[k]: [r.cb(1)]}) as cache:
                r.cache = cache
                r.ev.append({"op": "load", "handlers": [{"h": 1, "mtype": int(MT[k])}], "notes": r.take()})
                for w in ws[k % 2:]:
                    r.ingest(w)
                r.list()
                if k % 2:
                    r.save()
                if k == 3:
                    r.clean()
                    for w in ws:
                        r.ingest(w)
            r.ev.append({"op": "temp", "left": len(set(os.listdir(tempfile.gettempdir())) - before)})
        r.finish()

ts = ctx.batches[("TraceMessage", None)]["traces"]
for what in ("data", "dup", "early"):
    for t in ts:
        bad = copy.deepcopy(t)
        hit = False
        for e in bad["ev"]:
            if what == "data" and e["op"] == "list" and any(o["data"] for o in e["offers"]):
                next(o for o in e["offers"] if o["data"])["data"].append(0)
                hit = True
            elif what == "dup" and e["op"] == "in" and e["notes"]:
                e["notes"].append(e["notes"][0])
                hit = True
            elif what == "early" and e["op"] == "list" and e["offers"]:
                e["offers"].pop()
                hit = True
            if hit:
                break
        if hit:
            ctx.add("TraceMessage", bad["ev"], bad["cfg"], canary=True)
            break
ctx.finish()

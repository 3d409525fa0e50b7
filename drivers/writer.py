"""C12: the stream writer."""
import copy
import io
import os
import queue
import struct
import tempfile
import threading
import time
from pathlib import Path
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.enums.daemon import DaemonState
from vtelem.frame.framer import Framer
from vtelem.stream.writer import QueueClientManager, StreamWriter, default_writer
from vtelem.mtu import Host
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
SCRATCH = Path(tempfile.mkdtemp(prefix="writer"))


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


def frame(n, crc=True):
    fr = Framer(64 + 7 * (n % 11), 0.5, crc).new_frame("data", float(n))
    from vtelem.enums.primitive import Primitive
    for _ in range(n % 4):
        fr.add(n % 7, Primitive.UINT8, n % 256)
    fr.finalize(crc)
    data, size = fr.raw
    return fr, struct.pack("!I", size) + bytes(data[:size])


class Out:
    """A stream that reports what happens to it and fails when told to."""

    def __init__(self, w, o, flush, plan):
        self.w, self.o, self.flushes, self.plan, self.n = w, o, flush, plan, 0
        self.closed = False

    def write(self, data):
        data = bytes(data)
        self.n += 1
        n, size = self.w.known.get(data, (-1, len(data)))
        how = "closed" if self.closed else self.plan[1] if self.plan and self.plan[0] == self.n else ""
        if how in ("slowos", "slow"):
            time.sleep(0.75)
            how = "os" if how == "slowos" else ""
        ok = how in ("", "flush")
        self.w.log(op="write", o=self.o, n=n, ok=ok, size=size)
        if how == "os":
            raise BrokenPipeError(32, "broken pipe")
        if how == "timeout":
            raise TimeoutError("timed out")
        if how == "value" or how == "closed":
            raise ValueError("I/O operation on closed file.")
        if how == "short":
            return len(data) - 1
        if how == "none":
            return None
        return len(data)

    def flush(self):
        bad = bool(self.plan) and self.plan[1] == "flush" and self.plan[0] <= self.n
        self.w.log(op="flush", o=self.o, ok=not bad, size=self.w.size)
        if bad:
            raise OSError(5, "input/output error")

    def close(self):
        self.closed = True


class OutQueue(queue.Queue):
    def __init__(self, w, o):
        super().__init__(0)
        self.w, self.o = w, o

    def put(self, item, block=True, timeout=None):
        self.w.log(op="qput", o=self.o, n=-1 if item is None else self.w.frames.get(id(item), -2))
        super().put(item, block, timeout)


class InQueue(queue.Queue):
    def __init__(self, w):
        super().__init__(0)
        self.w = w

    def get(self, block=True, timeout=None):
        x = super().get(block, timeout)
        if x is not None:
            n = self.w.frames.get(id(x), -2)
            self.w.size = self.w.sizes.get(n, 0)
            self.w.log(op="take", n=n)
        return x


class World:
    def __init__(self, progs, kind="env", handler=True):
        self.ev, self.progs = [], progs
        self.known, self.frames, self.sizes, self.keep, self.size = {}, {}, {}, [], 0
        self.env = TelemetryEnvironment(1000, metrics_rate=1.0, app_id_basis=0.5) if kind == "env" else None
        self.w, self.q = default_writer("w", self.handled if handler else None, self.env, queue=InQueue(self))
        self.ids, self.outs, self.n, self.k, self.contexts = {}, {}, 0, 0, {}
        self.sems, self.lists = {}, []
        self.manager = QueueClientManager("m", self.w)
        self.cfg = {"threads": 1 + len(progs), "handler": handler, "kind": kind, "progs": str(progs)}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def handled(self, i):
        o = [k for k, v in self.ids.items() if v == i and isinstance(self.outs.get(k), Out)]
        # a stream can fail before the call that attached it has returned
        self.log(op="handle", o=o[0] if o else self.coming())

    def coming(self):
        return sched.event(lambda: [k for k in self.outs if k not in self.ids and isinstance(self.outs[k], Out)] or ["?"])[0]

    def call(self, what, o, marker=False, cl=False, kind="", flush=False, closer=False):
        t = thread_no()
        self.log(op="call", t=t, what=what, o=o, marker=marker, cl=cl, kind=kind, flush=flush, closer=closer)
        return t

    def ret(self, t, o, ok, i=-1):
        self.log(op="ret", t=t, o=o, ok=bool(ok), id=i)

    def put(self):
        self.n += 1
        f, data = frame(self.n)
        self.keep.append(f)
        self.frames[id(f)] = self.n
        self.known[data] = (self.n, len(data))
        self.sizes[self.n] = len(data)
        self.log(op="put", n=self.n)
        self.q.put(f)

    def add(self, o, kind, plan=None, closer=False):
        flush = kind == "flush"
        if kind == "queue":
            q = self.outs[o] = OutQueue(self, o)
            t = self.call("add", o, kind="queue")
            self.ids[o] = self.w.add_queue(q)
        elif kind == "file":
            path = SCRATCH / "f%d" % len(self.lists) if False else SCRATCH / ("f%d" % (self.k % 3))
            append = rng.random() < 0.5
            old = path.read_bytes() if append and path.exists() else b""
            cm = self.w.add_file(path, flush=rng.random() < 0.5, append=append)
            t = self.call("add", o, kind="file")
            cm.__enter__()
            self.contexts[o] = (cm, path, old)
            self.outs[o] = None
            self.ids[o] = -1000 - self.k
        elif kind == "context":
            s = self.outs[o] = Out(self, o, flush, plan)
            f = (lambda: self.log(op="closer", o=o)) if closer else None
            cm = self.w.stream_added(s, f, flush)
            t = self.call("add", o, kind="stream", flush=flush, closer=closer)
            cm.__enter__()
            self.contexts[o] = (cm, None, closer)
            self.ids[o] = -1000 - self.k
        elif kind == "sem":
            s = self.outs[o] = Out(self, o, flush, plan)
            t = self.call("add", o, kind="sem")
            self.ids[o], self.sems[o] = self.w.add_semaphore_stream(s)
        else:
            s = self.outs[o] = Out(self, o, flush, plan)
            t = self.call("add", o, kind="stream", flush=flush, closer=closer)
            f = (lambda: self.log(op="closer", o=o)) if closer else None
            self.ids[o] = self.w.add_stream(s, f, flush)
        self.k += 1
        self.ret(t, o, True, self.ids[o])

    def rem(self, o, cl=True, marker=True):
        out = self.outs[o]
        if o in self.contexts:
            cm, path, extra = self.contexts.pop(o)
            t = self.call("rem", o, cl=path is None and bool(extra))
            cm.__exit__(None, None, None)
            self.ret(t, o, not any(e["op"] == "write" and e["o"] == o and not e["ok"] for e in self.ev) if path is None else True)
            if path is not None:
                self.content(o, path, extra)
            return
        if isinstance(out, OutQueue):
            t = self.call("rem", o, marker=marker)
            ok = self.w.remove_queue(self.ids[o], marker)
        else:
            t = self.call("rem", o, cl=cl)
            ok = self.w.remove_stream(self.ids[o], cl)
        self.ret(t, o, ok)

    def unknown(self):
        t = self.call("rem", "?", marker=True, cl=True)
        self.ret(t, "?", self.w.remove_stream(7777) if rng.random() < 0.5 else self.w.remove_queue(7777))

    def content(self, o, path, old):
        data = path.read_bytes()
        got = [-1] if data[:len(old)] != old else []
        k = len(old)
        while k < len(data) and got != [-1]:
            n = 4 + struct.unpack("!I", data[k:k + 4])[0]
            got.append(self.known.get(data[k:k + n], (-1, 0))[0])
            k += n
        self.log(op="content", o=o, frames=got, size=len(data) - len(old))

    def op(self, w):
        if w[0] == "put":
            for _ in range(w[1] if len(w) > 1 else 1):
                self.put()
        elif w[0] == "add":
            self.add(*w[1:])
        elif w[0] == "rem":
            self.rem(*w[1:])
        elif w[0] == "await":
            time.sleep(w[1] if len(w) > 1 else 0.5)
        elif w[0] == "restart":
            self.w.stop()
            self.w.start()
        elif w[0] == "unknown":
            self.unknown()

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        self.w.start()
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        time.sleep(1)
        self.finish()

    def finish(self):
        for o in list(self.contexts):
            self.rem(o)
        self.put()
        alive = self.w.get_state() == DaemonState.RUNNING
        self.w.stop()
        self.log(op="quiet")
        for o, s in self.sems.items():
            n = 0
            while s.acquire(blocking=False):
                n += 1
            self.log(op="sem", o=o, n=n)
        m = {k: int(self.w.function["metrics_data"][k]) for k in ("stream_writes", "bytes_written", "stream_count", "queue_writes", "queue_count")}
        self.log(op="final", m=m, alive=alive)
        if self.env is not None:
            m = {k: int(self.env.get_metric("w." + k)) for k in m}
            self.log(op="final", m=m, alive=alive)


def judge(o, res, desc=None, ident=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    ev.append(end())
    ctx.add("TraceWriter", ev, dict(o.cfg, schedule=str(desc)), ident=ident)


C21 = ctx.prop == "C21"


def once(progs, kind, handler=True):
    o = World(progs, "env" if C21 else kind, handler)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


FAILS = ("os", "value", "timeout", "short", "none", "flush", "slowos")


def prog(words):
    """One thread's program; outputs are called o0, o1, ..."""
    out, k, live, gone = [], 0, [], []
    for w in words:
        if w == "put":
            out.append(("put", rng.choice((1, 1, 2, 3))))
            if rng.random() < 0.5:
                out.append(("await", 20))
        elif w == "rem":
            if live:
                o = rng.choice(live)
                live.remove(o)
                gone.append(o)
                out += [("await", 20), ("rem", o, rng.random() < 0.7, rng.random() < 0.7)]
        elif w == "again":
            if gone:
                out.append(("rem", rng.choice(gone)))
            else:
                out.append(("unknown",))
        elif w == "stop":
            out.append(("restart",))
        else:
            o = "o%d" % k
            k += 1
            plan = (rng.randrange(1, 5), rng.choice(FAILS)) if w == "bad" else None
            kind = {"stream": rng.choice(("stream", "sem")), "bad": rng.choice(("stream", "flush", "sem")), "flush": "flush", "queue": "queue",
                    "file": "file" if rng.random() < 0.6 else "context"}[w]
            if plan and plan[1] == "flush":
                kind = "flush"
            out += [("await", 20), ("add", o, kind, plan, kind != "sem" and rng.random() < 0.5)]
            live.append(o)
            if kind in ("file", "context"):
                # only what is still open can be closed
                pass
    ctxs = {p[1] for p in out if p[0] == "add" and p[2] in ("file", "context")}
    seen, res = set(), []
    for p in out:
        if p[0] == "rem" and p[1] in ctxs:
            if p[1] in seen:
                continue
            seen.add(p[1])
        res.append(p)
    # two files of the same name are never open at once
    opened, clean = [], []
    for p in res:
        if p[0] == "add" and p[2] == "file":
            for o in opened:
                clean += [("await", 20), ("rem", o)]
            opened = [p[1]]
        if p[0] == "rem" and p[1] in ctxs:
            if p[1] not in opened and any(c == ("rem", p[1]) for c in clean):
                continue
            opened = [o for o in opened if o != p[1]]
        clean.append(p)
    return clean + [("await", 20)]


for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.006:
        continue
    once([prog(g)], rng.choice(("env", "plain")), rng.random() < 0.8)
WORDS = ("put", "put", "put", "stream", "flush", "bad", "bad", "queue", "file", "rem", "rem", "again", "stop")
for _ in range(ctx.n(150, 3000)):
    once([prog([rng.choice(WORDS) for _ in range(rng.randrange(3, 40))])], rng.choice(("env", "plain")), rng.random() < 0.8)

S, F, Q = "stream", "flush", "queue"
PROGS = [
    # attach and detach while frames are written
    [[("add", "a", S), ("put", 3)], [("add", "b", S, None, True), ("rem", "b"), ("add", "q", Q), ("rem", "q")]],
    # a stream fails while somebody removes it
    [[("add", "a", S, (2, "os"), True), ("add", "b", F), ("put", 3), ("rem", "a")], [("await",), ("add", "c", S)]],
    [[("add", "a", F, (1, "flush"), True), ("add", "q", Q), ("put", 2), ("rem", "a"), ("rem", "q")]],
    [[("add", "a", S, (1, "short"), True), ("put", 3), ("rem", "a")], [("add", "b", S, (1, "value"), True), ("rem", "b")]],
    # two threads remove the same outputs
    [[("add", "a", S, None, True), ("add", "q", Q), ("put", 2), ("await",), ("rem", "a"), ("rem", "q")], [("await",), ("rem", "a"), ("rem", "q")]],
    # removed during a write that takes its time and fails, or not
    [[("add", "a", S, (1, "slowos"), True), ("add", "b", S, (2, "slow"), True), ("put", 2)], [("await",), ("rem", "a"), ("await",), ("rem", "b")]],
    # a stream fails at once
    [[("add", "a", S, (1, "os"))], [("put", 1)]],
    # two threads attach
    [[("add", "a", S), ("add", "qa", Q), ("put", 2)], [("add", "b", S), ("add", "qb", Q)]],
]


class Conc(World):
    def rem(self, o, *a):
        if o in self.ids:
            super().rem(o, *a)


runs = 0
for k, pr in enumerate(PROGS):
    for desc, o, res in sched.explore(lambda: Conc(pr, "env" if C21 or k in (0, 4, 6, 7) else "plain"), rng, ctx.n(300 if k == 6 else 110, 4000),
                                      orders=(None, ["c1", "c0"], ["w", "c0", "c1"], ["c0", "c1", "w"]), two=0.4):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceWriter", None)]["traces"]
left = ["miss", "order", "twice", "late", "count"]
for t in ts:
    if not left:
        break
    b = copy.deepcopy(t)
    ev = b["ev"]
    w = left[-1]
    idx = [k for k, e in enumerate(ev) if e["op"] == "write" and e["ok"]]
    if w == "count":
        idx = [k for k, e in enumerate(ev) if e["op"] == "final"]
        ev[idx[0]]["m"]["queue_writes"] += 1
    elif w == "late":
        idx = [k for k in idx if any(e["op"] == "ret" and e["o"] == ev[k]["o"] and e["ok"] and e["id"] == -1 for e in ev[:k])]
        rs = [k for k, e in enumerate(ev) if e["op"] == "ret" and e["ok"] and e["id"] == -1 and any(x["op"] == "write" and x["o"] == e["o"] and x["ok"] for x in ev[:k])]
        tk = [k for k, e in enumerate(ev) if e["op"] == "take" and rs and k > rs[0]]
        if not tk or b["cfg"]["threads"] > 2:
            continue
        ev.insert(tk[0] + 1, {"op": "write", "o": ev[rs[0]]["o"], "n": ev[tk[0]]["n"], "ok": True, "size": 9})
    elif not idx or b["cfg"]["threads"] > 2:
        continue
    elif w == "twice":
        ev.insert(idx[0] + 1, dict(ev[idx[0]]))
    elif w == "order":
        ev[idx[0]]["n"] += 1
    else:
        o = ev[idx[-1]]["o"]
        if any(e["op"] == "flush" and e["o"] == o for e in ev) or any(e["op"] == "write" and e["o"] == o and not e["ok"] for e in ev):
            continue
        if any(e["op"] == "call" and e["what"] == "rem" and e["o"] == o for e in ev):
            continue
        del ev[idx[-1]]
    left.pop()
    ctx.add("TraceWriter", ev, b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left
ctx.finish()

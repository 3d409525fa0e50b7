"""C23: replaying recordings, in one go, limited, stopped and restarted."""
import copy
import os
import queue as _q
import struct
import tempfile
from pathlib import Path
from common import Ctx, guard, end
import sched
sched.install()
from values import parsed, ubytes
import client_frames as cf

import threading
from queue import Queue
from vtelem.client.file import FileClient, FileDecodeTask, create
from vtelem.frame.framer import Framer
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

ctx = Ctx()
rng = ctx.rng
ENV = None


def frame(kind=None):
    return cf.make(rng, kind or rng.choice(cf.KINDS))


def rec(fs):
    return b"".join(struct.pack("!I", len(f)) + f for f in fs)


class Replay:
    """The file client under the scheduler; `script` is a list of actions."""

    def __init__(self, script, mtu, start=0, ident=True, later=()):
        self.script, self.start = script, start
        self.ev = []
        self.mtu = mtu
        self.env = TelemetryEnvironment(200, metrics_rate=1.0, app_id_basis=3 / 8)
        self.cfg = {"reg": cf.REGCFG, "app": ubytes(self.env.app_id.get(), 2) if ident else [], "mtu": mtu,
                    "later": [list(f) for f in later]}
        self.ident = ident

    def out(self):
        res, eof = [], False
        while not self.q.empty():
            x = self.q.get()
            if x is None:
                eof = True
            else:
                res.append({"none": True} if eof else parsed(x))   # nothing follows the end
        return res, eof

    def main(self, s):
        fd, name = tempfile.mkstemp()
        os.close(fd)
        try:
            self.body(name, s)
        finally:
            os.unlink(name)

    def body(self, name, s):
        path = Path(name)
        self.q = Queue()
        c = None
        limit = None
        for act in self.script:
            if act[0] == "file":
                with open(name, "ab") as f:
                    f.write(act[1])
                self.ev.append({"op": "file", "bytes": list(act[1])})
            elif act[0] == "limit":
                limit = None if act[1] < 0 else act[1]
                if c is not None:
                    c.task = FileDecodeTask(path, c.task.byte_index, limit)
                self.ev.append({"op": "limit", "n": act[1]})
            else:
                if c is None:
                    c = FileClient(FileDecodeTask(path, 0, limit), self.q, cf.registry(),
                                   self.env.app_id if self.ident else None, self.env, self.mtu)
                assert c.start(), "start refused"
                th = c.thread
                stopped = False
                if act[0] == "stop":
                    stopped = c.stop()
                th.join()
                fs, eof = self.out()
                self.ev.append({"op": "run", "out": fs, "eof": eof, "count": c.frame_count, "at": c.task.byte_index,
                                "stopped": bool(stopped)})


def judge(o, res, desc=None):
    if res.deadlock or res.livelock:
        o.ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        o.ev.append({"op": "crash", "what": "%s: %r" % (n, e)})
    if res.main_exc is not None and not res.deadlock:
        o.ev.append({"op": "crash", "what": repr(res.main_exc)})
    o.ev.append(end())
    ctx.add("TraceFile", o.ev, dict(o.cfg, schedule=str(desc)))


def once(script, mtu, **kw):
    o = Replay(script, mtu, **kw)
    res = sched.Sched(sched.Policy(), lines=False).run(o.main)
    judge(o, res)


def recording(n, mix):
    """Frames of a recording: also foreign and undecodable ones."""
    fs = []
    for _ in range(n):
        x = rng.random()
        if x < mix:
            fs.append(rng.choice((bytes(rng.randrange(256) for _ in range(rng.randrange(0, 25))), cf.make(rng, "data", app=5),
                                  frame()[:-1], b"")))
        else:
            fs.append(frame())
    return fs


SIZES = (60, 70, 90, 200)
for k, h in enumerate(ctx.gen.get("gen", [])):
    if not ctx.thorough and rng.random() > 0.06:
        continue
    fs = recording(rng.randrange(1, 6), rng.choice((0, 0.3)))
    data = rec(fs)
    cut = rng.randrange(0, len(data) + 1)
    script = [("file", data[:cut])]
    grown = False
    n = 0
    for op, v in h:
        if op == "limit":
            n = v
            script.append(("limit", v))
        elif op == "raise":
            if n >= 0:
                n += v
                script.append(("limit", n))
        elif op == "grow":
            script.append(("file", data[cut:] if not grown else rec(recording(1, 0))))
            grown = True
        else:
            script.append((op,))
    script += [("limit", -1), ("run",)]
    once(script, max(rng.choice(SIZES), max(map(len, fs))))

# every truncation of a recording, also at different granularities
for mtu in (45, 64, 200):
    fs = [f for f in (frame() for _ in range(30)) if len(f) <= mtu][:4] + [b""]
    data = rec(fs)
    for n in range(0, len(data) + 1, 1 if ctx.thorough else 3):
        once([("file", data[:n]), ("run",)], mtu)
# limits
for mix in (0, 0.4):
    fs = recording(9, mix)
    for lim in range(0, 12):
        once([("file", rec(fs)), ("limit", lim), ("run",), ("limit", lim + 2), ("run",), ("limit", -1), ("run",), ("run",)],
             max(max(map(len, fs)), rng.choice(SIZES)))
# larger files
for _ in range(ctx.n(6, 60)):
    fs = recording(40, rng.choice((0, 0.2)))
    once([("file", rec(fs)), ("run",), ("file", rec(recording(3, 0.2))), ("run",)], max(map(len, fs)), ident=rng.random() < 0.5)
# damage: an announced length beyond the maximum
for _ in range(ctx.n(25, 300)):
    a, b = [frame() for _ in range(3)], [frame() for _ in range(8)]
    big = struct.pack("!I", rng.choice((201, 1 << 20, (1 << 32) - 1)))
    once([("file", rec(a) + big + rec(b)), ("run",), ("run",)], 200, later=b)

# a recording made by the stream writer
class Recorded(Replay):
    def body(self, name, s):
        env = TelemetryEnvironment(self.mtu, metrics_rate=1.0, app_id_basis=3 / 8)
        ids = [env.add_channel(n, p, 0.0, True) for n, p, st in cf.REG]
        w, _ = default_writer("frames", env=None, queue=env.frame_queue)
        raw = []
        _, seen = w.registered_queue()
        with create(w, env, self.mtu) as (client, queue):
            with w.booted():
                for k in range(4):
                    for c, r in zip(ids, cf.REG):
                        env.set_now(c, cf.rand_for(rng, r[1]))
                    env.advance_time(1.0)
                    env.dispatch_now()
                w.await_empty()
            # another output of the writer tells what was recorded
            while not seen.empty():
                f = seen.get()
                raw.append(bytes(f.raw[0]))
            assert raw
            self.ev.append({"op": "file", "bytes": list(rec(raw))})
            chans = [env.channel_registry.get_item(k) for k in range(env.channel_registry.count())]
            self.cfg["reg"] = [{"name": c.name, "type": c.type.value.name, "stream": False} for c in chans]
            self.q = queue
            assert client.start()
            client.thread.join()
            fs, eof = self.out()
            self.ev.append({"op": "run", "out": fs, "eof": eof, "count": client.frame_count, "at": client.task.byte_index, "stopped": False})


for mtu in (64, 100):
    o = Recorded([], mtu)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))

# stopping and restarting at every point
fs = [frame("data") for _ in range(4)] + [b"junk"] + [frame("data")]
m = max(map(len, fs))
runs = 0
for script in ([("file", rec(fs)), ("stop",), ("run",)], [("file", rec(fs)), ("limit", 3), ("stop",), ("limit", 4), ("stop",), ("limit", -1), ("run",)],
               [("file", rec(fs)), ("stop",), ("stop",), ("run",)]):
    for desc, o, res in sched.explore(lambda: Replay(script, m), rng, ctx.n(90, 1500), orders=(None, ["main"])):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceFile", None)]["traces"]
for what in ("drop", "twice", "count", "eof"):
    for t in ts:
        bad = copy.deepcopy(t)
        hit = False
        for e in bad["ev"]:
            if e["op"] == "run" and e["out"] and not e["stopped"] and e["eof"]:
                if what == "drop":
                    e["out"].pop()
                elif what == "twice":
                    e["out"].append(e["out"][-1])
                elif what == "count":
                    e["count"] += 1
                else:
                    e["eof"] = False
                hit = True
                break
        if hit:
            ctx.add("TraceFile", bad["ev"], bad["cfg"], canary=True)
            break
ctx.finish()

"""C15: udp destinations."""
import copy
import errno
import json
import os
import queue
import re
import socket
import struct
import threading
import time
from common import Ctx, end, describe
import sched
sched.install()

from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories import udp_client_manager as commands
from vtelem.frame.framer import Framer
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

import functools
from vtelem import mtu as _mtu
if hasattr(_mtu, "build_dummy_frame"):
    # the probe is the same every time, and takes long to build
    _mtu.build_dummy_frame = functools.lru_cache(None)(_mtu.build_dummy_frame)

import vtelem.classes.udp_client_manager as _udp


class FailingSocket(socket.socket):
    """Fails to send with a given error, for the peers in FAILING."""

    def send(self, *a):
        e = FAILING.get(self.getpeername()[1])
        if e:
            raise OSError(e, os.strerror(e))
        return super().send(*a)


FAILING = {}
CAN_FAIL = hasattr(_udp, "create_udp_socket")
if CAN_FAIL:
    _create = _udp.create_udp_socket
    _udp.create_udp_socket = lambda *a, **k: FailingSocket(fileno=_create(*a, **k).detach())

ctx = Ctx()
rng = ctx.rng


def thread_no():
    n = threading.current_thread().name
    return int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 1


def frame(n, huge=False):
    if huge:
        fr = Framer(70000, 0.5, True).new_frame("data", float(n))
        fr.finalize()
        fr.pad_to_mtu()
        fr.finalize()
        return fr
    fr = Framer(64 + 7 * (n % 11), 0.5, n % 2 == 0).new_frame("data", float(n))
    for _ in range(n % 4):
        fr.add(n % 7, Primitive.UINT8, n % 256)
    fr.finalize(n % 2 == 0)
    return fr


class InQueue(queue.Queue):
    def __init__(self, w):
        super().__init__(0)
        self.w = w

    def get(self, block=True, timeout=None):
        x = super().get(block, timeout)
        if x is not None:
            self.w.log(op="take", n=self.w.frames.get(id(x), -2), size=x.raw[1])
        return x


class World:
    def __init__(self, progs, command=False, limit=0):
        self.ev, self.progs = [], progs
        self.known, self.frames, self.keep, self.n = {}, {}, [], 0
        self.w, self.q = default_writer("w", None, None, queue=InQueue(self))
        self.m = UdpClientManager(self.w)
        self.recv, self.ids, self.ports = {}, {}, {}
        self.cmd = None
        if command:
            self.cmd = CommandQueueDaemon("cmd", TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5))
            commands.create_udp_client_commander(self.m, self.cmd)
        self.env = None
        if limit:
            self.env = TelemetryEnvironment(limit, metrics_rate=None, app_id_basis=0.5)
            for k in range(30):
                self.env.add_channel("c%d" % k, rng.choice((Primitive.UINT8, Primitive.UINT64, Primitive.DOUBLE)), 0.0)
        self.cfg = {"threads": 1 + len(progs), "command": command, "limit": limit, "progs": str(progs)}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def command(self, **data):
        return self.cmd.execute({"command": "udp", "data": data})

    def put(self, huge=False):
        if self.env is not None:
            self.env.dispatch(float(self.n + 1), False)
            fs = []
            while not self.env.frame_queue.empty():
                fs.append(self.env.frame_queue.get())
        else:
            fs = [frame(self.n + 1, huge)]
        for f in fs:
            self.n += 1
            data, size = f.raw
            data = bytes(data[:size])
            self.keep.append(f)
            self.frames[id(f)] = self.n
            self.known[struct.pack("!I", size) + data] = self.n
            self.log(op="put", n=self.n, size=size)
            self.q.put(f)
            if self.n % 50 == 0:
                time.sleep(1)
                sched.event(lambda: [self.collect(h) for h in self.ids])

    def add(self, h, flush=True, dead=False):
        r = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        r.bind(("127.0.0.1", 0))
        r.setblocking(False)
        self.recv[h], self.ports[h] = r, r.getsockname()[1]
        t = thread_no()
        port = self.ports[h]
        if dead == "zero":
            port = 0
            del self.ports[h]
        elif dead:
            r.connect(("127.0.0.1", 9))
        by_command = self.cmd is not None and not flush
        self.log(op="call", t=t, what="add", h=h, flush=flush)
        if dead:
            self.log(op="break", h=h)
        if by_command:
            ok, msg = self.command(operation="add", host="127.0.0.1", port=port)
            i, mtu = (int(x) for x in re.search(r"'(\d+)'.*'(\d+)'", msg).groups())
        else:
            ok, (i, mtu) = True, self.m.add_client(Host("127.0.0.1", port), flush)
        self.ids[h] = i
        self.log(op="ret", t=t, h=h, ok=ok, id=i, told=True, mtu=mtu)
        if self.env is not None:
            self.env.handle_new_mtu(mtu)
            self.log(op="limit", n=mtu)

    def rem(self, h, how="factory"):
        i = self.ids.get(h, 4242)
        t = thread_no()
        self.log(op="call", t=t, what="rem", h=h, flush=False)
        if how == "direct":
            self.m.remove_client(i)
            ok = True
        elif self.cmd is not None:
            ok = self.command(operation="remove", id=i)[0]
        else:
            ok = commands.remove_client(self.m, {"id": i})[0]
        self.log(op="ret", t=t, h=h, ok=bool(ok), id=-1, mtu=0, told=how != "direct")

    def all(self):
        t = thread_no()
        self.log(op="call", t=t, what="all", h="", flush=False)
        self.m.remove_all()
        self.log(op="ret", t=t, h="", ok=True, id=-1, mtu=0, told=True)

    def broken(self, h, e=0):
        if e and CAN_FAIL and h in self.ports:
            self.log(op="break", h=h)
            FAILING[self.ports[h]] = e
        elif h in self.recv:
            self.log(op="break", h=h)
            self.collect(h)
            # from now on its port refuses what comes from anybody else
            self.recv[h].connect(("127.0.0.1", 9))

    def collect(self, h):
        """what has arrived (kept for later)"""
        store = self.__dict__.setdefault("arrived", {}).setdefault(h, [])
        if h in self.recv:
            while True:
                try:
                    store.append(self.recv[h].recv(65536))
                except BlockingIOError:
                    return

    def list(self):
        if self.cmd is not None:
            d = json.loads(self.command(operation="list")[1])
        else:
            d = json.loads(commands.list_client(self.m, {})[1])
        self.log(op="list", ids=[int(k) for k in d])
        for h, i in self.ids.items():
            ok = True
            try:
                ok = self.m.client_name(i).port > 0
            except AssertionError:
                ok = False
            self.log(op="name", h=h, ok=ok)

    def opened(self):
        try:
            with open("/proc/net/udp", encoding="ascii") as f:
                rows = [x.split() for x in f.readlines()[1:]]
        except OSError:
            return
        for h, p in self.ports.items():
            if h in self.ids:
                self.log(op="open", h=h, n=sum(int(r[2].split(":")[1], 16) == p for r in rows))

    def op(self, w):
        if w[0] == "put":
            for _ in range(w[1] if len(w) > 1 else 1):
                self.put()
        elif w[0] == "await":
            time.sleep(5)
        elif w[0] == "huge":
            self.put(True)
        elif w[0] == "limit":
            self.env.handle_new_mtu(w[1])
            self.log(op="limit", n=w[1])
        elif w[0] == "break":
            sched.event(lambda: self.broken(*w[1:]))
        else:
            getattr(self, w[0])(*w[1:])

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def main(self, s):
        self.w.start()
        if self.cmd is not None:
            self.cmd.start()
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        time.sleep(1)
        for _ in range(5):
            self.put()
        time.sleep(1)
        self.list()
        sched.event(self.opened)
        self.all()
        sched.event(self.opened)
        self.put()
        self.w.stop()
        if self.cmd is not None:
            self.cmd.stop()
        self.log(op="quiet")
        sched.event(self.judged)

    def judged(self):
        for h in self.ids:
            self.collect(h)
            out, extra = [], 0
            for k, d in enumerate(self.arrived[h]):
                got = self.parse(d)
                if got == [-1] and len(d) > 7 and struct.unpack("!I", d[:4])[0] == len(d) - 4 and d[6] == 0 and k == 0:
                    extra += 1    # the probe for the path's limit
                else:
                    out.append(got)
            self.log(op="got", h=h, d=out, extra=extra)
            if h in self.recv:
                self.recv.pop(h).close()

    def parse(self, d):
        if d in self.known:
            return [self.known[d]]
        got, k = [], 0
        while k < len(d):
            if k + 4 > len(d):
                return [-1]
            n = 4 + struct.unpack("!I", d[k:k + 4])[0]
            if d[k:k + n] not in self.known:
                return [-1]
            got.append(self.known[d[k:k + n]])
            k += n
        return got


def judge(o, res, desc=None):
    ev = o.ev
    if res.deadlock or res.livelock:
        ev.append({"op": "hang", "what": str(res.deadlock)})
    for n, e in res.errors:
        ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
    if res.main_exc is not None and not res.deadlock:
        ev.append({"op": "crash", "what": describe(res.main_exc)})
    FAILING.clear()
    for r in o.recv.values():
        r.close()
    ev.append(end())
    ctx.add("TraceUdp", ev, dict(o.cfg, schedule=str(desc)))


def once(*a, **kw):
    o = World(*a, **kw)
    judge(o, sched.Sched(sched.Policy(), lines=False).run(o.main))


def prog(words, limits=False):
    out, k, live, gone = [], 0, [], []
    for w in words:
        if w == "put" and not limits and rng.random() < 0.08:
            out += [("await",), ("huge",), ("put", 2), ("await",)]
        if w == "put":
            out.append(("put", rng.choice((1, 1, 2, 4))))
            continue
        out.append(("await",))
        if w in ("add", "flush"):
            out.append(("add", "h%d" % k, w == "flush", rng.choice((False,) * 10 + (True, True, "zero"))))
            live.append("h%d" % k)
            k += 1
        elif w == "break" and live:
            out.append(("break", rng.choice(live), rng.choice((0, 0, errno.ENETUNREACH, errno.ENOBUFS, errno.EPERM, errno.EMSGSIZE))))
        elif w == "rem" and live:
            h = rng.choice(live)
            live.remove(h)
            gone.append(h)
            out.append(("rem", h, rng.choice(("factory", "direct"))))
        elif w == "again":
            out.append(("rem", rng.choice(gone) if gone else "?", "factory"))
        elif w == "list":
            out.append(("list",))
        elif w == "all":
            out.append(("all",))
            gone += live
            live = []
    if limits:
        for _ in range(4):
            out.insert(rng.randrange(len(out) + 1), ("limit", rng.randrange(60, 400)))
    return out + [("await",)]


for g in ctx.gen.get("gen", []):
    if not ctx.thorough and rng.random() > 0.006:
        continue
    once([prog(g)], rng.random() < 0.4)
WORDS = ("put", "put", "put", "put", "add", "flush", "flush", "break", "rem", "again", "list", "all")
for k in range(ctx.n(120, 2500)):
    limits = k % 4 == 0
    once([prog([rng.choice(WORDS) for _ in range(rng.randrange(3, 30))], limits)], rng.random() < 0.4, rng.randrange(100, 500) if limits else 0)
# more unsent data than is kept before it is sent
once([[("add", "a", False), ("add", "b", True), ("put", 300), ("await",), ("put", 150), ("await",)]])
once([[("add", "a", False), ("put", 40), ("await",), ("break", "a"), ("put", 300), ("await",), ("put", 300), ("await",)]])

PROGS = [
    [[("add", "a"), ("put", 3), ("rem", "a")], [("add", "b"), ("put", 1) if False else ("list",)]],
    [[("add", "a"), ("add", "b"), ("break", "a"), ("put", 3), ("rem", "a")]],
    [[("add", "a"), ("add", "b"), ("put", 2), ("await",), ("rem", "a")], [("await",), ("rem", "a"), ("rem", "b", "direct")]],
    [[("add", "a"), ("break", "a"), ("put", 3)], [("add", "c", False), ("rem", "c")]],
    [[("put", 3)], [("add", "c", True, True), ("add", "d", False, "zero"), ("rem", "c")]],
]


class Conc(World):
    def rem(self, h, how="factory"):
        if h in self.ids:
            super().rem(h, how)

    def list(self):
        if threading.current_thread().name[0] != "c":
            super().list()


# (what frames are made of is the business of one thread at a time)
SKIP = ("/repo/vtelem/frame", "/repo/vtelem/channel", "/repo/vtelem/mtu.py", "/repo/vtelem/classes/byte_buffer.py", "/repo/vtelem/enums",
        "/repo/vtelem/classes/type_primitive.py", "/repo/vtelem/classes/user_enum.py", "/repo/vtelem/types", "/repo/vtelem/registry")
runs = 0
for pr in PROGS:
    for desc, o, res in sched.explore(lambda: Conc(pr), rng, ctx.n(140, 4000), orders=(None, ["c1", "c0"], ["w", "c0", "c1"], ["c0", "c1", "w"]), two=0.4, skip=SKIP):
        runs += 1
        judge(o, res, desc)
ctx.stats["schedules"] = runs

ts = ctx.batches[("TraceUdp", None)]["traces"]
left = ["lost", "swap", "joined", "open", "listed"]
for t in ts:
    if not left:
        break
    b = copy.deepcopy(t)
    ev = b["ev"]
    w = left[-1]
    if b["cfg"]["threads"] > 2:
        continue
    broken = {e["h"] for e in ev if e["op"] == "break"}
    flush = {e["h"]: e["flush"] for e in ev if e["op"] == "call" and e["what"] == "add"}
    idx = [k for k, e in enumerate(ev) if e["op"] == "got" and e["h"] not in broken and flush[e["h"]] and len(e["d"]) > 2]
    if w == "open":
        idx = [k for k, e in enumerate(ev) if e["op"] == "open"]
        if not idx:
            if not t.get("x") and ts[-1] is t:
                left.pop()
            continue
        ev[idx[-1]]["n"] += 1
    elif w == "listed":
        idx = [k for k, e in enumerate(ev) if e["op"] == "list" and e["ids"] and not broken]
        if not idx:
            continue
        ev[idx[-1]]["ids"].pop()
    elif not idx:
        continue
    elif w == "lost":
        del ev[idx[0]]["d"][1]
    elif w == "swap":
        d = ev[idx[0]]["d"]
        d[0], d[1] = d[1], d[0]
    else:
        d = ev[idx[0]]["d"]
        d[0:2] = [d[0] + d[1]]
    left.pop()
    ctx.add("TraceUdp", ev, b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left
ctx.finish()

"""Daemons of every kind, driven through their lifecycle (import after sched.install())."""
import threading
import time

import sched
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import DaemonBase
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.daemon import DaemonOperation, DaemonState
from vtelem.stream.writer import default_writer, StreamWriter
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.classes.metered_queue import create

RATE = 0.5
COUNTERS = ("starts", "stops", "pauses", "unpauses", "count", "errors")


class TaskError(Exception):
    """The task of a daemon fails."""


class Plain(DaemonBase):
    def __init__(self, name, env=None, time_keeper=None):
        super().__init__(name, env, time_keeper)
        self.fin = 0

    def run(self, *_, **__):
        while self.state != DaemonState.STOPPING:
            time.sleep(RATE)
            if self.fin:
                self.fin = 0
                return


def logged(base):
    """The same class, with a task that reports when it begins and ends."""

    class Logged(base):
        world = None

        def run(self, *args, **kwargs):
            w = self.world
            sched.event(lambda: w.ev.append({"op": "begin", "arg": int(args[0]) if args else kwargs.get("arg", 0)}))
            try:
                super().run(*args, **kwargs)
            finally:
                sched.event(lambda: w.ev.append({"op": "leave"}))
    return Logged


def k_plain(w, env):
    d = logged(Plain)("d", env)
    return d, lambda: setattr(d, "fin", 1)


def k_periodic(w, env):
    box = []

    def task(*_, **__):
        if box:
            box.clear()
            raise TaskError()
    d = logged(Daemon)("d", task, RATE, env=env)
    return d, lambda: box.append(1)


def k_kept(w, env):
    k = TimeKeeper("k", RATE)
    box = []

    def task(*_, **__):
        if box:
            box.clear()
            raise TaskError()
    d = logged(Daemon)("d", task, RATE, lambda *a: None, env=env, time_keeper=k)
    return d, lambda: box.append(1)


def k_queue(w, env):
    q = create("q", env)

    def handle(x):
        if x == "boom":
            raise TaskError()
    d = logged(QueueDaemon)("d", q, handle, env)
    return d, lambda: q.put("boom")


def k_writer(w, env):
    q = create("q", env)
    return logged(StreamWriter)("d", q, None, env), None


def k_command(w, env):
    return logged(CommandQueueDaemon)("d", env), None


def k_keeper(w, env):
    return logged(TimeKeeper)("d", RATE), None


def k_telemetry(w, env):
    return logged(TelemetryDaemon)("d", 64, RATE, TimeKeeper("k", RATE), 1.0, app_id_basis=0.5), None


KINDS = [k_plain, k_periodic, k_kept, k_queue, k_writer, k_command, k_keeper, k_telemetry]


def thread_no():
    n = threading.current_thread().name
    return 1 if n == "main" else int(n[1:]) + 2 if n[0] == "c" and n[1:].isdigit() else 0


class World:
    """Clients c0, c1, ... perform programs of operations on one daemon."""

    def __init__(self, kind, progs, with_env=True, counters=False, settle=True, probe=True):
        self.ev, self.progs, self.settle, self.probe = [], progs, settle, probe
        self.env = TelemetryEnvironment(128, metrics_rate=1.0, app_id_basis=0.5) if with_env else None
        if kind is k_keeper:
            self.env = None
        self.d, self.finish = kind(self, self.env)
        if kind is k_telemetry:
            self.env = self.d
        self.d.world = self
        self.d.function["state_change"] = self.changed
        self.narg = 0
        self.cfg = {"threads": 1 + len(progs), "counters": counters, "idle": settle, "body": True, "ends": True, "kind": kind.__name__,
                    "progs": [list(p) for p in progs]}

    def changed(self, prev, state, _):
        sched.event(lambda: self.ev.append({"op": "move", "t": thread_no(), "a": prev.name.lower(), "b": state.name.lower()}))

    def op(self, what):
        t = thread_no()
        if what == "finish":
            if self.finish is not None:
                self.finish()
            return
        if what.startswith("sleep"):
            time.sleep(float(what[5:]))
            return
        byname = what.startswith("p:")
        w = what[2:] if byname else what
        self.narg += 1
        n = self.narg
        if w == "state":
            sched.event(lambda: self.ev.append({"op": "state", "got": self.d.get_state_str()}))
            return
        sched.event(lambda: self.ev.append({"op": "call", "t": t, "what": w, "byname": byname, "arg": n}))
        if byname:
            if w == "unknown":
                r = self.d.perform_str("halt", n)
            elif n % 3 == 0:
                r = self.d.perform(DaemonOperation[w.upper()], n)
            else:
                r = self.d.perform_str(w if n % 3 == 1 else w.title(), n)
        elif w in ("start", "restart"):
            r = getattr(self.d, w)(n) if n % 2 else getattr(self.d, w)(arg=n)
        else:
            r = getattr(self.d, w)()
        sched.event(lambda: self.ev.append({"op": "ret", "t": t, "ok": bool(r)}))

    def body(self, t):
        for w in self.progs[t]:
            self.op(w)

    def final(self):
        d = self.d
        c = {k: int(d.function["metrics_data"][k]) for k in COUNTERS}
        ch = dict(c)
        pub = ""
        if self.env is not None:
            ch = {k: int(self.env.get_metric("d." + k)) for k in COUNTERS}
            pub = self.env.get_enum_metric("d.state")
        self.ev.append({"op": "final", "got": d.get_state_str(), "text": d.get_state().name.lower(), "published": pub,
                        "counters": c, "channels": ch})

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(t,), name="c%d" % t) for t in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.settle:
            for _ in range(12):
                st = self.d.get_state()
                if st == DaemonState.IDLE:
                    break
                if st == DaemonState.PAUSED:
                    self.op("unpause")
                elif st == DaemonState.RUNNING:
                    self.op("stop")
                else:
                    time.sleep(RATE)
            if self.probe:
                self.op("start")
                time.sleep(3 * RATE)
                self.op("p:stop")
            sched.event(self.final)

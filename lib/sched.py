"""
A deterministic cooperative scheduler for real Python code.

`install()` replaces the synchronisation primitives and clocks of the standard
library (threading.Lock/RLock/Thread, the clocks used by threading, queue and
time) by managed ones; it has to run before the code under test is imported.
`run(scenario, policy)` then executes `scenario` (and every thread it starts)
with exactly one thread running at a time; the policy decides at every yield
point which thread continues.  Yield points are the operations on managed
locks, thread start/join/sleep and - for code below `roots` - every source
line and every store to a shared object (attribute or item).  Time is virtual.

Nothing in here knows anything about the code under test except its location.
"""
import _thread
import dis
import sys
import threading
import time as _time
import queue as _queue
import random

_raw_lock = _thread.allocate_lock
_ident = _thread.get_ident
REAL_TIME = _time.time
REAL_MONO = _time.monotonic
ROOTS = ("/repo/vtelem/",)
STORES = {"STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_SLICE"}

STORE_OFFS = {}
ACTIVE = None  # the running Sched


class SchedAbort(BaseException):
    """Raised inside managed threads to unwind them."""


class WouldBlock(AssertionError):
    """An unmanaged thread tried to wait for ever."""


def _me():
    s = ACTIVE
    if s is None:
        return None
    return s.by_ident.get(_ident())


class CLock:
    """threading.Lock / _thread.allocate_lock replacement."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _free_for(self, who):
        return self.count == 0 or (self.reentrant and self.owner == who)

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        who = me if me is not None else _ident()
        s = ACTIVE
        if me is not None:
            if s.aborting:
                raise SchedAbort()
            s.yield_point("acquire")
            if not self._free_for(who):
                if not blocking:
                    return False
                dl = None if timeout is None or timeout < 0 else s.clock + timeout
                if not s.block(lambda: self._free_for(who), dl, "lock"):
                    return False
        elif not self._free_for(who):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            raise WouldBlock("lock is held by another thread for ever")
        self.owner = who
        self.count += 1
        return True

    def release(self):
        me = _me()
        if self.count == 0:
            if ACTIVE is not None and ACTIVE.aborting:
                return
            raise RuntimeError("release unlocked lock")
        if self.reentrant:
            who = me if me is not None else _ident()
            if self.owner is not who and self.owner != who:
                if ACTIVE is not None and ACTIVE.aborting:
                    return
                raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if me is not None and not ACTIVE.aborting:
            ACTIVE.yield_point("release")

    def locked(self):
        return self.count != 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class CRLock(CLock):
    reentrant = True

    def _is_owned(self):
        me = _me()
        who = me if me is not None else _ident()
        return self.count > 0 and (self.owner is who or self.owner == who)

    def _release_save(self):
        st = self.count
        self.count = 0
        self.owner = None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st


def _mk_lock():
    return CLock()


def _mk_rlock():
    return CRLock()


class SThread:
    """threading.Thread replacement."""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or ("Thread-%d" % SThread._n)
        self.daemon = bool(daemon)
        self.state = "new"          # new, ready, done
        self.pred = None
        self.deadline = None
        self.why = ""
        self.gate = _raw_lock()
        self.gate.acquire()
        self.exc = None
        self.ident = None
        self.timed_out = False
        self.loc = ""

    # -- public threading API
    def start(self):
        if self.state != "new":
            raise RuntimeError("threads can only be started once")
        s = ACTIVE
        if s is None or _me() is None:
            raise RuntimeError("threads may only be started inside a scenario")
        s.add(self)
        s.yield_point("start")

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self.state == "ready"

    def isAlive(self):
        return self.is_alive()

    def join(self, timeout=None):
        if self.state == "new":
            raise RuntimeError("cannot join thread before it is started")
        me = _me()
        if me is self:
            raise RuntimeError("cannot join current thread")
        s = ACTIVE
        if me is None:
            if self.state != "done":
                raise WouldBlock("join from outside")
            return
        s.yield_point("join")
        if self.state != "done":
            s.block(lambda: self.state == "done",
                    None if timeout is None else s.clock + max(0.0, timeout), "join")

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d

    @property
    def native_id(self):
        return self.ident

    # -- internals
    def _boot(self):
        s = self.sched
        self.ident = _ident()
        s.by_ident[self.ident] = self
        self.born.release()
        self.gate.acquire()
        try:
            if not s.aborting:
                sys.settrace(s.tracer)
                self.run()
        except SchedAbort:
            pass
        except BaseException as e:  # noqa
            self.exc = e
            if not s.aborting:
                s.on_thread_exc(self, e)
        finally:
            sys.settrace(None)
            self.state = "done"
            s.by_ident.pop(self.ident, None)
            s.finished(self)


class Result:
    def __init__(self):
        self.steps = 0
        self.points = []      # (index, current name, [other runnable names], label)
        self.deadlock = None
        self.livelock = False
        self.leftover = []
        self.errors = []      # (thread name, exception) of threads other than main
        self.main_exc = None
        self.clock = 0.0
        self.switches = 0


class Sched:
    def __init__(self, policy, max_steps=60000, lines=True, record=False, stores=True,
                 roots=ROOTS, max_clock=1e6, skip=()):
        self.policy = policy
        self.max_steps = max_steps
        self.max_clock = max_clock
        self.threads = []
        self.by_ident = {}
        self.clock = 1000.0
        self.aborting = False
        self.current = None
        self.done = _raw_lock()
        self.done.acquire()
        self.res = Result()
        self.record = record
        self.lines = lines
        self.stores = stores
        self.roots = roots
        self.skip = tuple(skip)
        self.in_sched = False
        self.stalls = policy.stalls
        self.tracer = self._trace if lines else None
        self.store_offs = STORE_OFFS
        self.main = None
        self.quiet = 0

    # ---- tracing
    def _trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(self.roots) or name.startswith(self.skip):
            return None
        if self.stores:
            co = frame.f_code
            offs = self.store_offs.get(co)
            if offs is None:
                offs = frozenset(i.offset for i in dis.get_instructions(co) if i.opname in STORES)
                self.store_offs[co] = offs
            if offs:
                frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if self.aborting:
            return None
        try:
            if event == "line":
                co = frame.f_code
                self.yield_point(("l", co.co_name, frame.f_lineno) if self.record else None)
            elif event == "opcode":
                co = frame.f_code
                if frame.f_lasti in self.store_offs.get(co, ()):
                    self.yield_point(("s", co.co_name, frame.f_lineno) if self.record else None)
        except SchedAbort:
            # an exception that leaves a trace function removes it, which the
            # interpreter only survives where single instructions aren't traced
            f = frame
            while f is not None:
                f.f_trace_opcodes = False
                f = f.f_back
            raise
        return self._local

    # ---- scheduling
    def add(self, t):
        t.sched = self
        t.state = "ready"
        t.idx = len(self.threads)
        self.threads.append(t)
        t.born = _raw_lock()
        t.born.acquire()
        _thread.start_new_thread(t._boot, ())
        t.born.acquire()  # it has registered itself and waits on its gate

    def runnable(self, t):
        return t.state == "ready" and (t.pred is None or t.pred() or (t.deadline is not None and t.deadline <= self.clock))

    def due(self, t):
        """Only runnable because its deadline has come."""
        return t.pred is not None and not t.pred()

    def yield_point(self, label):
        if self.quiet:
            return
        if self.aborting:
            raise SchedAbort()
        me = self.current
        res = self.res
        i = res.steps
        res.steps += 1
        if i >= self.max_steps:
            res.livelock = True
            self.abort_from(me)
        others = None
        if self.record:
            others = [t.name for t in self.threads if t is not me and self.runnable(t)]
            res.points.append((i, me.name, others, label))
        stall = self.stalls.get(i)
        if stall is not None:
            self.block(lambda: False, self.clock + stall, "stalled")
            return
        t = self.policy.at(i, me, self)
        if t is not None and t is not me and self.runnable(t):
            res.switches += 1
            self.switch(me, t)

    def switch(self, me, t):
        self.current = t
        t.gate.release()
        me.gate.acquire()
        if self.aborting:
            raise SchedAbort()

    def block(self, pred, deadline, why):
        me = self.current
        me.pred, me.deadline, me.why, me.timed_out = pred, deadline, why, False
        t = self.pick(me)
        if t is None:
            self.res.deadlock = [(x.name, x.why) for x in self.threads if x.state == "ready"]
            self.abort_from(me)
        if t is not me:
            self.switch(me, t)
        ok = pred()
        me.pred = None
        me.deadline = None
        return ok

    def pick(self, me):
        """Choose the thread that continues when `me` can't (or has ended)."""
        while True:
            cands = [t for t in self.threads if self.runnable(t)]
            if not self.policy.wide:
                cands = [t for t in cands if not self.due(t)] or cands
            if cands:
                return self.policy.choose(cands, me, self)
            dl = [t for t in self.threads if t.state == "ready" and t.deadline is not None]
            if not dl:
                return None
            t = min(dl, key=lambda x: (x.deadline, x.idx))
            self.clock = max(self.clock, t.deadline)
            if self.clock > 1000.0 + self.max_clock:
                self.res.livelock = True
                return None
            return t

    def finished(self, t):
        if self.aborting:
            self.done.release()
            return
        if t is self.main:
            self.res.leftover = [x.name for x in self.threads if x.state == "ready"]
            self.aborting = True
            self.done.release()
            return
        n = self.pick(None)
        if n is None:
            self.res.deadlock = [(x.name, x.why) for x in self.threads if x.state == "ready"]
            self.aborting = True
            self.done.release()
            return
        self.current = n
        n.gate.release()

    def abort_from(self, me):
        self.aborting = True
        raise SchedAbort()

    def on_thread_exc(self, t, e):
        if t is self.main:
            self.res.main_exc = e
        else:
            self.res.errors.append((t.name, e))

    def sleep(self, amount):
        if amount < 0:
            raise ValueError("sleep length must be non-negative")
        self.yield_point("sleep")
        self.block(lambda: False, self.clock + amount, "sleep")

    def run(self, scenario):
        global ACTIVE
        assert ACTIVE is None
        ACTIVE = self
        try:
            m = SThread(target=scenario, args=(self,), name="main")
            self.main = m
            self.add(m)
            self.current = m
            m.gate.release()
            self.done.acquire()
            # unwind what is left, one thread at a time
            self.aborting = True
            for t in list(self.threads):
                if t.state == "ready":
                    t.gate.release()
                    self.done.acquire()
        finally:
            ACTIVE = None
        self.res.clock = self.clock
        return self.res


class Policy:
    """Non-preemptive: a thread runs until it blocks, then the first of `order`."""
    wide = False
    stalls = {}

    def __init__(self, order=None, preempt=None):
        self.order = order
        self.preempt = preempt or {}

    def at(self, i, me, s):
        name = self.preempt.get(i)
        if name is None:
            return None
        for t in s.threads:
            if t.name == name:
                return t
        return None

    def choose(self, cands, me, s):
        if self.order:
            pos = {n: k for k, n in enumerate(self.order)}
            return min(cands, key=lambda t: (pos.get(t.name, 99), t.idx))
        return cands[0]


class RandomPolicy(Policy):
    wide = True

    def __init__(self, rng, p):
        super().__init__()
        self.rng, self.p = rng, p

    def at(self, i, me, s):
        if self.rng.random() >= self.p:
            return None
        c = [t for t in s.threads if t is not me and s.runnable(t)]
        return self.rng.choice(c) if c else None

    def choose(self, cands, me, s):
        return self.rng.choice(cands)


class Pct(Policy):
    """Probabilistic concurrency testing: random priorities, d change points."""
    wide = True

    def __init__(self, rng, steps, d):
        super().__init__()
        self.rng = rng
        self.prio = {}
        self.changes = set(rng.randrange(max(1, steps)) for _ in range(d))
        self.low = 0

    def pr(self, t):
        if t.name not in self.prio:
            self.prio[t.name] = 1 + self.rng.random()
        return self.prio[t.name]

    def at(self, i, me, s):
        if i in self.changes:
            self.low -= 1
            self.prio[me.name] = self.low
        c = [t for t in s.threads if s.runnable(t)]
        if not c:
            return None
        b = max(c, key=self.pr)
        return b if b is not me else None

    def choose(self, cands, me, s):
        return max(cands, key=self.pr)


def spread(singles, n, rng):
    """n of these preemptions, at as many different places of the code as possible."""
    if len(singles) <= n:
        return singles
    places = {}
    for x in singles:
        places.setdefault(x[3], []).append(x)
    for v in places.values():
        rng.shuffle(v)
    keys = sorted(places, key=repr)
    out = []
    while len(out) < n:
        rng.shuffle(keys)
        for k in keys:
            if places[k] and len(out) < n:
                out.append(places[k].pop())
    return out


def explore(make, rng, budget, orders=(None,), two=0.3, max_steps=60000, lines=True,
            stores=True, deadline=None, only=None, stall=None, skip=()):
    """
    Yield (description, scenario object, Result) for: every order without preemption,
    every single preemption of those (sampled when over budget), random pairs of
    preemptions, and random priority schedules.  With `stall`, a fifth of the runs
    let one thread make no progress for that long at some point.  `make()` returns a fresh object with
    a .main(sched) method.  `only(label)` restricts preemption points.
    """
    used = 0
    singles = []
    seen_steps = 1
    base = []

    def go(policy, desc, record=False):
        nonlocal used
        used += 1
        random.seed(12345)
        obj = make()
        s = Sched(policy, max_steps=max_steps, lines=lines, record=record, stores=stores, skip=skip)
        res = s.run(obj.main)
        return desc, obj, res

    for o in orders:
        d, obj, res = go(Policy(o), {"order": o}, True)
        yield d, obj, res
        seen_steps = max(seen_steps, res.steps)
        for (i, cur, others, label) in res.points:
            if only is not None and not only(label):
                continue
            for t in others:
                singles.append((o, i, t, (cur, label, t)))
        base.append((o, res))
    places = {}
    for x in singles:
        places.setdefault(x[3], []).append(x)
    keys = sorted(places, key=repr)

    def some():
        return rng.choice(places[rng.choice(keys)])
    pick = spread(singles, int(budget * (1 - two)), rng)
    for (o, i, t, _) in pick:
        if deadline and REAL_MONO() > deadline:
            return
        yield go(Policy(o, {i: t}), {"order": o, "preempt": [[i, t]]})
    while used < budget:
        if deadline and REAL_MONO() > deadline:
            return
        k = rng.random()
        if stall and base and rng.random() < 0.5:
            o, r0 = rng.choice(base)
            pol = Policy(o)
            at = rng.choice(r0.points)[0]
            pol.stalls = {at: rng.choice(stall)}
            yield go(pol, {"order": o, "stall": sorted(pol.stalls.items())})
        elif k < 0.5 and singles:
            a, b = some(), some()
            pre = {a[1]: a[2], b[1]: b[2]}
            if rng.random() < 0.3:
                c = some()
                pre[c[1]] = c[2]
            yield go(Policy(a[0], pre), {"order": a[0], "preempt": sorted([k2, v] for k2, v in pre.items())})
        elif k < 0.8:
            sd = rng.randrange(1 << 30)
            yield go(Pct(random.Random(sd), seen_steps, rng.choice((1, 2, 3))), {"pct": sd})
        else:
            sd = rng.randrange(1 << 30)
            yield go(RandomPolicy(random.Random(sd), rng.choice((0.02, 0.1, 0.3))), {"walk": sd})


# ---------------------------------------------------------------- installation
def _vtime():
    s = ACTIVE
    if s is not None and _me() is not None:
        return s.clock
    return VCLOCK[0]


VCLOCK = [1000.0]


def _vsleep(amount):
    s = ACTIVE
    if s is not None and _me() is not None:
        s.sleep(amount)
    else:
        if amount < 0:
            raise ValueError("sleep length must be non-negative")
        VCLOCK[0] += amount


_real_current = threading.current_thread


def _current():
    me = _me()
    return me if me is not None else _real_current()


def install():
    """Replace the primitives; call before importing the code under test."""
    threading.Lock = _mk_lock
    threading.RLock = _mk_rlock
    threading._allocate_lock = _mk_lock
    threading.Thread = SThread
    threading.current_thread = _current
    threading.get_ident = _ident
    threading._time = _vtime
    _queue.time = _vtime
    _time.time = _vtime
    _time.monotonic = _vtime
    _time.sleep = _vsleep


def event(fn):
    """Run fn without yielding (for observers)."""
    s = ACTIVE
    if s is None:
        return fn()
    s.quiet += 1
    try:
        return fn()
    finally:
        s.quiet -= 1

"""Scenarios that use real threads and sockets: each in a process of its own."""
import json
import os
import signal
import time

DEVNULL = os.open(os.devnull, os.O_RDWR)


def run_all(fn, items, out, procs=8, limit=90.0, bad=lambda ev: False, enough=4):
    """
    fn(item, log) for every item, in forked children; log(event) notes an event.  Returns, for each item,
    the events that were noted, and whether it came to its end ("done", "hang" or "crash").
    """
    res = [None] * len(items)
    live, todo = {}, list(range(len(items)))[::-1]
    while todo or live:
        if sum(1 for r in res if r and (r[0] == "hang" or r[0] == "done" and bad(r[1]))) >= enough:
            # no need to try the others
            for pid in live:
                kill(pid)
                os.waitpid(pid, 0)
            return res
        while todo and len(live) < procs:
            k = todo.pop()
            path = os.path.join(out, "proc.%d.json" % k)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    for f in (0, 1, 2):
                        os.dup2(DEVNULL, f)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    ev = fn(items[k])
                    with open(path + ".tmp", "w") as f:
                        json.dump(ev, f)
                    os.rename(path + ".tmp", path)
                    code = 0
                except BaseException:                       # noqa: B902
                    import traceback
                    with open(path + ".err", "w") as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(code)
            live[pid] = (k, path, time.monotonic())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid in live:
            k, path, _ = live.pop(pid)
            kill(pid)
            res[k] = result(path)
            continue
        for pid, (k, path, t) in list(live.items()):
            if time.monotonic() - t > limit:
                kill(pid)
                os.waitpid(pid, 0)
                del live[pid]
                res[k] = result(path) or ("hang", None)
        time.sleep(0.005)
    return res


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def result(path):
    if os.path.exists(path):
        with open(path) as f:
            ev = json.load(f)
        os.unlink(path)
        return "done", ev
    if os.path.exists(path + ".err"):
        with open(path + ".err") as f:
            return "crash", f.read()
    return None

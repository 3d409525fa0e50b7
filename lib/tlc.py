"""Running TLC: exhaustive model checking, behaviour generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def tlc(module, cfg=None, env=None, workers=4, timeout=600, extra=(), deadlock=False, heap="3g"):
    """Run TLC on specs/<module>.tla with specs/<cfg>; returns a dict."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " -Xmx%s -Xss16m" % heap).strip()
    cmd = ["tlc", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(SPECS, cfg or module + ".cfg")]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace"), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t,
            "cmd": " ".join(cmd)}


def check(module, cfg=None, **kw):
    """Exhaustively model-check a design specification; it has to hold."""
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0 or "Model checking completed. No error" not in r["out"]:
        raise Broken("model checking %s/%s failed (rc %s):\n%s" % (module, cfg, r["rc"], r["out"][-6000:]))
    return r


def generate(module, cfg=None, limit=None, **kw):
    """Collect the behaviours a generator specification prints."""
    r = tlc(module, cfg, **kw)
    res, seen = [], set()
    for line in r["out"].splitlines():
        if line.startswith('"GEN '):
            if line in seen:
                continue
            seen.add(line)
            res.append(json.loads(json.loads(line)[4:]))
            if limit and len(res) >= limit:
                break
    if r["rc"] not in (0,) or not res:
        raise Broken("generation %s/%s failed (rc %s):\n%s" % (module, cfg, r["rc"], r["out"][-4000:]))
    r["behaviours"] = res
    return r


def _one(module, cfg, traces, workers, timeout, env=None):
    d = tempfile.mkdtemp(prefix="tlctr")
    try:
        f = os.path.join(d, "t.json")
        with open(f, "w") as h:
            json.dump(traces, h)
        e = {"TRACES": f}
        e.update(env or {})
        return tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap="6g")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _parse(out, n):
    done, rej, at = set(), {}, {}
    for m in re.finditer(r'<<"DONE", (\d+)>>', out):
        done.add(int(m.group(1)) - 1)
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)>>\s*$', out, re.M | re.S):
        rej.setdefault(int(m.group(1)) - 1, (int(m.group(2)), " ".join(m.group(3)[:2000].split())))
    for m in re.finditer(r'<<"AT", (\d+), (\d+)>>', out):
        k = int(m.group(1)) - 1
        at[k] = max(at.get(k, 0), int(m.group(2)))
    return done, rej, at


def validate(module, traces, cfg=None, workers=6, timeout=600, chunk=4000, env=None):
    """
    Let TLC decide whether every trace is a behaviour of the specification.
    Returns (stats, [ (index, position, explanation) of rejected traces ]).
    """
    stats = {"generated": 0, "distinct": 0, "wall": 0.0}
    bad = []

    def run(idx):
        r = _one(module, cfg, [traces[i] for i in idx], workers, timeout, env)
        stats["wall"] += r["wall"]
        if r["rc"] == 0:
            stats["generated"] += r["generated"]
            stats["distinct"] += r["distinct"]
            done, rej, at = _parse(r["out"], len(idx))
            for k, i in enumerate(idx):
                if k in done:
                    continue
                if k in rej:
                    bad.append((i,) + rej[k])
                else:
                    bad.append((i, at.get(k, 0), "no behaviour of the specification explains this step"))
            return
        if r["rc"] == -1 and len(idx) == 1:
            raise Broken("validation timed out on one trace")
        if "Parsing or semantic analysis failed" in r["out"] or "java.lang.OutOfMemory" in r["out"] \
                or "Unknown operator" in r["out"]:
            raise Broken("validation failed:\n" + r["out"][-3000:])
        if len(idx) == 1:
            m = re.search(r"Error: (.*?)\n(?:Error: The behavior|\Z)", r["out"], re.S)
            bad.append((idx[0], 0, "trace is not well-formed for the specification: "
                        + " ".join((m.group(1) if m else r["out"][-800:]).split())[:800]))
            return
        h = len(idx) // 2
        run(idx[:h])
        if not bad:
            run(idx[h:])

    for a in range(0, len(traces), chunk):
        run(list(range(a, min(len(traces), a + chunk))))
        if bad:
            break
    for k, (i, pos, why) in enumerate(bad[:3]):
        if pos == 0 and why.startswith("no behaviour"):
            e = dict(env or {}, REPORT="1")
            r = _one(module, cfg, [traces[i]], 1, timeout, e)
            at = _parse(r["out"], 1)[2]
            bad[k] = (i, at.get(0, 1), why)
    return stats, bad

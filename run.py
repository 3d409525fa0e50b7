#!/usr/bin/env python3
"""Run the check of one property:  run.py Cxx [--tier quick|thorough] [--seed N] [--keep]"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import tlc  # noqa: E402
from checks import CHECKS  # noqa: E402

PY = "/opt/venv/bin/python"


def known(prop):
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % prop):
                res.append(line.split(" ", 2)[2])
    return res


def escaped(a, what):
    """The code under test left the specified behaviour in a way no event describes."""
    rp = os.path.join(HERE, "evidence", a.prop + ".replay.json")
    with open(rp, "w") as f:
        json.dump([{"driver": CHECKS[a.prop]["driver"], "tier": a.tier, "seed": a.seed, "what": what}], f, indent=1)
    print(what)
    print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    sys.exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep")
    ap.add_argument("--nomc", action="store_true", help="(development) skip the design checks")
    a = ap.parse_args()
    prop, c = a.prop, CHECKS[a.prop]
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix="vt_%s_" % prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    thorough = a.tier == "thorough"
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "design": [], "generated_behaviours": 0, "events": 0}
    violations = []
    try:
        # 1. the design
        for mc in ([] if a.nomc else c.get("mc", []) + (c.get("mc_thorough", []) if thorough else [])):
            r = tlc.check(mc[0], mc[1] if len(mc) > 1 else None, timeout=800 if not thorough else 3000)
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov["design"].append({"spec": mc[0], "cfg": mc[-1], "distinct": r["distinct"],
                                  "generated": r["generated"], "wall_s": round(r["wall"], 2)})
        # 2. behaviours of the specification, to be replayed
        gens = {}
        for g in c.get("gen", []) + (c.get("gen_thorough", []) if thorough else []):
            r = tlc.generate(g[0], g[1], workers=1, extra=g[2] if len(g) > 2 else ())
            gens.setdefault(g[3] if len(g) > 3 else "gen", []).extend(r["behaviours"])
            cov["generated_behaviours"] += len(r["behaviours"])
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
        with open(os.path.join(work, "gen.json"), "w") as f:
            json.dump(gens, f)
        # 3. the implementation
        env = dict(os.environ, PYTHONPATH="/repo:%s:%s" % (os.path.join(HERE, "lib"), os.path.join(HERE, "drivers")),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=work, TMPDIR=work)
        try:
            p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "drivers", c["driver"]),
                                "--prop", prop, "--tier", a.tier, "--seed", str(a.seed), "--out", work],
                               env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=c.get("timeout", 500) if not thorough else 7200)
        except subprocess.TimeoutExpired:
            escaped(a, "the code under test did not return within many times the usual time of this check")
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            tb = re.findall(r'^  File "([^"]+)", line \d+', out, re.M)
            # an exception that starts in the code under test and that the driver has no explanation for
            if tb and tb[-1].startswith("/repo/vtelem/"):
                escaped(a, out[-6000:])
            raise tlc.Broken("driver failed (%d):\n%s" % (p.returncode, out[-6000:]))
        if os.environ.get("VERBOSE"):
            print(p.stdout.decode("utf-8", "replace"))
        res = json.load(open(os.path.join(work, "traces.json")))
        cov.update(res.get("stats", {}))
        # 4. conformance
        for b in res["batches"]:
            listed = {k.split(" ")[0] for k in known(prop)}
            apart = [t for t in b["traces"] if t.get("id") in listed]
            traces = [t for t in b["traces"] if not t.get("canary") and t.get("id") not in listed]
            canaries = [t for t in b["traces"] if t.get("canary")]
            if not traces:
                raise tlc.Broken("no traces recorded for " + b["spec"])
            st, bad = tlc.validate(b["spec"], traces, b.get("cfg"), chunk=b.get("chunk", 4000),
                                   timeout=600 if not thorough else 3000)
            cov["states"] += st["distinct"]
            cov["transitions"] += st["generated"]
            cov["traces_validated_against_impl"] += len(traces)
            cov["events"] += sum(len(t["ev"]) for t in traces)
            for s in traces[:1] + traces[-1:]:
                cov["samples"].append({"spec": b["spec"], "trace": json.loads(json.dumps(s))
                                       if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000]})
            for (i, pos, why) in bad:
                # traces of other parts that this property only shares some clauses with
                if c.get("only") and b["spec"] != c["trace"][0] and not re.search(c["only"], why):
                    continue
                violations.append({"spec": b["spec"], "position": pos, "why": why, "trace": traces[i]})
            if apart:
                st, kb = tlc.validate(b["spec"], apart, b.get("cfg"), timeout=600)
                cov["known_findings_seen"] = cov.get("known_findings_seen", 0) + len(kb)
            if not bad and canaries:
                # all at once; one by one only those a malformed neighbour kept from being judged
                st, cb = tlc.validate(b["spec"], canaries, b.get("cfg"), timeout=300)
                judged = {i for i, _, _ in cb}
                for ct in [c for i, c in enumerate(canaries) if i not in judged]:
                    st, cb = tlc.validate(b["spec"], [ct], b.get("cfg"), timeout=120)
                    if not cb:
                        raise tlc.Broken("falsified trace %d was accepted by %s: %s" % (canaries.index(ct), b["spec"], json.dumps(ct)[:2000]))
                cov["falsified_traces_rejected"] = cov.get("falsified_traces_rejected", 0) + len(canaries)
    except (tlc.Broken, subprocess.TimeoutExpired) as e:
        print("ERROR: %s" % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        sys.exit(3)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)

    fresh = violations
    kf = known(prop)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": a.seed,
          "level": c.get("level", "model_checking"), "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        rp = os.path.join(HERE, "evidence", prop + ".replay.json")
        with open(rp, "w") as f:
            json.dump(fresh[:5], f, indent=1)
        for v in fresh[:3]:
            evs = v["trace"]["ev"]
            pos = v["position"]
            print("rejected by %s at event %d of %d: %s" % (v["spec"], pos, len(evs), v["why"]))
            print("  cfg: %s" % json.dumps(v["trace"].get("cfg"))[:600])
            for k in range(max(0, pos - 3), min(len(evs), max(pos, 1))):
                print("  [%d] %s" % (k + 1, json.dumps(evs[k])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
        prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["events"], ev["wall_s"]))
    sys.exit(0)


if __name__ == "__main__":
    main()

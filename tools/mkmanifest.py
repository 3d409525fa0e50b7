"""Generate /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(H, "tools", "not_applicable.json")) else {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check: python3 run.py Cxx (see DESIGN.md). TLA+ specifications in specs/, drivers of the real code in drivers/."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = sorted({x[0] for x in c["mc"] + c["gen"]} | set(c.get("trace", [])))
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "TLA+/TLC: model checking of %s, replay of its behaviours and trace validation of the real code (%s)" % (
                ", ".join(mods), c.get("how", "sequential executions")),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "The design specification is checked exhaustively within its constants; the code is bound to it by trace validation of every recorded execution (specification-generated behaviours plus seeded larger ones), so an assurance about the code extends to the executions explored, not beyond.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), len(m["not_applicable"]))

import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.dont_write_bytecode = True
from simconf import CONF, NA
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
na = [{"property": p, "reason": r} for p, r in NA]
done = set(CONF) | {p for p, _ in NA}
for i in ids:
    if i not in done: na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 simbuild.py", "checks": [
    {"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
     "technique": "deterministic simulation, seeded search over schedules and faults",
     "level": CONF[p]["level"], "level_note": CONF[p]["note"] + "; sampled runs, not exhaustive; trusts the reference model, the simulated kernel/allocator and the compiler's sanitizers",
     "evidence_file": "evidence/%s.json" % p} for p in sorted(CONF)],
    "not_applicable": na,
    "notes": "No hooks in /repo: seams are made by objcopy symbol redirection on objects built from /repo's sources. VERIF_WALL sets the seconds of a thorough run (600)."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")

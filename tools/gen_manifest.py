#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one check per property that has a harness."""
import glob, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = json.load(open(os.path.join(V, "harness", "rules.json")))
NA = {}
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from design_rows import ROWS
for i, (w, o, l) in ROWS.items():
    r = rules.setdefault(i, {})
    r["rule"] = w + "; judged against: " + o
    r["assumptions"] = ["not judged: " + l] if l else []
json.dump(rules, open(os.path.join(V, "harness", "rules.json"), "w"), indent=1, sort_keys=True)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if glob.glob(os.path.join(V, "harness", i + "*.cpp")):
        r = rules.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=r.get("technique", "runtime monitoring: online monitor with an exact oracle over generated and degenerate workloads, under ASan+UBSan and library assertions, then deeper in an optimised build"),
            level="exploration",
            level_note=r.get("level_note", "Oracle: %s. Holds for the executions explored (counts in the evidence file), not for all inputs. Trusts the oracle code, g++ and its sanitizers." % ROWS[i][1])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no monitor built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="Every check compiles its monitor from /repo's working tree (header-only library) and runs it in 8 shards; no hooks in /repo are needed."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

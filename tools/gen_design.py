#!/usr/bin/env python3
"""Writes DESIGN.md from design_rows.py, properties.jsonl, the harness sources, known-findings.jsonl and seeded/*/meta.json."""
import glob, json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from design_rows import ROWS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
rules = json.load(open(V + "/harness/rules.json"))
out = [open(T + "/design_head.md").read().rstrip(), ""]
out += ["## Properties, monitors and oracles", "", "Group sizes are cases per run in the sanitized quick build / the thorough tier; the optimised quick build multiplies the first by `opt_scale`.", ""]
for p in props:
    i = p["id"]; w, o, l = ROWS[i]
    g = [m for f in sorted(glob.glob(V + "/harness/%s*.cpp" % i)) for m in re.findall(r"GROUP\((\w+), *(\d+), *(\d+)", open(f).read())]
    out += ["**%s %s**" % (i, p["title"]),
            "- workload: " + w, "- oracle: " + o] + (["- not judged: " + l] if l else []) + [
            "- groups: " + ", ".join("%s %s/%s" % x for x in g) + ("; also runs " + ", ".join(rules[i]["also"]) if rules.get(i, {}).get("also") else "") + "; opt_scale %s" % rules.get(i, {}).get("opt_scale", 40), ""]
out += [open(T + "/design_tail.md").read().rstrip(), "", "## Genuine defects found", "", "Each was shown with a failing input against the real code and repaired in /repo by a minimal `fix:` commit (also listed in known-findings.jsonl).", ""]
for l in open(V + "/known-findings.jsonl"):
    d = json.loads(l)
    out.append("- " + (d["entry"] if d["status"] == "fixed" else "KNOWN %s: %s" % (d["property"], json.dumps(d))))
out += ["", "## Planted bugs and the checks that catch them", "", "| seed | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(T + "/seed_results.json")) if os.path.exists(T + "/seed_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(n, m["property"] + " quick")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", len(out), "lines")

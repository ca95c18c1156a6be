#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from props*.txt (authoring aid; no check runs it)."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
props, na = [], []
cur = None
for f in sorted(glob.glob(os.path.join(here, "props*.txt"))):
    for line in open(f):
        line = line.rstrip("\n")
        if not line.strip() or line.startswith("##"):
            continue
        m = re.match(r"^= ([A-Z]\d{2}) (.*)$", line)
        if m:
            cur = {"id": m[1], "title": m[2], "mech": [], "files": [], "obs": [], "tech": "", "level_note": "", "na": ""}
            props.append(cur)
            continue
        k, v = line.split(":", 1)
        k, v = k.strip(), v.strip()
        if k == "mech":
            n, w = v.split("@")
            cur["mech"].append({"name": n.strip(), "where": w.strip()})
        elif k in ("files", "obs", "over"):
            cur[k] = [x.strip() for x in v.split(",")]
        else:
            cur[k] = (cur.get(k, "") + " " + v).strip()
out = open(os.path.join(here, "..", "properties.jsonl"), "w")
checks = []
for p in props:
    assert len(p["title"]) <= 80, p["title"]
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    assert n <= 3, (p["id"], n)
    for w in p["mech"]:
        path = w["where"].split(":")[0].split(" ")[0]
        assert os.path.exists("/repo/" + path), path
    for x in p["files"]:
        assert os.path.exists("/repo/" + x), x
    a = {"files": p["files"], "mechanism": p["mech"]}
    if p["obs"]:
        a["observe_at"] = p["obs"]
    a["hook_needed"] = None
    out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"], "anchors": a}, ensure_ascii=False) + "\n")
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "technique": p["tech"], "level": "other", "level_note": p["level_note"]})
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
    "notes": "Static analysis only: one Go/SSA checker (checker/) with declarative rules (checker/rules/). Every run loads and type-checks /repo's current source. The fix: commits in /repo are unguarded repairs of genuine defects; there are no hooks."}
json.dump(man, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "n/a")

rules = {}
for f in sorted(glob.glob(os.path.join(here, "..", "checker", "rules", "*.txt"))):
    for line in open(f):
        m = re.match(r"^prop ([A-Z]\d{2})", line)
        if m:
            rules.setdefault(m[1], set()).add(os.path.basename(f))
d = open(os.path.join(here, "design_head.md")).read()
for p in props:
    d += f"\n### {p['id']} {p['title']}\n{p['statement']}\n\n"
    if p["na"]:
        d += f"* **Not applicable**: {p['na']}\n"
        continue
    d += f"* Decided by: {p['tech']}. Rules: {', '.join(sorted(rules.get(p['id'], ['-'])))}.\n"
    d += f"* Quantifies over {p['quant']}; tests cannot settle it: {p['tests']}.\n"
    d += f"* Reach: {p['level_note']}\n"
seeds = ["| change | property | needs |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "..", "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['needs']} |")
d += open(os.path.join(here, "design_tail.md")).read().replace("SEEDS", "\n".join(seeds) + "\n\nEach is reported by the check of its property (exit 1).")
open(os.path.join(here, "..", "DESIGN.md"), "w").write(d)

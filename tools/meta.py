#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (tools/props/*.json)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(root + "/tools/props/*.json")):
    props.append(json.load(open(f)))
with open(root + "/properties.jsonl", "w") as out:
    for p in props:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        for fn in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        out.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["level_note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup",
    "hooks": {"guard": "none (only public interfaces are used)", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One harness (harness/, Rust) holds all generators, reference models and oracles; check.sh rebuilds it against /repo's working tree. known_findings.txt lists the genuine defects found: repaired ones (fixed) and recorded ones (open).",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")

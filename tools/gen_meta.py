#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
repo = os.environ.get("VP_REPO", "/repo")
lines, checks, missing = [], [], []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = len([s for s in p["statement"].replace("...", "").split(". ") if s.strip()])
    assert n <= 3, (p["id"], n)
    for f in p["files"]:
        if not os.path.exists(os.path.join(repo, f)):
            missing.append((p["id"], f))
    for _, f in p["mech"]:
        if not os.path.exists(os.path.join(repo, f)):
            missing.append((p["id"], f))
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": p["hook"]}}))
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"] or "generated cases only"})
if missing:
    sys.exit("no such files: %s" % missing)
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": getattr(props, "NOT_APPLICABLE", [])}
m.update(getattr(props, "EXTRA", {}))
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from spec import SPEC  # noqa: E402

lines, checks, na = [], [], []
for p in sorted(SPEC, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
            "mechanism": [dict(zip(("name", "where"), m)) for m in p["mechanism"]],
            "observe_at": p["observe"],
            "hook_needed": p["hook"],
        },
    }, ensure_ascii=False))
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": p["note"],
    })
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam is a public or interpreter-level one. See DESIGN.md.",
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")

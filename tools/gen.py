"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (run by hand after editing)."""

import json
import sys
from pathlib import Path

here = Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from meta import NOT_APPLICABLE, PROPS  # noqa: E402

root = here.parent
checks = []
with (root / "properties.jsonl").open("w") as f:
    for p in PROPS:
        rec = {
            "id": p["id"],
            "title": p["title"],
            "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quantifier"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            },
        }
        if "state" in p:
            rec["anchors"]["state"] = [
                {"name": n, "meaning": m, "where": w} for n, m, w in p["state"]
            ]
        rec["anchors"]["observe_at"] = p.get("observe", ["return values of the public functions"])
        rec["anchors"]["hook_needed"] = None
        assert len(rec["title"]) <= 80, rec["title"]
        f.write(json.dumps(rec) + "\n")
        if (root / "mc" / "props" / f"{p['id'].lower()}.py").exists():
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"./run {p['id']} --tier quick",
                    "thorough_cmd": f"./run {p['id']} --tier thorough",
                    "technique": p["technique"],
                    "level": p.get("level", "model_checking"),
                    "level_note": " ".join(p["level_note"].split()),
                }
            )
manifest = {
    "version": 1,
    "setup_cmd": "sh -c './run --help >/dev/null'",
    "checks": checks,
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
    "notes": "Checks import the package from /repo's working tree; nothing is compiled or cached. "
    "Known findings and fixes: known_findings.json. Set VERIF_PROCS to limit the worker processes.",
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(PROPS), "properties", len(checks), "checks")

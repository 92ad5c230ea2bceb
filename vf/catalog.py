"""The catalogue of properties: writes properties.jsonl and MANIFEST.json.

    python3 -m vf.catalog
"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, **kw):
    """Register a property."""
    anchors = {
        "files": ["puncturedfem/" + f for f in files],
        "mechanism": [{"name": a, "where": "puncturedfem/" + b} for a, b in mech],
    }
    if "observe" in kw:
        anchors["observe_at"] = kw.pop("observe")
    P.append(
        {
            "prop": {
                "id": pid,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": quant},
                "why_tests_cant": why,
                "anchors": anchors,
            },
            "technique": technique,
            "note": note,
        }
    )


def main():
    """Write both files."""
    from . import catalog_text

    catalog_text.register(prop)
    P.sort(key=lambda p: p["prop"]["id"])
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            pid = p["prop"]["id"]
            if not os.path.exists(os.path.join(HERE, "vf", "props", pid.lower() + ".py")):
                continue
            assert len(p["prop"]["title"]) <= 80, pid
            f.write(json.dumps(p["prop"]) + "\n")
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"./check.sh {pid} --tier quick",
                    "thorough_cmd": f"./check.sh {pid} --tier thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": p["technique"],
                    "level": "exploration",
                    "level_note": p["note"],
                }
            )
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "./setup.sh",
                "checks": checks,
                "not_applicable": [],
                "notes": "Property-based testing with Hypothesis; see DESIGN.md. "
                "KNOWN_FINDINGS.txt lists the defects found and fixed.",
            },
            f,
            indent=1,
        )
        f.write("\n")


if __name__ == "__main__":
    main()

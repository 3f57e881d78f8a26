#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        (
            {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            },
            technique,
            note,
        )
    )


exec(open(os.path.join(HERE, "tools", "property_texts.py")).read())

NA = []

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "none",
        "enable": "no hooks in /repo: the monitors observe at the public interface and by wrapping "
        "objects from the harness",
        "source_commits": [],
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        }
        for p, t, n in PROPS
    ],
    "not_applicable": NA,
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")

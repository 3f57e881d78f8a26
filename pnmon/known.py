"""Known findings: genuine defects that are recorded rather than repaired."""
import json
import os
import re


def load_known(root):
    path = os.path.join(root, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def match_known(v, known):
    for k in known:
        if k["property"] != v["property"]:
            continue
        if k.get("scenario") and k["scenario"] != v["scenario"]:
            continue
        if k["rule"] != v["rule"]:
            continue
        if re.search(k["match"], v["message"]):
            return k
    return None

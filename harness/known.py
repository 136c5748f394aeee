"""Known findings: defects of GroCo that are recorded in known_findings.json and not repaired."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def representatives(prop):
    return [c for f in load() if f["property"] == prop for c in f.get("inputs", [])]


def match(prop, case, session, clause):
    """The finding that explains a rejected session: same class of input, same failing clause."""
    tag = case.get("class")
    for f in load():
        if f["property"] == prop and tag is not None and f["class"] == tag and clause in f["clauses"]:
            return f
    return None

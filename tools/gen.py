"""Writes properties.jsonl and MANIFEST.json from the texts below (kept in one place so that they stay in step)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props import REG

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        P[-1]["_t"] = (technique, note)


exec(open(os.path.join(HERE, "tools", "texts.py")).read())


def main():
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            t = p.pop("_t", None)
            if t and p["id"] not in REG:
                continue
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
            if t:
                checks.append(dict(property=p["id"], quick_cmd="python3 -m sa %s" % p["id"],
                                   thorough_cmd="python3 -m sa %s --tier thorough" % p["id"],
                                   technique=t[0], level="other", level_note=t[1]))
    missing = set(REG) - {c["property"] for c in checks}
    assert not missing, missing
    json.dump(dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks, not_applicable=NA),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()

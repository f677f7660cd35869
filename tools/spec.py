"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "yaocptool/modelling/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        p=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)),
        c=dict(property=pid, quick_cmd="./run %s" % pid, thorough_cmd="./run %s --tier thorough" % pid,
               evidence_file="evidence/%s.json" % pid, technique=technique, level="model_checking", level_note=note)))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for e in PROPS:
        f.write(json.dumps(e["p"]) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup", checks=[e["c"] for e in PROPS], not_applicable=NOT_APPLICABLE,
                   notes="Checks import the code under test from /repo's working tree; there are no hooks. Known findings: known_findings.json."), f, indent=1)
print(len(PROPS), "properties")

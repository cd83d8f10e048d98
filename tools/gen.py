#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechs, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(tests.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechs]),
                  technique=technique, note=" ".join(note.split())))
    if state:
        P[-1]["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if glob.glob(os.path.join(HERE, "mc", p["id"].lower() + "_*.cpp")):
        checks.append(dict(property=p["id"], quick_cmd="python3 vf.py check " + p["id"],
                           thorough_cmd="python3 vf.py check %s --thorough" % p["id"],
                           technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason="harness not built yet"))
json.dump(dict(version=1, setup_cmd="python3 vf.py setup", checks=checks, not_applicable=na,
               notes="Bounded-exhaustive exploration of the real code; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

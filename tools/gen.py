#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, tech=tech, note=note and " ".join(note.split()), na=na and " ".join(na.split())))


exec(open(os.path.join(HERE, "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 -m compileall -q /verif/sa || true",
         checks=[dict(property=p["id"], quick_cmd=f"python3 /verif/sa/check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 /verif/sa/check.py {p['id']}",
                      technique=p["tech"], level="other", level_note=p["note"]) for p in P if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="Every check is pure static analysis over /repo's source (Python ast), run with the plain python3; nothing of /repo is imported or executed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")

"""Writes properties.jsonl and MANIFEST.json from the entries in tools/props/*.py

Usage: python3 tools/gen.py   (run in /verif; only needed when an entry changes)
"""
import json
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS, CHECKS, NA = [], [], []
PY = "/usr/local/bin/python3"


def P(id, title, statement, qtext, why, files, mechanism, observe=(), state=(),
      over=("inputs",), technique=None, note=None, level="other", na=None):
    statement, qtext, why = (" ".join(x.split()) for x in (statement, qtext, why))
    assert len(title) <= 80, title
    assert set(over) <= {"schedules", "crash_points", "inputs", "programs",
                         "histories", "configurations", "fault_sequences"}, over
    if statement.count(". ") > 2:
        print("more than three sentences:", id)
    anchors = dict(files=list(files),
                   mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=list(over), text=qtext),
                      why_tests_cant=why, anchors=anchors))
    if na:
        NA.append(dict(property=id, reason=" ".join(na.split())))
    else:
        CHECKS.append(dict(
            property=id,
            quick_cmd=f"bash check.sh {id}",
            thorough_cmd=f"bash check.sh {id} --tier thorough",
            technique=" ".join(technique.split()), level=level,
            level_note=" ".join(note.split())))


d = os.path.join(HERE, "props")
for f in sorted(os.listdir(d)):
    if f.endswith(".py"):
        runpy.run_path(os.path.join(d, f), init_globals=dict(P=P))

PROPS.sort(key=lambda p: p["id"])
CHECKS.sort(key=lambda p: p["property"])
NA.sort(key=lambda p: p["property"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="bash check.sh --setup",
        checks=CHECKS, not_applicable=NA,
        notes="Every check is `python3 -m rbmsa <ID>`: an abstract interpreter over "
              "the syntax trees of /repo's working tree (nothing of /repo is imported "
              "or executed). Exit 0: no violation found; 1: VIOLATION; 2 or more: the "
              "check could not decide (an anchor of the property is gone)."), f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")

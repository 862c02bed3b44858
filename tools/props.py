#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "c++/src/"
CORE = "python/src/KMCLib/CoreComponents/"
ANA = "python/src/KMCLib/Analysis/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), technique, note))


exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3-vt lib/build.py prod",
             checks=[dict(property=p["id"], quick_cmd="python3-vt run.py %s --tier quick" % p["id"],
                          thorough_cmd="python3-vt run.py %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"],
                          technique=t, level="exploration", level_note=n) for p, t, n in P],
             not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()

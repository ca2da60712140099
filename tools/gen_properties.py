#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per P(...) call)."""
import json, os
G = "geometrix/"
PROPS = []
def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    fs = [f if f.startswith("geometry_test") else G + f for f in files]
    for f in fs:
        assert os.path.exists("/repo/" + f), f
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=fs,
            mechanism=[dict(name=n, where=G + w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=G + c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_def.py")).read())

if __name__ == "__main__":
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note))


MODEL = ("Differential testing against a reference interpreter written from the documentation, which shares no code with the evaluator; "
         "the generated programs and values are bounded in size. ")

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for p in P:
        fd.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

checks = []
for p in P:
    if any(n["property"] == p["id"] for n in NA):
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="./run.sh %s quick" % p["id"],
        thorough_cmd="./run.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=p["_t"], level="exploration", level_note=p["_n"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
         notes="Every check is ./run.sh ID TIER: it builds the Go harness in harness/ against /repo's working tree "
               "and runs it in seven processes, with all random choices a function of VERIF_SEED. "
               "VERIF_REPLAY=<file> ./run.sh ID replays a saved case. No hooks are needed in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
print(len(P), "properties")

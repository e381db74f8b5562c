#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None, level="proof", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na,
                  observe=observe, level=level, note=note))


TRUST = " Trusted: rustc's MIR, the dump driver, the abstract interpreter and its models of the standard library, and the written specification."

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(o) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["claim"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                                technique=p["claim"], level=p["level"], level_note=p["note"] + TRUST))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
m["notes"] = "All checks share one dump of the compiled program (MIR), rebuilt from /repo's working tree whenever its sources differ."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")

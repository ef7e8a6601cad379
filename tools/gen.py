#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IA = "src/interval_arithmetic.rs"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na, **kw))


INTERP = ("Sound for every input up to the modelled semantics: the analysis runs on rustc's MIR of the current tree, "
          "covers all paths with a relational polynomial domain, and an obligation it can neither entail nor refute by "
          "a point of the abstract state is reported as undecided in the evidence, not as a violation. "
          "Trusts the hand-written models of std, num-bigint and num-rational operations.")

exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        man["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

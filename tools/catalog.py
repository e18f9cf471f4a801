#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list, so that they agree."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402

T = "src/kernel/term.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, level="proof", note=None, theorems=None, technique=None, observe=None):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **(dict(observe_at=observe) if observe else {}))),
        na=na, level=level, note=note, theorems=theorems or [],
        technique=technique or "Verus contracts on the functions extracted from /repo on every run, discharged by Z3; executable contracts on the real code supply the failing input"))


from catalog_texts import fill  # noqa: E402
fill(prop)

NOTE = ("Contracts proved for all inputs on the functions listed in the evidence file; functions of the property "
        "outside the verifier's reach are checked by executable contracts within a stated bound and are not counted as proved.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["rec"]["id"]
        if i in PROPS and not p["na"]:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               technique=p["technique"], level=p["level"], level_note=p["note"] or NOTE, theorems=p["theorems"]))
        else:
            na.append(dict(property=i, reason=p["na"] or "not under contract yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="Every check extracts the functions under contract from /repo/src on the run, has Verus discharge their obligations, "
                   "and runs the executable form of the contracts against the real code built from /repo/src. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

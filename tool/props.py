#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below.

Run from /verif after editing; the outputs are committed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
from registry import PROPS

A = "include/ieompp/algebra/"
S = "include/ieompp/symbolic/"
L = "include/ieompp/lattices/"
T = "include/ieompp/types/"
H = "include/ieompp/models/hubbard/"
R = "include/ieompp/models/hubbard_real_space/"
M = "include/ieompp/models/hubbard_momentum_space/"
P = "src/hubbard/"

NF = ("abstract interpretation of the typed syntax tree into a value-graph normal form; every "
      "obligation is decided by comparing normal forms for all inputs")
NOTE = ("Proof over all inputs of the obligations in drivers/ (unbounded sizes, symbolic values), "
        "assuming exact arithmetic, no wrap-around of sizes and faithful models of the standard "
        "library; an obligation the domain cannot decide is listed as undecided in the evidence.")


def prop(id, title, statement, over, text, why, files, mech, technique=NF, level="proof",
         note=NOTE, observe=None, state=None):
    ALL.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                    files=files, mech=mech, technique=technique, level=level, note=note,
                    observe=observe, state=state))


def na(id, title, statement, over, text, why, files, mech, reason):
    ALL.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                    files=files, mech=mech, reason=reason, observe=None, state=None))


ALL = []
exec(open(os.path.join(HERE, "tool", "props_data.py")).read())


def main():
    ALL.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in ALL:
            assert len(p["title"]) <= 80, p["id"]
            assert len(p["statement"].split(". ")) <= 3, p["id"]
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, no = [], []
    for p in ALL:
        if "reason" in p:
            no.append({"property": p["id"], "reason": p["reason"]})
            continue
        if p["id"] not in PROPS:
            no.append({"property": p["id"], "reason": "no check yet"})
            print("no check for", p["id"])
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 engine/check.py " + p["id"],
                       "thorough_cmd": "python3 engine/check.py %s --thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    for q in PROPS:
        if not any(p["id"] == q for p in ALL):
            print("no description for", q)
    doc = {"version": 1, "setup_cmd": "python3 engine/frontend.py",
           "checks": checks, "not_applicable": no,
           "notes": "Static analysis only: engine/ reads the typed syntax tree which tool/astdump.cpp "
                    "dumps from clang for /repo's current headers and for the obligation functions in "
                    "drivers/; nothing of /repo is executed. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()

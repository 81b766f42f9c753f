#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed) from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, claim=None,
         na=None):
    """claim: (technique, level_note) | None; na: reason | None"""
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w)
                                          for n, w in mech]),
                  claim=claim, na=na))


exec(open(os.path.join(HERE, "props.txt")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
    for p in P:
        if p["claim"]:
            t, note = p["claim"]
            m["checks"].append(dict(
                property=p["id"],
                quick_cmd="python3 check.py %s" % p["id"],
                thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                technique=t, level="other", level_note=note))
        else:
            assert p["na"], p["id"]
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

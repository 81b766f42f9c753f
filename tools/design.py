"""Writes DESIGN.md from design.txt, the checks' docstrings, the planted bugs'
meta.json and KNOWN_FINDINGS.txt."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = {c["property"] if "property" in c else c["id"]
           for c in man.get("checks", man.get("properties", []))}
t = open(V + "/design.txt").read()
out = []
for p in props:
    f = V + "/checks/%s.py" % p["id"].lower()
    if p["id"] not in claimed or not os.path.exists(f):
        continue
    doc = ast.get_docstring(ast.parse(open(f).read()))
    out.append("### %s %s\n\n%s\n\n```text\n%s\n```\n" % (
        p["id"], p["title"], p["statement"], doc))
t = t.replace("@CHECKS@", "\n".join(out))
na = man.get("not_applicable", [])
t = t.replace("@NA@", "\n".join("- %s %s: %s" % (
    n["property"] if "property" in n else n["id"],
    next((p["title"] for p in props if p["id"] ==
          (n.get("property") or n.get("id"))), ""), n["reason"]) for n in na)
    or "(none)")
k = [l.strip() for l in open(V + "/KNOWN_FINDINGS.txt")
     if l.startswith(("known:", "fixed:"))]
t = t.replace("@FINDINGS@", "\n".join("- " + l for l in k))
t = t.replace("@REDETECT@", open(V + "/redetect.txt").read().strip()
              if os.path.exists(V + "/redetect.txt") else "")
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (
        f.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"],
        m.get("caught_by", m["property"])))
t = t.replace("@SEEDS@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)

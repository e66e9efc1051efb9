"""Writes DESIGN.md from meta/design_head.md, properties.jsonl, MANIFEST.json, the evidence of the last run and meta/design_notes.py.  Run by hand after a `./check all`."""
import json, os, sys, textwrap
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/meta")
import design_notes as N
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
M = json.load(open(R + "/MANIFEST.json"))
claimed = {c["property"] if "property" in c else c.get("id"): c for c in (M.get("checks") or M.get("properties"))}
NA = {x.get("property", x.get("id")): x["reason"] for x in M["not_applicable"]}
w = lambda s: "\n".join(textwrap.wrap(" ".join(s.split()), 118))
out = [open(R + "/meta/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
for p in P:
    i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), ""]
    if i in NA:
        out += [w("**Not applicable.** " + NA[i]), ""]; continue
    e = json.load(open(R + "/evidence/%s.json" % i))
    c = e.get("coverage", e)
    out += [w("**Decided by:** " + claimed[i]["technique"] + "."), "", w("**Rule.** " + c.get("explanation", "")), ""]
    if e.get("assumptions"): out += [w("**Assumes:** " + "; ".join(e["assumptions"]) + "."), ""]
    n = N.NOTES.get(i)
    if n: out += [w(n), ""]
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], N.CAUGHT.get(b, m["property"])))
out += [open(R + "/meta/design_tail.md").read().rstrip().replace("@BUGS@", "\n".join(rows)), ""]
open(R + "/DESIGN.md", "w").write("\n".join(out))

#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run it to regenerate both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(),
         technique=None, level="other", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state, observe=observe,
                  technique=technique, level=level, note=note, na=na))

exec(open(os.path.join(HERE, "props_data.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            d = dict(id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()),
                     quantifier=dict(over=p["over"], text=" ".join(p["qtext"].split())),
                     why_tests_cant=" ".join(p["why"].split()),
                     anchors=dict(files=p["files"],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=list(p["observe"]), hook_needed=None))
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=" ".join(p["na"].split())))
        else:
            checks.append(dict(property=p["id"],
                               quick_cmd="./check %s" % p["id"],
                               thorough_cmd="./check %s" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique=" ".join(p["technique"].split()), level=p["level"],
                               level_note=" ".join(p["note"].split())))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks are static: they compile /repo's current sources to LLVM IR with clang, "
                   "export the resolved program (sa/irx.cpp) and run the rule in sa/rules/. "
                   "Known findings: known_findings.txt. No hooks in /repo.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()

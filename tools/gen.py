#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), technique=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=list(observe), technique=technique, note=note, na=na, state=list(state)))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bash run.sh " + p["id"], thorough_cmd="bash run.sh " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="static analysis: " + p["technique"], level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="All checks are static: each run type-checks /repo's current tree, builds its SSA form and decides the obligations listed in the evidence file. No hooks are needed. DESIGN.md says per property what is decided and what is not.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

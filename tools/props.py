#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and the per-property part of MANIFEST.json.
Run it after editing: python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vlib"))
from registry import CHECKS

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(quant.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=list(state), observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

NA = globals().get("NA", {})
checks = []
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    b = c.get("bounds", {})
    checks.append(dict(property=p["id"],
                       quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=c.get("technique", "bounded exhaustive model checking of the real code: every "
                       "operation sequence / input shape / environment answer within the bound is executed on a "
                       "fresh build of /repo and compared with a reference model"),
                       level=c["level"],
                       level_note="; ".join(["bound (quick): %s" % b.get("quick", "") if isinstance(b, dict) else str(b)]
                                            + list(c.get("assumptions", [])))))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=checks,
         hooks=dict(guard="DLITE_VERIF_HOOKS", enable="none needed: no hooks were added to /repo", source_commits=[]),
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet"))
                         for p in P if p["id"] not in CHECKS],
         notes="Checks rebuild dlite out of source from /repo's working tree into a private directory, "
               "run the enumeration on 8 shards, replay every failure before reporting it. See DESIGN.md.")
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the two files are committed)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/state-observation/"
P = []


def prop(id, title, st, over, qtext, why, files, mech, note="", observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["public API return values"], hook_needed=None), _note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

def harness(p):
    return glob.glob(os.path.join(V, "harness", p["id"].lower() + "_*.cpp"))

plan = json.load(open(os.path.join(V, "plan.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in P:
    if harness(p):
        cfg = plan.get(p["id"], {}).get("configs", ["san", "rel"])
        checks.append(dict(property=p["id"],
                           quick_cmd="VERIF_TIER=quick python3 check.py %s" % p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                           technique=plan.get(p["id"], {}).get("technique",
                             "runtime monitoring: the real library is driven by seeded random and hostile histories; "
                             "online reference-model monitors judge every answer, in an ASan+UBSan assert-enabled "
                             "build and in a Release build"),
                           level="exploration",
                           level_note=(p["_note"] + " " if p["_note"] else "") +
                           "Assurance covers the executions generated from the seed (builds: %s); trusts the "
                           "harness's reference model, Eigen's basic matrix algebra and the compilers." % ", ".join(cfg)))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1,
         setup_cmd="python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('clang++') and shutil.which('g++') else 1)\"",
         hooks=dict(guard="none (no hook was needed: every monitor observes the public and protected API; run-time "
                          "assertions are intercepted by a force-included header of /verif)",
                    enable="check.py compiles /repo/src with -include harness/force.hpp", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Each check compiles every source of /repo/src together with its monitors; objects are cached by content "
               "hash under /verif/build (ignored by git). VERIF_SEED selects the executions.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

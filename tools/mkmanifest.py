#!/usr/bin/env python3
"""writes MANIFEST.json from the list of check modules present in sa/checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C24": "The end state of a full realisation is the result of L*L data-dependent merges in a random order; that the chain of per-step facts (C06, C07, C09, C10) ends in exactly one wrapping cluster is a global counting and topological argument over the whole history (connectivity of the torus, floating-point rounding of a telescoping sum) that no dataflow analysis of the source reaches.",
 "C25": "A statement about averages over seeds and about the limit of large lattices: a quantitative property of the random process and of the Mersenne twister, not of anything visible in the program text.",
 "C26": "Termination with probability one and run time/memory growth are quantitative properties of data-dependent loops (number of merges and of rejected draws depends on the random order); no sound static bound on them is in reach here.",
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 -m sa.run %s --tier quick" % i, thorough_cmd="python3 -m sa.run %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="abstract interpretation of the Python source: global value numbering with symbolic length, effect and provenance analysis",
                           level="other",
                           level_note=NOTE.get(i, "Static decision for all lattice lengths L>=3 and all inputs, states and histories the analysed operations can start from; trusted: "
                                      "the abstract interpreter's model of the used Python/numpy/random semantics (sa/), and that no code outside the repository rewrites the objects.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet for this property")))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q sa || true", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

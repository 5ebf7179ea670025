#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
TECH = "TLA+ specification {spec}, model-checked with TLC; {bind}"
GEN = "behaviours generated by TLC replayed into the real classes with full state comparison after each call"
VAL = "observations recorded from the real code validated by TLC against the specification"
C = {
 "C01": ("Frames.tla", GEN), "C02": ("Frames.tla", GEN), "C03": ("Frames.tla", GEN), "C04": ("Frames.tla", GEN), "C05": ("Stacks.tla", GEN),
 "C06": ("GA.tla and BGA.tla", GEN + "; " + VAL), "C07": ("GA.tla", GEN), "C08": ("BGA.tla and BGAOps.tla", VAL),
 "C09": ("LP.tla", GEN), "C10": ("Symbolic.tla and NamedFns.tla", GEN), "C11": ("Symbolic.tla", GEN), "C12": ("Jagged.tla", GEN), "C13": ("Jagged.tla", GEN), "C14": ("Graphs.tla", GEN), "C15": ("KNN.tla", GEN), "C16": ("Solve.tla", GEN), "C17": ("SmallMat.tla", GEN),
 "C18": ("LS.tla", GEN), "C19": ("Lagrange.tla", GEN), "C20": ("Gauss.tla", GEN), "C21": ("Arrays.tla", GEN),
}
exec(open(os.path.join(here, "claims.py")).read()) if os.path.exists(os.path.join(here, "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    if p in C:
        spec, bind = C[p]
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough", evidence_file=f"evidence/{p}.json",
                           technique=TECH.format(spec=spec, bind=bind), level="model_checking",
                           level_note="The design is checked by TLC exhaustively within small constants; the code is checked to conform on every generated/recorded "
                                      "behaviour of the run (bounds and counts in the evidence). Trusts TLC, the driver's projection and float tolerances. See DESIGN.md."))
na = [dict(property=p, reason="check under construction") for p in props if p not in C]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the public API exposes the abstract state. Commits in /repo are 'fix:' repairs listed in known_findings.json."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")

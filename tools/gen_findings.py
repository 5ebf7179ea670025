#!/usr/bin/env python3
"""Writes known_findings.json: the findings that are recorded, and the list of repaired defects (from the fix: commits of /repo)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """fd68608 C03 C02;a615b37 C05;5347729 C02 C01;d4f8295 C01 C04;5d9f880 C02;abebe06 C01;6fbb5a9 C02;b3ec85c C04;d74fcad C05;cb2d64c C02;0d2ff31 C01 C05;c85565e C05
386c5ee C03;97d0852 C03;5b94b7b C03;f03b5ad C04;8a12504 C17;58858d2 C04;389d0de C08;f0fe3c3 C08;c99eae5 C08;447ea42 C06 C07;6ec922c C07;e3a3b55 C07
c9bb0e2 C10;af599c5 C10;9744b2d C10;59f2ad1 C10;18c99b9 C10;262359e C10;b7bfc9f C11;f01b7e0 C11;dfc88d0 C10 C11;e8090ee C09;4726ec4 C09;7205fa9 C12;14172ea C12;8df3e2c C13
4646a23 C14;5533d9e C15;23c8ae5 C15;9fb0d20 C16;e25f606 C16;71cda98 C17;cf7e941 C18;85e3490 C18;0b99078 C19;a9582a1 C19
06c56f1 C21;6ea8792 C21;fbcbe35 C21;a248569 C21;21aeabe C21;f3a691d C21;c39216a C21;05840a3 C21;b54ace0 C04;45d7280 C01"""
KNOWN = [dict(property="C09", status="known", clause="solver-optimum", detail="program that scipy.optimize.linprog itself gets wrong",
              what="linear programs may get a wrong answer from the solver underneath (HiGHS in scipy 1.14.1 with presolve): mixed-integer programs a suboptimal one, "
                   "e.g. max -2*x1 - 3*x2 - 5 s.t. 3*x1 + 3*x2 >= 8, x1 >= 0, -1 <= x2 <= 3 integer: reported -10 at x1 = 4 instead of -28/3 at x1 = 11/3, "
                   "and some feasible unbounded programs are called infeasible, e.g. max 1.5*x1 + x2 + 0.5*x3 s.t. 9*x1 + 3*x2 - 3*x3 <= 27, -x1 - 1.5*x2 + 1.5*x3 <= 1.5, x1 <= 2, x2 >= 0, x3 >= 0")]
fixes = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines() if " fix: " in l)
props = {}
for it in MAP.replace("\n", ";").split(";"):
    c, *ps = it.split()
    props[c] = ps
missing = [c for c in fixes if c not in props]
assert not missing, missing
fixed = [f"fixed: property={p} {c} {s[len('fix: '):]}" for c, s in fixes.items() for p in props[c]]
with open(os.path.join(V, "known_findings.json"), "w") as f:
    f.write("{\"findings\": [\n" + ",\n".join(" " + json.dumps(k) for k in KNOWN) + "\n],\n\"fixed\": [\n" + ",\n".join(" " + json.dumps(s) for s in fixed) + "\n]}\n")

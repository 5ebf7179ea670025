import copy
import tlc
from genericcheck import selftest

INV = ["DerivOK", "HessSym", "VarsCover", "SwapTwice"]


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    for e in tr["log"]:
        if e["a"] in ("Eval",):
            e["out"] += 1
            return tr
        if e["a"] in ("Relate",):
            e["out"] = not e["out"]
            return tr
        if e["a"] == "Relation":
            e["ok"] = not e["ok"]
            return tr
        if e["a"] == "Create":
            e["vars"] = [((v) % 3) + 1 for v in e["vars"]]
            return tr
    tr["log"].append(dict(a="nothing"))
    return tr


def run(ctx, mode, plan):
    r = tlc.check_ok(tlc.run("Symbolic", dict(NV=2, Depth=4 if ctx.quick else 5, Sim=False, Mode=mode, MaxDeg=3, MaxCoef=20, MaxBuild=3), invariants=INV, workers=8, view="View", timeout=3000, heap="8g",
                             constraint=None), "exhaustive")
    ctx.add_tlc(r, "exhaustive small", exhaustive=True)
    ctx.log("exhaustive:", r.distinct)
    recs = []
    for nv, depth, nq, nt in plan:
        r = tlc.simulate("Symbolic", dict(NV=nv, Depth=depth, Sim=True, Mode=mode, MaxDeg=4, MaxCoef=400, MaxBuild=depth // 2), nq if ctx.quick else nt, depth + 1,
                         seed=ctx.seed * 5 + nv, procs=8, invariants=INV + ["Emit"], what=f"{nv} variables", min_records=nq // 6 if ctx.quick else nt // 6, timeout=1500)
        ctx.add_tlc(r, f"{nv} variables")
        for i, t in enumerate(r.records):
            t["seed"] = i
            for e in t["log"]:
                if e["a"] not in "CVTBU":
                    ctx.count("events_replayed", e["a"])
                    if e["a"] in ("Relate",):
                        ctx.count("relations", "on the boundary" if e["zero"] else "off the boundary")
        ctx.sample(r.records[0]["log"][-3:])
        if not ctx.replay_all("symbolic", r.records):
            return False
        ctx.log(f"{nv} variables: {len(r.records)} behaviours replayed")
        recs = r.records
    selftest(ctx, "symbolic", recs, corrupt)
    return True

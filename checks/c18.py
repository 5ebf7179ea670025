import copy
import tlc
from genericcheck import selftest, spread

INV = ["Orthogonal", "OnlyWeighted", "Optimal", "Distinct", "WeightsPositive"]
KINDS = {"plain", "weighted", "moving"}


def corrupt(t, rng):
    t = copy.deepcopy(t)
    e = t["log"][0]
    j = e["val"].index(True)
    e["f"][j] += 1 + max(abs(n // d) for c in e["data"] for n, d in c)
    return t


def run(ctx):
    ctx.assumptions += ["data on integer lattices under similarities; degrees 1 and 2; values compared to 1e-6 of the data magnitude",
                        "derivatives of data outside the space only for locally constant weights, and (by differences) for moving approximations with cubic weights"]
    q = ctx.quick
    W = {"none", "const", "sing", "cubic", "user"}
    for dim, deg, ops in [(1, 1, 3), (2, 1, 2)] + ([] if q else [(1, 2, 4), (1, 1, 5), (2, 1, 3), (2, 2, 2)]):
        name = f"all data in {dim}d, degree {deg}, {ops} operations"
        t = tlc.check_ok(tlc.run("LS", dict(Depth=1, Sim=False, Dim=dim, Deg=deg, Kinds=KINDS, Weights=W, MaxOps=ops, MaxCols=1), invariants=INV, view="View", workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(t, name, exhaustive=True)
        ctx.log(f"{name}: {t.distinct}")
    recs = []
    for dim, deg, nq, nt in [(1, 1, 60, 900), (1, 2, 60, 900), (2, 1, 60, 900), (2, 2, 50, 900), (3, 1, 30, 600), (3, 2, 24, 500)]:
        name = f"approximations of degree {deg} in {dim}d"
        ws = W - ({"cubic"} if dim == 3 else set())
        t = tlc.simulate("LS", dict(Depth=4, Sim=True, Dim=dim, Deg=deg, Kinds=KINDS, Weights=ws, MaxOps=4, MaxCols=3), nq if q else nt, 60, seed=ctx.seed * 17 + dim * 10 + deg, procs=(4 if dim == 3 else 2) if q else 8,
                         invariants=INV + ["Emit"], what=name, timeout=1500, min_records=10)
        ctx.add_tlc(t, name)
        ctx.count("behaviours", name, len(t.records))
        for r in t.records:
            ctx.count("kinds", r["kind"] + "/" + r["wt"]["k"], 1)
            for e in r["log"]:
                ctx.count("columns", "value specified", sum(e["val"]))
                ctx.count("columns", "derivatives specified", sum(e["der"]))
        ctx.sample({k: v for k, v in t.records[0]["log"][-1].items() if k != "data"})
        recs += t.records
        ctx.log(f"{name}: {len(t.records)}")
    if not ctx.replay_all("lsq", spread(recs, lambda t: (t["dim"], t["deg"], t["kind"] == "moving")), procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    selftest(ctx, "lsq", [t for t in recs if any(t["log"][0]["val"])], corrupt)

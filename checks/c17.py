import copy
import tlc
from genericcheck import selftest, spread

INV = ["DetOK", "RankOK", "RegularOK", "AdjOK", "InvOK"]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    e = rng.choice(t["log"])
    if rng.random() < 0.5 and e["det"]:
        e["inv"]["n"][0] += e["inv"]["d"]
    else:
        e["gram"][0] += 1
    return t


def run(ctx):
    ctx.assumptions += ["integer matrices (as floats and as integers); results compared to 1e-8 relative", "definiteness only for regular symmetric matrices; independence of frames with a tolerance"]
    q = ctx.quick
    for r, c, d, b in [(2, 2, 3 if q else 4, 4), (2, 3, 2 if q else 3, 3)] + ([] if q else [(3, 3, 3, 3), (3, 2, 3, 3), (1, 3, 4, 4)]):
        name = f"all operations on {r}x{c} matrices, depth {d}"
        t = tlc.check_ok(tlc.run("SmallMat", dict(Depth=d, Sim=False, NRow=r, NCol=c, Bound=b), invariants=INV, view="View", workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(t, name, exhaustive=True)
        ctx.log(f"{name}: {t.distinct}")
    t = tlc.check_ok(tlc.run("SmallMat", dict(Depth=4 if q else 5, Sim=True, NRow=1, NCol=1, Bound=1), invariants=["EmitEps"], workers=1, simulate=(1, 1), timeout=600), "permutation symbols")
    eps = {e["n"]: e for e in t.records}
    recs = list(eps.values())
    if set(eps) < {1, 2, 3, 4}:
        raise tlc.MachineryError("no permutation symbols")
    for r, c, b, nq, nt in [(2, 2, 9, 120, 2500), (3, 3, 8, 300, 6000), (4, 4, 3, 40, 600), (2, 3, 5, 60, 1200), (4, 2, 4, 60, 1200), (1, 3, 5, 30, 400), (3, 4, 3, 0, 1200), (3, 1, 5, 30, 400)]:
        if q and not nq:
            continue
        name = f"operations on {r}x{c} matrices"
        t = tlc.simulate("SmallMat", dict(Depth=7, Sim=True, NRow=r, NCol=c, Bound=b), nq if q else nt, 400, seed=ctx.seed * 13 + r * 10 + c, procs=2 if q else 8, invariants=INV + ["Emit"], what=name, timeout=1500, min_records=10)
        ctx.add_tlc(t, name)
        ctx.count("behaviours", name, len(t.records))
        ctx.sample(t.records[0]["log"][-1])
        recs += t.records
        ctx.log(f"{name}: {len(t.records)}")
    ctx.count("matrices", "regular", sum(e["full"] for t in recs if "log" in t for e in t["log"]))
    ctx.count("matrices", "rank deficient", sum(not e["full"] for t in recs if "log" in t for e in t["log"]))
    if not ctx.replay_all("smallmat", recs, procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    selftest(ctx, "smallmat", [t for t in recs if "log" in t], corrupt)

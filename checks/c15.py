import copy
import tlc
from genericcheck import selftest


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    for e in tr["log"]:
        if e["a"] == "Query":
            e["sorted"] = [[k + 1 for k in s] + [0] * 20 for s in e["sorted"]]
        if e["a"] == "Average":
            e["poss"] = [[dict(n=1, sum=[1e6] * len(e["data"][0]))] for _ in e["poss"]]
    return tr


def run(ctx):
    ctx.assumptions += ["integer point clouds; limits lie strictly between two possible distances", "only the SciPy backend (scikit-learn is not installed)"]
    c = dict(Depth=0, Sim=False, Mode="search")
    runs = [("searches in 1D", dict(Dim=1, R=1, MaxPts=3))] + ([] if ctx.quick else [("searches in 1D, 4 points", dict(Dim=1, R=2, MaxPts=4)), ("searches in 2D", dict(Dim=2, R=1, MaxPts=3))])
    for name, d in runs:
        r = tlc.check_ok(tlc.run("KNN", dict(c, **d), invariants=["SearchCorrect", "SearchSorted", "Triangle"], workers=8, timeout=3000, heap="8g"), name)
        ctx.add_tlc(r, name, exhaustive=True)
        ctx.log(f"{name}: {r.distinct}")
    r = tlc.check_ok(tlc.run("KNN", dict(c, Dim=1, R=1, MaxPts=2), properties=["Terminates"], spec="Fair", workers=4, timeout=900), "termination")
    ctx.add_tlc(r, "termination", exhaustive=True)
    recs = []
    for dim, rad, pts, nq, nt in [(2, 1, 2, 80, 1000), (1, 4, 9, 300, 4000), (2, 2, 9, 300, 4000), (2, 5, 14, 200, 3000), (3, 1, 10, 300, 4000), (3, 3, 12, 200, 3000), (2, 9, 60, 32, 300), (3, 4, 90, 16, 200)]:
        name = f"clouds in {dim}D, coordinates up to {rad}, {pts} points"
        r = tlc.simulate("KNN", dict(Depth=6 if pts < 20 else 5, Sim=True, Mode="api", Dim=dim, R=rad, MaxPts=pts), nq if ctx.quick else nt, pts + 8, seed=ctx.seed * 7 + dim * 10 + rad, procs=8, invariants=["Emit"], what=name, timeout=1500)
        ctx.add_tlc(r, name)
        for j, t in enumerate(r.records):
            t["unit"] = [[1.0, 0.0], [1e-6, 0.0], [2.5e5, 0.0], [0.001, 100.0], [1.0, -3.0], [1.0, 0.0]][j % 6]
            # an averaging needs its neighbours within the cloud
            if j % 4 == 3 and min(len(t["cloud"]), *[len(e["new"]) for e in t["log"] if e["a"] == "Move"], 99) >= 6:
                t["fill"] = [300, 1100, 2500, 5000][j // 4 % 4]
                ctx.count("background_points", str(t["fill"]))
            for e in t["log"]:
                ctx.count("events_replayed", e["a"])
        ctx.sample(r.records[0]["log"][0])
        recs += r.records
    if not ctx.replay_all("knn", recs, procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    selftest(ctx, "knn", [t for t in recs if any(e["a"] == "Query" or e["a"] == "Average" and e["poss"][0][0]["n"] for e in t["log"])], corrupt)

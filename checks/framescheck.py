"""Common part of C01-C04: behaviours of spec/Frames.tla replayed into the real classes."""
import copy, random
from concurrent.futures import ThreadPoolExecutor
import tlc

INV = ["TypeOK", "Objective", "ClassHonest"]


def consts(dim, depth, sim, acts, kinds, items, nice, fixed, maxf=6, maxt=6):
    return dict(DIM=dim, Depth=depth, Sim=sim, Acts=set(acts), Kinds=set(kinds), Items=set(items), MaxF=maxf, MaxT=maxt, Nice=nice, Fixed=fixed)


def coverage(ctx, recs):
    for r in recs:
        for st in r["log"]:
            ctx.count("events_replayed", st["e"]["a"] + ("" if st["e"]["ok"] else " (rejected)"))


UNITS = [1.0, 1e-6, 1.0, 1e4]


def units(recs):
    """units of length of the axes the behaviours are replayed with"""
    for i, r in enumerate(recs):
        r["unit"] = UNITS[i % 4]
    return recs


def corrupt(tr, rng):
    """one wrong number in the last state of a behaviour"""
    tr = copy.deepcopy(tr)
    st = tr["log"][-1]
    live = [t for t in st["ts"] if t["live"]] or [f for f in st["fr"] if f["live"]]
    x = rng.choice(live)
    a = x["c"] if "c" in x else x["ax"]
    i = rng.randrange(len(a["n"]))
    a["n"][i] += a["d"]
    return tr


def selftest(ctx, recs, rng):
    bad = [corrupt(t, rng) for t in rng.sample(recs, min(4, len(recs)))]
    v0, k0 = list(ctx.violations), ctx.violation
    hits = []
    ctx.violation = lambda *a, **k: hits.append(a)
    try:
        ctx.drive("frames", bad, max_violations=99, procs=1)
    finally:
        ctx.violation = k0
        ctx.violations = v0
    if len(hits) != len(bad):
        raise tlc.MachineryError("a corrupted behaviour was accepted by the driver")
    ctx.cov["corrupted_behaviours_rejected"] = ctx.cov.get("corrupted_behaviours_rejected", 0) + len(hits)


def run(ctx, acts, sims, exhaustive, deep):
    """sims: list of (name, dim, kinds, items, nice, fixed, quick number, thorough number, depth[, action families])
    exhaustive: list of (name, dim, kinds, items) single-step runs replayed completely
    deep: list of (name, dim, kinds, items, depth) exhaustive design checks, thorough only"""
    rng = random.Random(ctx.seed)

    def ex(name, dim, kinds, items):
        r = tlc.check_ok(tlc.run("Frames", consts(dim, 1, False, acts, kinds, items, 12, 1), invariants=INV + ["Geometry", "Emit"],
                                 properties=["FrameCondition"], workers=4, timeout=600), name)
        return name, True, r, r.records + [dict(x, unit=1e-6) for x in r.records[ctx.seed % 4::4]]

    def sim(name, dim, kinds, items, nice, fixed, nq, nt, depth, acts=acts):
        n = nq if ctx.quick else nt
        r = tlc.simulate("Frames", consts(dim, depth, True, acts, kinds, items, nice, fixed), n, depth + 1, seed=ctx.seed, procs=4,
                         invariants=INV + ["Emit"], properties=["FrameCondition"], what=name, timeout=1500)
        return name, False, r, units(r.records)

    with ThreadPoolExecutor(3) as pool:
        jobs = [pool.submit(sim, *x) for x in sims] + [pool.submit(ex, *x) for x in exhaustive]
        items = []
        for j in jobs:
            name, exhaustive_, r, recs = j.result()
            ctx.add_tlc(r, name, exhaustive=exhaustive_)
            coverage(ctx, recs)
            ctx.sample([s["e"] for s in recs[0]["log"]])
            ctx.log(name, len(recs), "behaviours")
            items += recs
    rng.shuffle(items)
    if not ctx.replay_all("frames", items, procs=8):
        return
    ctx.log("replayed")
    selftest(ctx, items, rng)
    if not ctx.quick:
        for name, dim, kinds, items, depth in deep:
            r = tlc.check_ok(tlc.run("Frames", consts(dim, depth, False, acts, kinds, items, 12, 1, 5, 5), invariants=INV + ["Geometry"],
                                     properties=["FrameCondition"], workers=8, view="View", timeout=3000, heap="8g"), name)
            ctx.add_tlc(r, name, exhaustive=True)
            ctx.log(name, r.distinct, "distinct states")

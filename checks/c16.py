import copy
import random
import tlc
from genericcheck import selftest

INV = ["Sound", "Decides", "Solves"]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    if t["sing"]:
        t["sing"] = False
    t["x"]["n"][rng.randrange(len(t["x"]["n"]))] += t["x"]["d"]
    return t


def run(ctx):
    ctx.assumptions += ["small integer coefficients (also scaled by powers of two); results compared to 1e-7 relative", "singular systems only for the elimination methods: the numpy method is LAPACK's"]
    recs = []
    ex = [(1, 2, 2), (2, 1, 1), (2, 2, 1)] + ([] if ctx.quick else [(2, 1, 2), (3, 1, 1)])
    for n, nr, rg in ex:
        name = f"all systems of {n} unknowns, {nr} right-hand sides, coefficients up to {rg}"
        r = tlc.check_ok(tlc.run("Solve", dict(Sim=False, N=n, NR=nr, Rg=rg), invariants=INV + ["EmitAll"], workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(r, name, exhaustive=True)
        recs += [x for i, x in enumerate(r.records) if n < 3 or i % 11 == ctx.seed % 11]
        ctx.log(f"{name}: {r.distinct}")
    r = tlc.check_ok(tlc.run("Solve", dict(Sim=False, N=2, NR=1, Rg=1), properties=["Terminates"], spec="Fair", workers=4, timeout=900), "termination")
    ctx.add_tlc(r, "termination", exhaustive=True)
    for n, nr, rg, nq, nt in [(2, 1, 5, 200, 4000), (3, 1, 4, 500, 9000), (3, 2, 3, 300, 9000), (4, 1, 3, 300, 9000), (4, 3, 2, 150, 5000)] + ([] if ctx.quick else [(5, 1, 2, 0, 4000)]):
        name = f"random systems of {n} unknowns, {nr} right-hand sides, coefficients up to {rg}"
        r = tlc.simulate("Solve", dict(Sim=True, N=n, NR=nr, Rg=rg), nq if ctx.quick else nt, 2 * n + 5, seed=ctx.seed * 11 + n * 5 + nr, procs=4 if ctx.quick else 8, invariants=INV + ["EmitSim"], what=name, timeout=1500)
        ctx.add_tlc(r, name)
        ctx.sample(r.records[0])
        ctx.log(name)
        ctx.count("systems", name, len(r.records))
        recs += r.records
    ctx.count("systems", "regular", sum(not t["sing"] for t in recs))
    ctx.count("systems", "singular", sum(t["sing"] for t in recs))
    ctx.count("systems", "with prescribed unknowns", sum(any(t["pre"]) for t in recs))
    # larger systems made of these
    rng, big = random.Random(ctx.seed), []
    for nr in (1, 2, 3):
        pool = [t for t in recs if t["nr"] == nr and not t["sing"]]
        sing = [t for t in recs if t["nr"] == nr and t["sing"]]
        for i in range(60 if ctx.quick else 1500):
            k = rng.choice([2, 2, 3, 4, 6])
            ts = rng.sample(pool, k)
            if rng.random() < 0.2 and sing:
                ts[rng.randrange(k)] = rng.choice(sing)
            if rng.random() < 0.3:
                ts = [dict(t) for t in ts if not any(t["pre"])] or ts
            big.append(dict(blocks=ts))
    ctx.count("systems", "block systems of up to 24 unknowns", len(big))
    if not ctx.replay_all("solve", recs + big, procs=8):
        return
    ctx.log(f"{len(recs)} systems solved")
    selftest(ctx, "solve", [t for t in recs if not all(t["pre"])], corrupt)

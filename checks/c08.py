import random
import bgacheck
from bgacheck import ELIT


def run(ctx):
    ctx.assumptions += ["frequencies of mutation and crossover are compared with six standard deviations"]
    bgacheck.histories(ctx, "population", 360 if ctx.quick else 6000, 8, bgacheck.OBJ, strict=0.75)
    if ctx.violations:
        return
    rng = random.Random(ctx.seed * 31 + 5)
    s = lambda: rng.randrange(10**6)
    f = 1 if ctx.quick else 15
    its = []
    for _ in range(250 * f):
        dim, length = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5, 8])
        its.append(dict(k="cross", seed=s(), dim=dim, length=length, pm=rng.choice([0, 0, 1]), compl=rng.random() < 0.6, ncut=rng.choice([-1] + list(range(1, dim * length)))))
    for _ in range(60 * f):
        its.append(dict(k="pairs", seed=s(), n=2 * rng.randint(1, 12)))
        its.append(dict(k="divide", seed=s(), npop=rng.choice([4, 6, 8, 12, 20]), elit=rng.choice([e for e in ELIT if e != "3"]), minimize=rng.random() < 0.5, levels=rng.choice([2, 5, 1000])))
    for pc in (0, 20, 50, 80, 100):
        for _ in range(2 * f):
            its.append(dict(k="crossfreq", seed=s(), dim=rng.choice([1, 2]), length=rng.choice([3, 5]), pc=pc, n=1500))
    for pm in (0, 5, 25, 50, 90, 100):
        for _ in range(2 * f):
            its.append(dict(k="mut", seed=s(), dim=rng.choice([1, 2]), length=rng.choice([2, 5]), pm=pm, n=1500))
    recs = ctx.validate("BGAOps", "bga", its, func="ops", key="operators")
    for it in its:
        ctx.count("operator_calls", it["k"])

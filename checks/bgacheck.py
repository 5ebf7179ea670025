import copy, random
import tlc

OBJ = ["quad", "wave", "steps", "lin", "const"]
ELIT = ["none", "1", "1.0", "2", "3", "half", "quarter", "3/4", "most", "1/8", "1/64", "0.3", "0.45"]


def items(ctx, n, salt, objs, strict=0.6):
    rng = random.Random(ctx.seed * 1009 + salt)
    out = []
    for j in range(n):
        npop = rng.choice([4, 4, 5, 6, 8, 8, 10, 12, 13, 16, 20])
        if j % 12 == 5:
            npop = rng.choice([32, 50, 100])
        el = rng.choice(ELIT)
        if el == "3" and npop <= 4:
            el = "2"
        pc, pm = rng.choice([(1, 0), (1, 0), (0, 0.3), (1, 1), (0.5, 0), (0, 0)]) if rng.random() < strict else (rng.choice([1, 0.7]), rng.choice([0.2, 0.05, 0.5]))
        out.append(dict(seed=rng.randrange(10**6), npop=npop, dim=rng.choice([1, 1, 2, 2, 3, 5]), length=rng.choice([1, 2, 3, 4, 5, 8, 12, 17] if npop > 20 or j % 9 else [21, 25, 33, 40]), wide=rng.random() < 0.2, elit=el, pc=pc, pm=pm,
                        minimize=rng.random() < 0.5, gens=rng.choice([3, 5, 8]) if npop > 20 or j % 10 else 30, obj=rng.choice(objs)))
        # a resolution finer than the rounding of the coordinates cannot be told
        out[-1]["wide"] = out[-1]["wide"] and out[-1]["length"] <= 25
    return out


def selftest(ctx, recs, focus):
    """corrupted recordings must be rejected by the specification"""
    rng = random.Random(ctx.seed)
    bad = []
    for r in rng.sample(recs, 6):
        r = copy.deepcopy(r)
        st = rng.choice(r["steps"])
        if focus == "champion":
            c = st["champ"]
            rng.choice([lambda: c.__setitem__("age", c["age"] + 1), lambda: c.__setitem__("rank", c["rank"] - 1), lambda: c.__setitem__("valok", False)])()
        else:
            row = rng.choice(st["pop"])
            j = rng.randrange(len(row))
            row[j] = rng.choice([2, 1 - row[j]])
        bad.append(r)
    _, v = tlc.validate("BGA", bad, dict(Focus=focus), procs=2, what="corrupted histories")
    if not all(x["clause"] for x in v):
        raise tlc.MachineryError("a corrupted history was accepted")
    ctx.cov["corrupted_behaviours_rejected"] = len(v)


def histories(ctx, focus, n, salt, objs, strict=0.6):
    its = items(ctx, n, salt, objs, strict)
    recs = ctx.validate("BGA", "bga", its, dict(Focus=focus), key=f"histories ({focus})")
    if recs is None or ctx.violations:
        return
    for it in its:
        ctx.count("objectives", it["obj"])
        ctx.count("elitism", it["elit"])
        ctx.count("generations", "recorded", it["gens"])
    ctx.sample(its[0], dict(first_steps=recs[0]["steps"][:1]))
    ctx.log(len(its), "histories validated")
    selftest(ctx, recs, focus)

import random
import tlc


def selftest(ctx, driver, recs, corrupt, n=4, func="replay"):
    """corrupted behaviours must be rejected by the driver: shows that the binding is not vacuous"""
    rng = random.Random(ctx.seed)
    bad = [corrupt(t, rng) for t in rng.sample(recs, min(n, len(recs)))]
    v0, k0 = list(ctx.violations), ctx.violation
    hits = []
    ctx.violation = lambda *a, **k: hits.append(a)
    try:
        ctx.drive(driver, bad, max_violations=99, procs=1, func=func)
    finally:
        ctx.violation = k0
        ctx.violations = v0
    if len(hits) != len(bad):
        raise tlc.MachineryError(f"a corrupted behaviour was accepted by driver {driver}")
    ctx.cov["corrupted_behaviours_rejected"] = ctx.cov.get("corrupted_behaviours_rejected", 0) + len(hits)


def spread(items, key, cost=None, procs=8):
    """orders items so that worker k (which takes every procs-th one) meets few kinds only: every worker compiles just what it needs"""
    groups = {}
    for it in items:
        groups.setdefault(key(it), []).append(it)
    load, bins = [0.0] * procs, [[] for _ in range(procs)]
    for k in sorted(groups, key=lambda g: (-(cost or {}).get(g, 1.0), str(g))):
        b = load.index(min(load))
        load[b] += (cost or {}).get(k, 1.0)
        bins[b] += groups[k]
    n = max(map(len, bins))
    return [b[i] if i < len(b) else None for i in range(n) for b in bins]

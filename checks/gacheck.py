import copy
import tlc
from genericcheck import selftest

GOOD = {"1", "none", "half", "two", "onef", "three"}
BAD = {"neg", "zero", "frac", "big", "all"}
INV = ["ChampionIsBest", "CountsExact", "ErrorReported", "SettingsValid"]
BASE = dict(Pops=[(0,)], MaxIters={0, 1, 2, 3, 5, 8, 12}, MinIters={0, 0, 1, 2, 4, 7}, Ages={0, 1, 2, 3, 5}, Elits=GOOD | BAD, Cycles={1, 1, 2, 3, 5}, FailOdds=6)


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    o = rng.choice(tr["log"])["obs"]
    if o["champ"]["age"] and rng.random() < 0.5:
        o["champ"]["v"] += 1
    else:
        o["st"]["nfev"] += 1
    return tr


def protocol(ctx, nq, nt, focus):
    """exhaustive check of the protocol and replay of random histories"""
    small = dict(NPop=2, Depth=3, Sim=False, Pops=[(0, 1), (2, 0), (1, 1)], MaxIters={1, 3}, MinIters={0, 2}, Ages={0, 1}, Elits={"1", "neg"}, Cycles={1, 2}, FailOdds=1)
    ex = dict(small, Depth=2) if ctx.quick else dict(small)
    r = tlc.check_ok(tlc.run("GA", ex, invariants=INV, properties=["NeverWorse", "LimitsKept"], workers=4, timeout=3000, heap="8g"), "protocol, exhaustive")
    ctx.add_tlc(r, "protocol, exhaustive", exhaustive=True)
    ctx.log("exhaustive:", r.distinct, "states")
    live = dict(small, Depth=2 if ctx.quick else 2, Elits={"1"}, Pops=[(0, 1), (1, 0)])
    r = tlc.check_ok(tlc.run("GA", live, properties=["Terminates"], workers=4, timeout=3000, heap="8g", spec="Fair"), "termination of runs")
    ctx.add_tlc(r, "termination of runs", exhaustive=True)
    ctx.log("termination:", r.distinct, "states")
    last = None
    for npop, depth, w in [(4, 14, 5), (8, 20, 4), (12, 10, 2), (4, 5, 0)]:
        n = (nq if ctx.quick else nt) * (w or 1) // 11
        base = dict(BASE) if w else dict(BASE, MaxIters={25, 40, 60}, MinIters={0, 12, 30}, Ages={6, 12, 30}, Cycles={7, 21}, Elits=GOOD, FailOdds=60)
        r = tlc.simulate("GA", dict(base, NPop=npop, Depth=depth, Sim=True), n, 400, seed=ctx.seed * 7 + npop, procs=4 if ctx.quick else 8, invariants=INV + ["Emit"], what="histories", timeout=1500)
        ctx.add_tlc(r, f"histories npop={npop}" if w else "long runs")
        for i, t in enumerate(r.records):
            t["seed"] = i
            for st in t["log"]:
                ctx.count("events_replayed", st["e"]["a"] + (" rejected" if st["e"].get("ok") is False else " failing" if any(g["fail"] for g in st["e"]["gens"]) else ""))
        ctx.sample([s["e"]["a"] for s in r.records[0]["log"]])
        if not ctx.replay_all("ga", r.records):
            return False
        last = r.records
        ctx.log(f"npop={npop}:" if w else "long runs:", len(r.records), "histories replayed")
    selftest(ctx, "ga", last, corrupt)
    return True

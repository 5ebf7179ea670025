import copy, random
from concurrent.futures import ThreadPoolExecutor
import tlc
from genericcheck import selftest, spread

ACTS = {"show", "setframe", "mutate", "arith", "orient"}
INV = ["ShapeOK", "ItemWise", "Emit"]


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    c = rng.choice(tr["log"][-1]["obj"]["c"])
    c["n"][rng.randrange(len(c["n"]))] += c["d"]
    return tr


def run(ctx):
    ctx.assumptions += ["float comparison tolerance 1e-7 relative", "vectors, Tensor2 and Tensor4 stacks have one leading axis (as documented)"]
    L1, L2 = [(1,), (2,), (3,), (5,)], [(1,), (2,), (3,), (4,), (2, 3), (3, 2), (2, 1, 2)]
    runs = [("3d vectors", 3, {"V"}, L1, 12, 160, 3000, 12),
            ("3d second order", 3, {"T2", "T2x3"}, L2, 10, 240, 4000, 10),
            ("3d fourth order", 3, {"T4", "T4x3"}, [(1,), (2,), (3,), (2, 2), (1, 2, 2)], 4, 120, 1500, 7),
            ("2d", 2, {"V", "T2", "T4"}, L1 + [(4,)], 12, 120, 2500, 10)]

    def sim(name, dim, kinds, leads, nice, nq, nt, depth):
        return tlc.simulate("Stacks", dict(DIM=dim, Depth=depth, Sim=True, Kinds=kinds, Leads=set(leads), Nice=nice, Acts=ACTS),
                            nq if ctx.quick else nt, depth + 1, seed=ctx.seed, procs=4, invariants=INV, what=name, timeout=1500)
    items = []
    with ThreadPoolExecutor(3) as pool:
        for x, j in [(x, pool.submit(sim, *x)) for x in runs]:
            r, name = j.result(), x[0]
            ctx.add_tlc(r, name)
            for t in r.records:
                for st in t["log"]:
                    ctx.count("events_replayed", st["e"]["a"])
                ctx.count("stacks", f"{t['log'][0]['obj']['kind']} {t['log'][0]['obj']['lead']}")
            for i in range(0, len(r.records), 6):     # one item of the specification stands for many
                r.records[i]["rep"] = 60 if "fourth" in name else 1500
            ctx.sample([s["e"]["a"] for s in r.records[0]["log"]])
            ctx.log(name, len(r.records), "behaviours")
            items += r.records
    items = spread(items, key=lambda t: (t["log"][0]["obj"]["kind"][:2], t["dim"], t["log"][0]["obj"]["r"]), procs=8,
                   cost=None)
    if not ctx.replay_all("stacks", items, numba_threads=4, procs=8):
        return
    ctx.log("replayed")
    selftest(ctx, "stacks", r.records, corrupt)
    if not ctx.quick:
        r = tlc.check_ok(tlc.run("Stacks", dict(DIM=2, Depth=3, Sim=False, Kinds={"V", "T2"}, Leads={(1,), (2,)}, Nice=12, Acts=ACTS),
                                 invariants=["ShapeOK", "ItemWise"], workers=8, view="View", timeout=3000, heap="8g"), "2d depth 3")
        ctx.add_tlc(r, "2d depth 3", exhaustive=True)

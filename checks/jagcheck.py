import copy
import random
import tlc
from genericcheck import selftest

INV = ["RowsOK", "UniqueOK", "CsrOK"]


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    e = tr["log"][-1]
    for e in reversed(tr["log"]):
        if e["a"] == "Unique":
            e["uniq"][0] -= 1
            return tr
        if "obs" in e and "rows" in e["obs"]:
            e["obs"]["size"] += 1
            return tr
        if "obs" in e:
            e["obs"]["nc"] += 1
            return tr
    return tr


def run(ctx, mode, plan):
    r = tlc.check_ok(tlc.run("Jagged", dict(Depth=3 if ctx.quick else 4, Sim=False, Mode=mode, NSlots=2, MaxRows=2, MaxW=2), invariants=INV, view="View", workers=8, timeout=3000, heap="8g"), "exhaustive")
    ctx.add_tlc(r, "exhaustive small", exhaustive=True)
    ctx.log("exhaustive:", r.distinct)
    rng = random.Random(ctx.seed)
    big = []
    maps = ["id", "id", "big", "frac", "tiny", "neg"] if mode == "store" else ["id", "id", "shift"]
    for name, rows, w, depth, nq, nt in plan:
        r = tlc.simulate("Jagged", dict(Depth=depth, Sim=True, Mode=mode, NSlots=4, MaxRows=rows, MaxW=w), nq if ctx.quick else nt, depth + 1, seed=ctx.seed * 5 + rows, procs=8,
                         invariants=(INV if rows < 10 else []) + ["Emit"], what=name, timeout=1500)
        ctx.add_tlc(r, name)
        for t in r.records:
            ks = [k for k, e in enumerate(t["log"]) if e["a"] == ("Unique" if mode == "unique" else rng.choice(["Make", "MakeCsr"])) and (e["a"] != "Make" or e["obs"]["size"])]
            if ks and rows < 10 and len(big) < (40 if ctx.quick else 300):
                k = rng.choice(ks)
                e = t["log"][k]
                m = len(e["uniq"]) if mode == "unique" else e["obs"].get("size", 5)
                t["large"] = [[k, 33000 // m + 7 if len(big) % 10 == 9 else rng.choice([37, 90, 211]), rng.random() < 0.7]]
                big.append(t["large"])
                ctx.count("large_arrays", f"copies of the array of {e['a']}")
            t["vm"] = "id" if any(e["a"] == "Eye" for e in t["log"]) else rng.choice(maps)
            ctx.count("value_maps", t["vm"])
            for e in t["log"]:
                ctx.count("events_replayed", e["a"] + (" " + e["route"] if "route" in e else " " + e["how"] if "how" in e else ""))
        ctx.sample(r.records[0]["log"][:2])
        if not ctx.replay_all("jagged", r.records):
            return
        ctx.log(f"{name}: {len(r.records)} behaviours replayed")
    selftest(ctx, "jagged", r.records, corrupt)

import copy
import tlc
from genericcheck import selftest, spread

OPS = {"repeat", "tile", "diag", "flat", "clip", "range", "find", "match", "csr", "lift", "path", "hist", "bool", "parts", "mul", "close", "minmax"}
COST = dict(match=14, repeat=9, tile=9, path=7, find=6, range=6, diag=5, csr=5, mul=2, hist=1.5, minmax=1.4)
INV = ["WellFormed", "Laws"]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    e = rng.choice([e for e in t["log"] if e["op"] in ("repeat", "diag", "flatC", "flatF", "clip", "find", "bool", "minmax", "csr", "tile")])
    e["out"][0] += 1
    return t


def run(ctx):
    ctx.assumptions += ["integer entries up to 12 x 12 and their images under scaling and shifting, as integers and floats, and stacks of up to 80 shifted copies of them; sought elements are present in the search space"]
    q = ctx.quick
    for d, ops in [(2, OPS)] + ([] if q else [(3, OPS - {"range", "close", "mul"}), (4, {"diag", "flat", "clip", "match", "hist"})]):
        name = f"all calls to depth {d} ({len(ops)} kinds)"
        t = tlc.check_ok(tlc.run("Arrays", dict(Depth=d, Sim=False, Ops=ops, Cap=5), invariants=INV, view="View", workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(t, name, exhaustive=True)
        ctx.log(f"{name}: {t.distinct}")
    recs = []
    for name, ops, cap, nq, nt in [("all utilities", OPS, 5, 220, 4000), ("larger arrays", OPS, 12, 40, 700)]:
        t = tlc.simulate("Arrays", dict(Depth=16, Sim=True, Ops=ops, Cap=cap), nq if q else nt, 60, seed=ctx.seed * 29, procs=4 if q else 8, invariants=INV + ["Emit"], what=name, timeout=1500, min_records=10)
        ctx.add_tlc(t, name)
        ctx.count("behaviours", name, len(t.records))
        for r in t.records:
            for e in r["log"]:
                ctx.count("calls", e["op"], 1)
        ctx.sample(t.records[0]["log"][-1])
        recs += t.records
        ctx.log(f"{name}: {len(t.records)}")
    # every logged call is self-contained: calls of the same kind are replayed together
    parts = [dict(log=[e for e in t["log"] if e["op"] == op]) for t in recs for op in sorted({e["op"] for e in t["log"]})]
    if not ctx.replay_all("arrays", spread(parts, lambda t: t["log"][0]["op"], COST), procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    ok = [t for t in recs if any(e["op"] in ("clip", "flatC", "flatF", "bool", "minmax") for e in t["log"])]
    selftest(ctx, "arrays", [dict(log=[e for e in t["log"] if e["op"] in ("clip", "flatC", "flatF", "bool", "minmax")]) for t in ok], corrupt)

import copy
import tlc
from genericcheck import selftest

INV = ["LevelsAreDistances", "Partition", "Complete", "GoodExists"]


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    s = tr["rls"][-1]
    s.append([0])
    return tr


def run(ctx):
    ctx.assumptions += ["an entry stored in the adjacency matrix is an edge, also if its value is zero", "nodes are numbered in the order of the adjacency matrix"]
    r = tlc.check_ok(tlc.run("Graphs", dict(N=3, Sim=False, MaxEdges=0, Loops=True), properties=["Terminates"], spec="Fair", workers=4, timeout=900), "termination")
    ctx.add_tlc(r, "termination, all graphs of 3 nodes with loops", exhaustive=True)
    runs = [("all graphs of 4 nodes", 4, False), ("all graphs of 3 nodes with loops", 3, True), ("all graphs of 5 nodes", 5, False)]
    if not ctx.quick:
        runs += [("all graphs of 4 nodes with loops", 4, True), ("all graphs of 6 nodes", 6, False)]
    for name, n, loops in runs:
        r = tlc.check_ok(tlc.run("Graphs", dict(N=n, Sim=False, MaxEdges=0, Loops=loops), invariants=INV + ["Emit"], workers=8, timeout=3000, heap="8g"), name)
        ctx.add_tlc(r, name, exhaustive=True)
        ctx.count("graphs", name, len(r.records))
        if not ctx.replay_all("graphs", r.records, timeout=60):
            return
        ctx.log(f"{name}: {len(r.records)}")
    ctx.sample(r.records[0])
    for n, m, nq, nt in [(7, 9, 300, 4000), (9, 12, 300, 4000), (12, 14, 200, 3000), (20, 30, 48, 600), (36, 40, 32, 400), (70, 75, 16, 100)]:
        r = tlc.simulate("Graphs", dict(N=n, Sim=True, MaxEdges=m, Loops=n < 30), nq if ctx.quick else nt, 160, seed=ctx.seed * 3 + n, procs=8, invariants=(INV[:3] if n < 15 else []) + ["Emit"], what=f"random graphs of {n} nodes", timeout=1500)
        ctx.add_tlc(r, f"random graphs of {n} nodes")
        ctx.count("graphs", f"random graphs of {n} nodes", len(r.records))
        ctx.sample(r.records[0])
        rs = r.records
        for a, b in zip(rs[::3], rs[1::3]):
            a["then"] = dict(b)
            ctx.count("graphs", "graphs changed into another one")
        for k, a in enumerate(rs[:: max(1, len(rs) // 16)]):
            a["large"] = [40, -25, 300, -60, 700, -11][k % 6] if n < 30 else [5, -20, 17, -31][k % 4]
            ctx.count("graphs", "large graphs made of these")
        if not ctx.replay_all("graphs", r.records, timeout=60):
            return
        ctx.log(f"random graphs of {n} nodes: {len(r.records)}")
    selftest(ctx, "graphs", r.records, corrupt)

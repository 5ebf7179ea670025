import copy
import tlc
from genericcheck import selftest

INV = ["NoBetter", "Dual", "FlipOK"]


# the recorded finding: scipy's solver with presolve takes the continuous variable for an integer one
KNOWN = dict(n=2, seed=0, log=[
    dict(a="Objective", c=[-2, -3], k=-5, form="expr", vs="all"),
    dict(a="Constrain", row=[3, 3], op=">=", b=8, form="expr", vs="all", sides=0, mul=1),
    dict(a="MakeInt", i=2, by="bounds", lo=-1, hi=3),
    dict(a="Solve", max=True, sparse=True, ord=1, how="given", rev=False, int=[False, True], out=dict(s="optimal", n=-28, d=3))])


def corrupt(tr, rng):
    tr = copy.deepcopy(tr)
    e = [e for e in tr["log"] if e["a"] == "Solve"][-1]
    if e["out"]["s"] == "optimal":
        e["out"]["n"] += e["out"]["d"]
    else:
        e["out"] = dict(s="optimal", n=1, d=1)
    return tr


def fold(log):
    """the program at the last Solve of a behaviour"""
    n = len(log[-1]["int"]) if log[-1]["a"] == "Solve" else len([e for e in log if e["a"] == "Solve"][-1]["int"])
    st = dict(c=[1] + [0] * (n - 1), k=0, cons=[], lo=[0] * n, hi=[99] * n, n=n)
    last = max(i for i, e in enumerate(log) if e["a"] == "Solve")
    for e in log[:last]:
        a = e["a"]
        if a == "Objective":
            st["c"], st["k"] = e["c"], e["k"]
        elif a == "Constrain":
            st["cons"].append(e)
        elif a == "Again":
            o = st["cons"][e["m"] - 1]
            st["cons"].append(dict(o, op=e["op"], b=e["b"]) if e["like"] else dict(e, a="Constrain"))
        elif a == "Drop":
            del st["cons"][e["m"] - 1]
        elif a == "Bound":
            st["lo"][e["i"] - 1], st["hi"][e["i"] - 1] = e["lo"], e["hi"]
        elif a == "MakeInt":
            i = e["i"] - 1
            if e["by"] == "bounds":
                st["lo"][i], st["hi"][i] = e["lo"], e["hi"]
            else:
                st["lo"][i], st["hi"][i] = 0, 99
                st["cons"].append(dict(a="Constrain", row=[int(j == i) for j in range(n)], op="<=", b=e["hi"], form="text", vs="all", sides=0, mul=1))
    return st, log[last]


def compose(t1, t2):
    """two programs with different variables side by side: the outcome of the product program follows from theirs"""
    (s1, e1), (s2, e2) = fold(t1["log"]), fold(t2["log"])
    if e1["max"] != e2["max"]:
        return None
    n = s1["n"] + s2["n"]
    o1, o2 = e1["out"], e2["out"]
    if "infeasible" in (o1["s"], o2["s"]):
        out = dict(s="infeasible")
    elif "unbounded" in (o1["s"], o2["s"]):
        out = dict(s="unbounded")
    else:
        out = dict(s="optimal", n=o1["n"] * o2["d"] + o2["n"] * o1["d"], d=o1["d"] * o2["d"])
    pad = lambda q, a, b: dict(q, row=[0] * a + list(q["row"]) + [0] * b)
    cons = [pad(q, 0, s2["n"]) for q in s1["cons"]] + [pad(q, s1["n"], 0) for q in s2["cons"]]
    cons = cons[::2] + cons[1::2]
    log = [dict(a="Objective", c=list(s1["c"]) + list(s2["c"]), k=s1["k"] + s2["k"], form="expr", vs="all", mul=0)] + cons
    log += [dict(a="Bound", i=i + 1, lo=l, hi=h) for i, (l, h) in enumerate(zip(s1["lo"] + s2["lo"], s1["hi"] + s2["hi"]))]
    log.append(dict(e1, meth="default" if any(e1["int"]) or any(e2["int"]) else e1["meth"], int=list(e1["int"]) + list(e2["int"]), out=out))
    return dict(n=n, seed=t1["seed"], log=log)


def run(ctx):
    ctx.assumptions += ["strict inequalities are treated as their closure (floating point solvers cannot tell them apart)",
                        "a solver may report 'infeasible or unbounded' (status 4) for both kinds", "up to 3 variables and 4 constraints (6 and 8 in products of two programs), integer data times rational and irrational factors"]
    r = tlc.check_ok(tlc.run("LP", dict(N=2, Depth=3 if ctx.quick else 4, Sim=False, MaxCons=2, CMax=1, BMax=4, Box=1000, Ints={0, 1, 2}),
                             invariants=INV, view="View", workers=8, timeout=3000, heap="8g"), "exhaustive")
    ctx.add_tlc(r, "exhaustive small", exhaustive=True)
    ctx.log("exhaustive:", r.distinct)
    if not ctx.replay_all("lp", [KNOWN] * 4):
        return
    for n, depth, nq, nt in [(1, 10, 120, 1500), (2, 13, 400, 8000), (3, 14, 400, 8000)]:
        num = nq if ctx.quick else nt
        r = tlc.simulate("LP", dict(N=n, Depth=depth, Sim=True, MaxCons=4, CMax=3, BMax=9, Box=1000, Ints={-1, 0, 1, 2, 3}), num, depth + 1,
                         seed=ctx.seed * 5 + n, procs=8, invariants=INV[:1] + ["Emit"], what=f"{n} variables", timeout=2000)
        ctx.add_tlc(r, f"{n} variables")
        for i, t in enumerate(r.records):
            t["seed"] = i
            for e in t["log"]:
                ctx.count("events_replayed", e["a"])
                if e["a"] == "Solve":
                    ctx.count("outcomes", e["out"]["s"] + (" mixed-integer" if any(e["int"]) else ""))
        rs = [t for t in r.records if any(e["a"] == "Solve" for e in t["log"])]
        if n > 1:
            big = [x for x in (compose(a, b) for a, b in zip(rs[::2] + rs[1::2], rs[1::2] + rs[::2])) if x][:100 if ctx.quick else 4000]
            ctx.count("outcomes", f"products of two programs of {n} variables", len(big))
            if not ctx.replay_all("lp", big):
                return
        ctx.sample(r.records[0]["log"][-3:])
        if not ctx.replay_all("lp", r.records):
            return
        ctx.log(f"{n} variables: {len(r.records)} behaviours replayed")
    selftest(ctx, "lp", r.records, corrupt)

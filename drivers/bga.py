"""Records histories of BinaryGeneticAlgorithm for spec/BGA.tla and single operator calls for spec/BGAOps.tla."""
import math, random
import numpy as np
import sympy as sy
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm
from sigmaepsilon.math.function import Function
from common import Mismatch

ELIT = {"none": (None, [0, 0, "none"]), "1": (1, [1, 1, "count"]), "1.0": (1.0, [1, 1, "count"]), "2": (2, [2, 1, "count"]), "3": (3, [3, 1, "count"]),
        "half": (0.5, [1, 2, "fraction"]), "quarter": (0.25, [1, 4, "fraction"]), "3/4": (0.75, [3, 4, "fraction"]), "most": (-1, None), "1/8": (0.125, [1, 8, "fraction"]),
        "1/64": (1 / 64, [1, 64, "fraction"]), "0.3": (0.3, [3, 10, "fraction"]), "0.45": (0.45, [9, 20, "fraction"])}


def objective(kind, dim, rng):
    a = [rng.randint(-3, 3) for _ in range(dim)]
    b = [rng.choice([1, 2, 3]) for _ in range(dim)]
    if kind == "quad":
        return lambda x: sum(q * (t - p) ** 2 for p, q, t in zip(a, b, x))
    if kind == "wave":
        return lambda x: sum(math.sin(q * t + p) for p, q, t in zip(a, b, x)) - 100.0
    if kind == "steps":                        # many ties
        return lambda x: float(sum(int(t * q) % 4 for q, t in zip(b, x)))
    if kind == "lin":
        return lambda x: sum(p * t for p, t in zip(a, x)) + 7.0
    if kind == "const":
        return lambda x: 3.0
    raise KeyError(kind)


def symbolic(kind, dim, rng):
    v = sy.symbols(" ".join(f"x{i}" for i in range(dim)) + ",")[:dim]
    a = [rng.randint(-3, 3) for _ in range(dim)]
    e = sum((t - p) ** 2 * (j + 1) for j, (p, t) in enumerate(zip(a, v)))
    if kind == "wave":
        e = sum(sy.sin(t + p) for p, t in zip(a, v)) + v[0] / 7
    f = Function(e, variables=list(v))
    ref = lambda x: float(e.subs(dict(zip(v, [sy.Float(float(t), 30) for t in x]))).evalf(30))
    return f, ref


def words(u, tol, length):
    """the number in words of 16 binary digits, the least significant one first"""
    n = int(round(u)) if abs(u - round(u)) < tol else -1
    if not 0 <= n < 2 ** length:
        return [-1]
    return [n >> s & 0xFFFF for s in range(0, length, 16)]


def record(it):
    rng = random.Random(it["seed"])
    np.random.seed(it["seed"] % 2**31)
    dim, length, npop = it["dim"], it["length"], it["npop"]
    lo = [rng.choice([-10.0, -1.0, 0.0, 2.5, 100.0]) for _ in range(dim)]
    ranges = [[l, l + rng.choice([0.5, 1.0, 7.0, 20.0])] for l in lo]
    if it.get("wide"):
        ranges = [[l, l + rng.choice([1e-3, 1000.0, 3.0])] for l in lo]
    if it["obj"].startswith("num-"):          # a function object that is not symbolic
        ref = objective(it["obj"][4:], dim, rng)
        f = Function(ref, d=dim)
    elif it["obj"].startswith("sym-"):
        f, ref = symbolic(it["obj"][4:], dim, rng)
    else:
        f = ref = objective(it["obj"], dim, rng)
    size = -(-npop // 4) * 4
    el, code = ELIT[it["elit"]]
    if el == -1:
        el = size - 1 - (it["seed"] % 3)
        el, code = el, [el, 1, "count"]
    ga = BinaryGeneticAlgorithm(f, [ranges, np.array(ranges), [tuple(r) for r in ranges]][it["seed"] % 3], length=length, nPop=npop, p_c=it["pc"], p_m=it["pm"], elitism=el, minimize=it["minimize"], maxiter=1, miniter=0)
    # rounding of the coordinates, in units of the resolution
    tol = [1e-6 + 1e-15 * max(abs(l), abs(h)) / (h - l) * 2 ** length for l, h in ranges]
    steps, fits = [], []
    fresh = True
    for k in range(it["gens"]):
        if k and rng.random() < 0.12:
            ga.reset()
            fresh = True
        how = rng.random()
        if how < 0.6:
            out = ga.evolve(1)
        elif how < 0.8 or not fresh:
            ga.solve(recycle=True)
        else:
            ga.solve()
        G, P, F = np.asarray(ga.genotypes), np.asarray(ga.phenotypes), np.asarray(ga.fitness, dtype=float)
        codes, inr = [], True
        for row in P:
            c = []
            for d, x in enumerate(row):
                l, h = ranges[d]
                u = (x - l) / (h - l) * (2 ** length - 1)
                inr = inr and -tol[d] <= u <= 2 ** length - 1 + tol[d]
                c.append(words(u, tol[d], length))
            codes.append(c)
        c = ga.champion
        cx = [float(t) for t in c.phenotype]
        ccode = []
        for d, x in enumerate(cx):
            l, h = ranges[d]
            u = (x - l) / (h - l) * (2 ** length - 1)
            ccode.append(words(u, tol[d], length))
        s = ga.state
        steps.append(dict(fresh=fresh, pop=[[int(b) if b in (0, 1) else 9 for b in row] for row in G.tolist()], code=codes, inrange=bool(inr), rank=None,
                          champ=dict(rank=None, age=int(c.age), geno=[int(b) for b in c.genotype], code=ccode,
                                     valok=bool(abs(ref(cx) - c.fitness) <= 1e-9 * (1 + abs(c.fitness))),
                                     stateok=bool(list(s.x) == cx and s.fun == c.fitness))))
        fits.append((F, float(c.fitness)))
        if it["obj"] != "stochastic":
            want = np.array([ref(x) for x in P])
            if F.shape != want.shape or not np.all(np.abs(F - want) <= 1e-9 * (1 + np.abs(want))):
                raise Mismatch("values", "the reported fitness is not the objective at the members")
        fresh = False
    vals = sorted({float(v) for F, c in fits for v in F} | {c for _, c in fits}, reverse=it["minimize"])
    rank = {v: j for j, v in enumerate(vals)}
    for st, (F, c) in zip(steps, fits):
        st["rank"] = [rank[float(v)] for v in F]
        st["champ"]["rank"] = rank[c]
    pct = lambda p: {0.0: 0, 1.0: 1}.get(float(p), 2)
    return dict(rec=dict(cfg=dict(npop=size, dim=dim, length=length, elit=code, pc=pct(it["pc"]), pm=pct(it["pm"])), steps=steps))


def ops(it):
    rng = random.Random(it["seed"])
    np.random.seed(it["seed"] % 2**31)
    k = it["k"]
    dim, length = it.get("dim", 2), it.get("length", 4)
    n = dim * length
    mk = lambda **kw: BinaryGeneticAlgorithm(lambda x: float(sum(x)), [[0, 1]] * dim, length=length, nPop=it.get("npop", 4), **kw)
    if k == "cross":
        ga = mk(p_c=1, p_m=it["pm"])
        p1 = np.array([rng.randint(0, 1) for _ in range(n)])
        p2 = 1 - p1 if it["compl"] else np.array([rng.randint(0, 1) for _ in range(n)])
        q1, q2 = p1.copy(), p2.copy()
        kw = {} if it["ncut"] < 0 else dict(nCut=it["ncut"])
        c1, c2 = ga.crossover(p1, p2, **kw)
        if (p1 != q1).any() or (p2 != q2).any():
            raise Mismatch("crossover: a parent was changed", str(it))
        if it["pm"] == 1 and it["compl"]:
            pass
        return dict(rec=dict(k=k, p1=p1.tolist(), p2=p2.tolist(), c1=[int(b) for b in c1], c2=[int(b) for b in c2], ncut=it["ncut"], pm=it["pm"]))
    if k == "crossfreq":
        ga = mk(p_c=it["pc"] / 100, p_m=0)
        p1, p2 = np.zeros(n, dtype=int), np.ones(n, dtype=int)
        copies, cut = 0, [0] * (n - 1)
        for _ in range(it["n"]):
            c1, c2 = ga.crossover(p1, p2)
            sw = [j for j in range(n - 1) if c1[j] != c1[j + 1]]
            copies += not sw
            for j in sw:
                cut[j] += 1
        return dict(rec=dict(k=k, n=it["n"], copies=copies, cutpos=cut if it["pc"] else [1], pc=it["pc"]))
    if k == "mut":
        ga = mk(p_c=1, p_m=it["pm"] / 100)
        flips, moved = np.zeros(n, dtype=int), False
        for _ in range(it["n"]):
            c = np.array([rng.randint(0, 1) for _ in range(n)])
            c0 = c.copy()
            m = np.asarray(ga.mutate(c))
            moved = moved or bool((c != c0).any())
            flips += (m != c0).astype(int)
        return dict(rec=dict(k=k, n=it["n"], flips=flips.tolist(), pm=it["pm"], moved=moved))
    if k == "pairs":
        rows = np.arange(it["n"] * 3).reshape(it["n"], 3)
        return dict(rec=dict(k=k, n=it["n"], pairs=[[int(a[0]) // 3 + 1, int(b[0]) // 3 + 1] for a, b in BinaryGeneticAlgorithm.random_parents_generator(rows)]))
    if k == "divide":
        size = -(-it["npop"] // 4) * 4
        el, code = ELIT[it["elit"]]
        if el == -1:
            el = size - 1
            code = [el, 1, "count"]
        ga = mk(elitism=el, minimize=it["minimize"])
        v = np.array([float(rng.randint(0, it["levels"])) for _ in range(size)])
        e, o = ga.divide(v)
        rank = [int(-x if it["minimize"] else x) for x in v]
        return dict(rec=dict(k=k, rank=rank, elite=[int(t) + 1 for t in e], others=[int(t) + 1 for t in o], elit=code))

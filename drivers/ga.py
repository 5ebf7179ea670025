"""Replays behaviours of spec/GA.tla into BinaryGeneticAlgorithm with a scripted objective."""
import warnings
import numpy as np
from sigmaepsilon.math.optimize import BinaryGeneticAlgorithm
from common import Mismatch, expect

RANGES = [[-3.0, 5.0], [2.0, 2.5]]
LENGTH = 5
ELIT = {"1": 1, "none": None, "half": 0.5, "two": 2, "neg": -1, "zero": 0, "frac": 1.5, "big": 10**6, "onef": 1.0, "three": 3, "all": "all"}


# increasing maps that turn the integers of the specification into objective values
MAPS = [lambda v: float(v), lambda v: v * 1e-9, lambda v: 1.0 + v * 1e-12, lambda v: v * 1e6 - 3e6, lambda v: v * 1e-200, lambda v: -5.0 + v * 0.1,
        lambda v: 1e9 + v * 0.001, lambda v: v * 1e250, lambda v: np.inf if v == 21 else -np.inf if v == -21 else np.float64(v), lambda v: int(v)]


class Boom(Exception):
    pass


class Objective:
    dimension = 2

    def __init__(self, value=float):
        self.value = value
        self.queue, self.pairs, self.i, self.calls = [], [], 0, 0
        self.watch = None

    def script(self, gens):
        """values of the evaluations to come, generation by generation"""
        self.queue = [(gi, g["vals"][:g["cost"]] if not g["fail"] else g["vals"][:g["fail"] - 1] + ["boom"])
                      for gi, g in enumerate(gens) if g["cost"] or g["fail"]]
        self.queue = [q for q in self.queue if q[1]]
        self.i = 0

    def __call__(self, x):
        self.calls += 1
        if not self.queue:
            raise Mismatch("evaluations", "the objective was evaluated more often than specified")
        gi, vals = self.queue[0]
        if self.i == 0 and self.watch:
            self.watch(gi)
        v = vals[self.i]
        self.i += 1
        if self.i == len(vals):
            self.queue.pop(0)
            self.i = 0
        if v == "boom":
            raise Boom("the objective failed")
        v = self.value(v)
        self.pairs.append((tuple(float(t) for t in x), v))
        return v


def decode(g):
    g = [int(b) for b in g]
    out = []
    for d in range(2):
        k = sum(b << i for i, b in enumerate(g[d * LENGTH:(d + 1) * LENGTH]))
        lo, hi = RANGES[d]
        out.append(lo + (hi - lo) * k / (2 ** LENGTH - 1))
    return out


def check_champion(ga, want, f, what):
    c = ga.champion
    if want["age"] == 0:
        expect(c is None, "champion", f"{what}: a champion exists: {c}")
        return
    expect(c is not None, "champion", f"{what}: there is no champion")
    v = f.value(want["v"])
    expect(c.fitness == v, "champion", f"{what}: the champion has value {c.fitness}, specified {v}")
    expect(c.age == want["age"], "age", f"{what}: the champion has age {c.age}, specified {want['age']}")
    x = tuple(float(t) for t in c.phenotype)
    expect((x, float(c.fitness)) in f.pairs, "champion-occurred", f"{what}: {x} was never evaluated to {c.fitness}")
    expect(np.allclose(decode(c.genotype), x, atol=1e-9), "champion-decodes", f"{what}: chromosome {list(c.genotype)} decodes to {decode(c.genotype)}, the champion is {x}")
    expect(ga.state.x is not None and tuple(ga.state.x) == x and ga.state.fun == c.fitness, "state", f"{what}: state reports {ga.state.x} {ga.state.fun}, the champion is {x} {c.fitness}")


def check_obs(ga, o, f, what):
    check_champion(ga, o["champ"], f, what)
    s, w = ga.state, o["st"]
    stage = None if w["stage"] == "none" else int(w["stage"])
    if o["champ"]["age"] == 0:
        expect(s.x is None and s.fun is None, "state", f"{what}: state reports {s.x} {s.fun} without a champion")
    got = dict(niter=s.n_iter, nfev=s.n_fev, success=s.success, stage=s.stage, msg=bool(s.message))
    exp = dict(niter=w["niter"], nfev=w["nfev"], success=w["success"], stage=stage, msg=w["msg"])
    for k in exp:
        expect(got[k] == exp[k], {"niter": "iterations", "nfev": "evaluations"}.get(k, k), f"{what}: {k} is {got[k]!r}, specified {exp[k]!r}")
    r = s.to_scipy()
    expect(r.nit == s.n_iter and r.nfev == s.n_fev and r.success == s.success and r.message == s.message and r.status == s.stage and r.fun == s.fun
           and (r.x is None if s.x is None else list(r.x) == list(s.x)), "scipy", f"{what}: exported result {dict(r)} differs from the state")


def check_order(a, b):
    """candidates are ordered by their value and equal if their chromosomes are"""
    u, v = a.fitness, b.fitness
    got = (bool(a < b), bool(a <= b), bool(a > b), bool(a >= b))
    expect(got == (u < v, u <= v, u > v, u >= v), "order", f"candidates of value {u} and {v} compare as {got}")
    same = list(a.genotype) == list(b.genotype)
    expect(bool(a == b) == same, "equality", f"candidates {list(a.genotype)} and {list(b.genotype)} are {'un' if same else ''}equal")
    expect(not same or hash(a) == hash(b), "equality", "equal candidates have different hashes")
    expect(not bool(a == 3) and not bool(a == list(a.genotype)), "equality", "a candidate equals something else")


def kwargs(e, n):
    kw = {k: e["kw"][k] for k in e["keys"]}
    if "elitism" in kw:
        kw["elitism"] = ELIT[kw["elitism"]] if kw["elitism"] != "all" else n
    return kw


def settings(ga, p, what):
    got = dict(maxiter=ga.maxiter, miniter=ga.miniter, maxage=ga.maxage, elitism=ga.elitism)
    for k, v in got.items():
        w = ELIT[p[k]] if k == "elitism" else p[k]
        expect(v == w, "settings", f"{what}: {k} is {v!r}, specified {w!r}")


def replay(tr):
    np.random.seed(tr.get("seed", 0) % 2**31 + 11)
    f = Objective(MAPS[tr.get("seed", 0) % len(MAPS)])
    k, what = -1, "construction"
    try:
        p0 = tr["p0"]
        n = tr["npop"] - (tr.get("seed", 0) // 8 % 4 if tr["npop"] > 4 else 0)     # rounded up to a multiple of four
        ga = BinaryGeneticAlgorithm(f, RANGES, length=LENGTH, nPop=n, p_m=0.2, maxiter=p0["maxiter"], miniter=p0["miniter"], maxage=p0["maxage"],
                                    elitism=ELIT[p0["elitism"]], minimize=p0["minimize"])
        expect(ga.nPop == tr["npop"], "size", f"a population of {n} was rounded to {ga.nPop}")
        check_obs(ga, dict(champ=dict(v=0, age=0), st=dict(niter=0, nfev=0, success=True, stage="none", msg=False)), f, what)
        prev = dict(v=0, age=0)
        seen = None
        for k, rec in enumerate(tr["log"]):
            e, a = rec["e"], rec["e"]["a"]
            what = f"call {k + 1} ({a})"
            gens = e["gens"]
            f.script(gens)
            if a == "Reset" or (a == "Solve" and not e["recycle"]):
                f.pairs.clear() if a == "Reset" else None
                prev = dict(v=0, age=0)
            start = prev
            f.watch = None
            if a in ("Solve", "Evolve"):
                if a == "Solve" and e["ok"] and not e["recycle"]:
                    f.pairs.clear()

                def watch(gi):
                    # inside a run, before a generation: the champion is the one after the previous generation
                    check_champion(ga, gens[gi - 1]["champ"] if gi else start, f, f"{what}, before generation {gi + 1}")
                f.watch = watch
            n0 = f.calls
            raised, ret = None, None
            try:
                if a == "Reset":
                    ret = ga.reset()
                    expect(ret is ga, "reset", "reset does not return the object")
                elif a == "SetParams":
                    ga.set_solution_params(**kwargs(e, tr["npop"]))
                elif a == "Solve":
                    ret = ga.solve(recycle=e["recycle"], **kwargs(e, tr["npop"]))
                elif a == "Evolve":
                    ga.evolve(e["cycles"])
                elif a == "Peek":
                    if e["via"] == "fitness":
                        fit = np.asarray(ga.fitness)
                        expect(sorted(fit.tolist()) == sorted(f.value(v) for v in gens[0]["vals"]), "fitness", f"{what}: fitness {fit.tolist()}, evaluated {gens[0]['vals']}")
                    else:
                        c = ga.best_candidate()
                        expect(c.fitness == f.value(e["best"]), "best-candidate", f"{what}: {c.fitness}, specified {f.value(e['best'])}")
                        expect(list(ga.phenotypes[c.index]) == list(c.phenotype) and list(ga.genotypes[c.index]) == list(c.genotype) and ga.fitness[c.index] == c.fitness,
                               "best-candidate", f"{what}: member {c.index} of the population is not the best candidate")
                        if seen is not None:
                            check_order(seen, c)
                            check_order(c, seen)
                        check_order(c, c)
                        seen = c
                        expect(list(ga.best_phenotype()) == list(c.phenotype), "best-candidate", "best_phenotype differs from best_candidate")
                elif a == "Evaluate":
                    pts = np.array([[0.1 * i, 2.2] for i in range(e["m"])])
                    r = np.asarray(ga.evaluate(pts))
                    expect(r.tolist() == [f.value(v) for v in gens[0]["vals"][:e["m"]]], "evaluate", f"{what}: {r.tolist()}")
            except Mismatch:
                raise
            except Exception as ex:
                raised = ex
                c = ex
                while c is not None:          # a mismatch seen inside the objective
                    if isinstance(c, Mismatch):
                        raise c
                    c = c.__cause__ or c.__context__
            f.watch = None
            fails = any(g["fail"] for g in gens) or e.get("ok") is False
            if fails:
                expect(raised is not None, "raises", f"{what}: did not raise")
                if e.get("ok") is False:
                    expect(isinstance(raised, ValueError), "raises", f"{what}: raised {raised!r}")
            elif raised is not None:
                raise Mismatch("exception", f"{what}: raised {raised!r} caused by {raised.__cause__!r}")
            if f.queue and e.get("ok", True):
                raise Mismatch("evaluations", f"{what}: {f.calls - n0} evaluations, more were specified ({len(f.queue)} generations left)")
            if a == "Solve" and not fails:
                expect(ret is ga.champion or (ret.fitness == ga.champion.fitness and list(ret.phenotype) == list(ga.champion.phenotype)), "returned", f"{what}: the returned object is not the champion")
            if a in ("SetParams", "Solve"):
                settings(ga, e["p"], what)
            check_obs(ga, rec["obs"], f, what)
            if ga.champion is not None and seen is not None:
                check_order(ga.champion, seen)
            seen = seen if ga.champion is None else ga.champion
            prev = rec["obs"]["champ"]
    except Mismatch as m:
        return dict(clause=m.clause, detail=f"{m.detail} [call {k + 1} of {len(tr['log'])}]")
    return None

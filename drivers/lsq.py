"""Least-squares approximations of the real package against spec/LS.tla."""
import random, traceback, warnings
import numpy as np
from sigmaepsilon.math.approx import moving_least_squares, least_squares, weighted_least_squares
from sigmaepsilon.math.approx.functions import MLSWeightFunction, ConstantWeightFunction, SingularWeightFunction, CubicWeightFunction
from common import Mismatch, expect

warnings.filterwarnings("ignore")


class UserWeight(MLSWeightFunction):
    """what a user may supply: positive weights by a rule of his own, locally constant"""
    def __init__(self, rule, **kw):
        super().__init__(**kw)
        self.rule = rule

    def value(self, x):
        return self.rule(x)

    def gradient(self, x):
        return np.zeros(self.dimension)

    def Hessian(self, x):
        return np.zeros((self.dimension, self.dimension))


def weight(t, u, shift):
    w, dim = t["wt"], t["dim"]
    k = w["k"]
    core = [u * c + s for c, s in zip(w["core"], shift)]
    sd = [u * c for c in w["sd"]]
    if k == "none":
        return None
    if k == "const":
        return ConstantWeightFunction(core=core, value=float(w["v"]), supportdomain=[s * 1.000001 for s in sd]) if w["sup"] else ConstantWeightFunction(dim=dim, value=float(w["v"]))
    if k == "sing":
        return SingularWeightFunction(core=core, eps=u * w["v"])
    if k == "cubic":
        return CubicWeightFunction(core=core, supportdomain=sd)
    if k == "user":
        def rule(x):
            p = np.rint((np.atleast_1d(x) - shift) / u)
            return 1.0 + (int(sum((i + 1) * a for i, a in enumerate(p))) + w["v"]) % 3
        return UserWeight(rule, dim=dim)
    raise ValueError(k)


def build(t, P, V, w, order):
    if t["kind"] == "plain":
        return least_squares(P, V, deg=t["deg"], order=order)
    kw = dict(deg=t["deg"], order=order)
    if w is not None:
        kw["w"] = w
    return (moving_least_squares if t["kind"] == "moving" else weighted_least_squares)(P, V, **kw)


def pairs(dim):
    return [(i, i) for i in range(dim)] + [(i, j) for i in range(dim) for j in range(i + 1, dim)]


def check(got, want, scale, what, clause, tol):
    got = np.asarray(got, dtype=float)
    if got.shape != np.shape(want) or not np.all(np.abs(got - want) <= tol * scale):
        raise Mismatch(clause, f"{what}: got {got.tolist()}, specified {np.asarray(want).tolist()}")


def evaluate(t, e, rng):
    dim, deg = t["dim"], t["deg"]
    u = rng.choice([1.0, 1.0, 0.5, 0.1, 3.0])
    shift = np.array([0.0] * dim) if rng.random() < 0.5 else np.array([rng.choice([-1.5, 0.25, 2.0]) for _ in range(dim)])
    P0 = np.array(t["pts"], dtype=float) * u + shift
    D = np.array([[n / d for n, d in col] for col in e["data"]]).T           # points x columns
    ncol = D.shape[1]
    # the fit is linear in the data, acts on every column on its own, and does not change when every point is repeated equally often
    vs = rng.choice([1.0, 1.0, 1.0, 1e6, 2.0**-20, -1e3])
    D = D * vs
    cp = rng.choice([1, 1, 1, 2, 9])
    e = {k: (list(v) * cp if isinstance(v, list) and k not in ("x", "data") else v) for k, v in e.items()}
    D, ncol = np.concatenate([D] * cp, axis=1), ncol * cp
    e["f"], e["g"], e["h"] = (np.array(e[k], dtype=float) * vs for k in "fgh")
    rep = rng.choice([1, 1, 1, 2, 3, 12])
    Pk, Dk = P0, D
    P0, D = np.concatenate([P0] * rep), np.concatenate([D] * rep)
    order = rng.choice([0, 1, 2, 2, 2])
    perm = list(range(len(P0)))
    rng.shuffle(perm)
    P, V = P0[perm].copy(), D[perm].copy()
    desc = f"{t['kind']} approximation of degree {deg} in {dim}d with {t['wt']['k']} weights {t['wt']}"
    if dim == 1 and rng.random() < 0.7:
        P = P[:, 0].copy()
    if u == 1.0 and not shift.any() and rng.random() < 0.4:
        P = P.astype(int)
    if np.all(V == np.rint(V)) and rng.random() < 0.4:
        V = V.astype(int)
    if ncol == 1 and rng.random() < 0.5:
        V = V[:, 0].copy()
    aslist = rng.random() < 0.2
    w = weight(t, u, shift)
    Pin, Vin = (P.tolist(), V.tolist()) if aslist else (P, V)
    kp, kv = P.copy(), V.copy()
    f = build(t, Pin, Vin, w, order)
    x = np.array(e["x"], dtype=float) * u + shift
    if w is not None and t["kind"] == "weighted" and t["wt"]["k"] in ("sing", "cubic") and rng.random() < 0.5:
        w.core = x + 1.0                     # a weighted approximation is made with the weights of its creation
    if dim == 1:
        xa = rng.choice([float(x[0]), np.float64(x[0]), [float(x[0])]])
        if u == 1.0 and not shift.any() and rng.random() < 0.3:
            xa = int(x[0])
    else:
        xa = rng.choice([x.copy(), x.tolist(), tuple(x.tolist())])
    if t["kind"] == "moving" and rng.random() < 0.5:
        try:
            f(xa if dim == 1 else (x + 0.3 * u).tolist())                    # evaluations leave no trace
        except np.linalg.LinAlgError:
            pass
    r = f(xa)
    r2 = f(xa)
    for a, b in zip(r, r2):
        expect((a is None) == (b is None) and (a is None or np.array_equal(a, b)), "repeatable", f"{desc}: two evaluations at {xa} differ: {r} {r2}")
    expect(np.array_equal(kp, P) and np.array_equal(kv, V), "inputs", f"{desc}: the data was changed")
    nd = dim + dim * (dim + 1) // 2
    expect(len(r) == 1 + nd, "shape", f"{desc}: {len(r)} results")
    for k in range(dim):
        expect((r[1 + k] is None) == (order < 1), "order", f"{desc}: first derivative {k} with order={order} is {r[1 + k]}")
    for k in range(dim, nd):
        expect((r[1 + k] is None) == (order < 2), "order", f"{desc}: second derivative {k} with order={order} is {r[1 + k]}")
    mag = abs(vs) + np.max(np.abs(D), axis=0)
    inp = f"points {P.tolist()}, values {V.tolist()}, x={xa}, order={order}"
    for j in range(ncol):
        tol = 1e-6
        sc = mag[j]
        if e["val"][j]:
            check(r[0][j], float(e["f"][j]), sc, f"{desc}: value of column {j} ({inp})", "value", tol)
        if e["der"][j] and order > 0:
            for k in range(dim):
                check(r[1 + k][j], e["g"][j][k] / u, sc / u, f"{desc}: derivative {k} of column {j} ({inp})", "derivative", 10 * tol)
        if e["der"][j] and order > 1:
            for n, (a, b) in enumerate(pairs(dim)):
                check(r[1 + dim + n][j], e["h"][j][a * dim + b] / u**2, sc / u**2, f"{desc}: derivative {a}{b} of column {j} ({inp})", "derivative", 100 * tol)
    return Pk, Dk[:, :2], u, shift, desc


def consistent(t, e, P0, D, u, shift, desc):
    """derivatives of a moving approximation are the derivatives of its values, also where nothing is reproduced"""
    dim = t["dim"]
    w = weight(t, u, shift)
    P = P0[:, 0].copy() if dim == 1 else P0
    f = build(t, P, D, w, 2)
    x = np.array(e["x"], dtype=float) * u + shift
    arg = (lambda z: float(z[0])) if dim == 1 else (lambda z: z.copy())
    r = [np.asarray(a) for a in f(arg(x))]
    eye = np.eye(dim)

    def fd(get, k, h):
        return (get(f(arg(x + h * eye[k]))) - get(f(arg(x - h * eye[k])))) / (2 * h)
    scale = u + max(np.max(np.abs(a)) for a in r) * max(1, u) ** 2
    if not np.isfinite(scale):
        return 0
    n = 0
    todo = [(lambda z: np.asarray(z[0]), k, 1 + k) for k in range(dim)]
    todo += [((lambda z, a=a: np.asarray(z[1 + a])), b, 1 + dim + i) for i, (a, b) in enumerate(pairs(dim))]
    for get, k, pos in todo:
        a, b = fd(get, k, 2e-4 * u), fd(get, k, 1e-4 * u)
        if np.max(np.abs(a - b)) > 2e-3 * scale:
            continue                        # not resolved by differences: no judgement
        n += 1
        if np.max(np.abs(b - r[pos])) > 2e-2 * scale:
            raise Mismatch("derivative-of-values", f"{desc}: result {pos} at {x.tolist()} is {r[pos].tolist()}, but differences of the returned values give {b.tolist()} (points {P0.tolist()}, values {D.tolist()})")
    return n


def weights_table(t, rng):
    dim = t["dim"]
    if t["wt"]["k"] != "cubic":
        return
    u = rng.choice([1.0, 0.5, 0.1])
    w = CubicWeightFunction(core=[0.0] * dim, supportdomain=[u * s for s in t["wt"]["sd"]])
    for _ in range(6):
        row = [rng.choice(tb) for tb in t["tab"]]
        s3 = [s ** 3 for s in t["wt"]["sd"]]
        v = [c["v"] / (3 * s) for c, s in zip(row, s3)]
        g = [c["g"] / s / u for c, s in zip(row, s3)]
        h = [c["h"] / s / u**2 for c, s in zip(row, s3)]
        d = np.array([c["d"] for c in row], dtype=float) * u         # core - x
        if any(abs(abs(c["d"]) - s) == 0 for c, s in zip(row, t["wt"]["sd"])):
            continue                         # on the border of the support, decided by rounding (everything is 0 there)
        w.core = d.copy()
        x = [0.0] * dim
        check(w(x), np.prod(v), 1.0, f"cubic weight at distance {d.tolist()}, support {w.supportdomain}", "weight", 1e-9)
        check(w.g(x), [g[k] * np.prod([v[m] for m in range(dim) if m != k]) for k in range(dim)], 1 / u, f"gradient of the cubic weight at {d.tolist()}, support {w.supportdomain}", "weight", 1e-9)
        H = [[h[a] * np.prod([v[m] for m in range(dim) if m != a]) if a == b else g[a] * g[b] for b in range(dim)] for a in range(dim)]
        check(w.G(x), np.array(H), 1 / u**2, f"Hessian of the cubic weight at {d.tolist()}, support {w.supportdomain}", "weight", 1e-9)


def replay(t):
    try:
        rng = random.Random(str(t["log"][0]))
        for e in t["log"]:
            ctx = evaluate(t, e, rng)
            if t["kind"] == "moving" and t["wt"]["k"] in ("cubic", "none") and e["x"] == t["wt"]["core"]:
                consistent(t, e, *ctx)
        weights_table(t, rng)
        rng2 = random.Random(str(t["pts"]))
        if rng2.random() < 0.2:
            try:
                least_squares(np.zeros((4, 2)), np.zeros((5, 1)))
            except ValueError:
                pass
            else:
                raise Mismatch("invalid", "4 points and 5 values were accepted")
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail[:2500])
    except Exception:
        return dict(clause="exception", detail=traceback.format_exc()[-1800:])
    return None

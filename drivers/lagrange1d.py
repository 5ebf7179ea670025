"""Generated Lagrange functions against spec/Lagrange.tla."""
import random, traceback, warnings
import numpy as np
import sympy as sy
from sigmaepsilon.math.approx.lagrange import gen_Lagrange_1d, approx_Lagrange_1d
from common import Mismatch, expect

warnings.filterwarnings("ignore")


def near(got, want, what, clause, tol=1e-7, unit=1.0):
    """equal, in the given unit"""
    got, want = np.asarray(got, dtype=float) / unit, np.asarray(want, dtype=float) / unit
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * (1 + np.max(np.abs(want), initial=0))):
        raise Mismatch(clause, f"{what}: got {got.tolist()}, specified {want.tolist()}")


def frac(p):
    return p[0] / p[1]


def observe(e, rng):
    nodes, x0, n = e["nodes"], e["x"], len(e["nodes"])
    exact = rng.random() < 0.5
    if exact:
        u, sh = 1, 0
    else:
        u, sh = rng.choice([(0.5, 0.0), (0.1, 1.0), (2.0, -3.5), (0.3, 0.25), (0.31415926535897, -2.7182818284), (1e-4, 0.0), (731.0, 142.857142857)])
    X = [u * a + sh for a in nodes]
    x = u * x0 + sh
    want = np.array([[frac(b[k]) / u**k for k in range(4)] for b in e["b"]])
    kw = {}
    inds = list(range(1, n + 1))
    if rng.random() < 0.5:
        inds = rng.sample(range(0, 20), n)
        kw["i"] = inds if rng.random() < 0.7 else tuple(inds)
    xs = "x"
    if rng.random() < 0.4:
        xs = rng.choice([r"\xi", "r", "t"])
        kw["xsym"] = xs
    if rng.random() < 0.3:
        kw["fsym"] = "N"
    form = rng.choice(["expr", "fnc", "both", "sym" if n <= 3 else "expr"])
    given = rng.choice([X, tuple(X), np.array(X, dtype=float)]) if not exact else rng.choice([X, tuple(X), np.array(X)])
    d = {} if rng.random() < 0.2 else None
    if d is not None:
        kw["out"] = d
    sub = {}
    if form == "sym":
        r = gen_Lagrange_1d(N=n, sym=True, **kw) if "i" not in kw else gen_Lagrange_1d(sym=True, **kw)
        sub = {sy.Symbol(f"{xs}_{k + 1}"): X[k] for k in range(n)}
    else:
        if rng.random() < 0.3:
            kw["N"] = n
        r = gen_Lagrange_1d(x=given, lambdify=form != "expr", **kw)
    what = f"gen_Lagrange_1d(x={X}, {kw}, {form})"
    if d is not None:
        expect(r is d, "out", f"{what}: the result is not the dictionary given")
    expect(sorted(r.keys()) == sorted(inds), "keys", f"{what}: keys {list(r.keys())}")
    var = sy.Symbol(xs)
    for pos, ind in enumerate(inds):
        for k in range(4):
            w = want[pos, k]
            expr = sy.sympify(r[ind][k])
            expect(expr.free_symbols <= {var} | set(sub), "symbols", f"{what}: function {ind}, derivative {k} depends on {expr.free_symbols}")
            if form != "fnc":
                near(float(expr.subs(sub).subs({var: x})), w, f"{what}: derivative {k} of function {ind} at {x}", "value" if k == 0 else "derivative", unit=u ** -k)
            if form in ("fnc", "both"):
                f = r[ind]["fnc"][k]
                near(f(x), w, f"{what}: compiled derivative {k} of function {ind} at {x}", "value" if k == 0 else "derivative", unit=u ** -k)
                arr = np.array([x, X[0], X[-1]], dtype=float)
                got = np.broadcast_to(f(arr), (3,))
                near(got[0], w, f"{what}: compiled derivative {k} of function {ind} at {x} in an array", "vectorized", unit=u ** -k)
                if k == 0:
                    near(got[1:], [1.0 * (pos == 0), 1.0 * (pos == n - 1)], f"{what}: compiled function {ind} at nodes {X[0]} and {X[-1]}", "nodal")
            if form != "fnc" and k == 0:
                at = [float(expr.subs(sub).subs({var: z})) for z in X]
                near(at, [1.0 * (q == pos) for q in range(n)], f"{what}: function {ind} at the nodes", "nodal")
            if k and form == "expr":
                near(float(sy.diff(sy.sympify(r[ind][k - 1]), var).subs({var: x})), float(expr.subs({var: x})), f"{what}: derivative {k} of function {ind} is not that of derivative {k - 1} at {x}", "derivative", unit=u ** -k)
    # interpolation of values
    v = e["v"]
    f0 = frac(e["f"])
    vu, vo = rng.choice([(1, 0), (1, 0), (1.4142135623730951, 0.123456789), (1e-6, 0.0), (33333.3333333, -1.0)])
    if vu != 1:
        v, f0 = [vu * z + vo for z in v], vu * f0 + vo
    V = v if rng.random() < 0.5 else np.array(v, dtype=float)
    kx, kv = list(X), list(v)
    g = approx_Lagrange_1d(given, V, lambdify=True)
    near(g(x), f0, f"approx_Lagrange_1d({X}, {v}) at {x}", "interpolation", unit=vu)
    near(np.broadcast_to(g(np.array(X, dtype=float)), (n,)), v, f"approx_Lagrange_1d({X}, {v}) at the nodes", "interpolation", unit=vu)
    s = sy.sympify(approx_Lagrange_1d(given, V))
    near(float(s.subs({"x": x})), f0, f"approx_Lagrange_1d({X}, {v}) as an expression at {x}", "interpolation", unit=vu)
    expect(list(X) == kx and list(v) == kv, "inputs", "inputs changed")
    if rng.random() < 0.3 and n <= 3:
        L = sy.symbols("L", positive=True)
        s = sy.sympify(approx_Lagrange_1d([L * a for a in nodes], [L * b for b in v]))
        near(float(s.subs({"x": x0 * 2.0, L: 2.0})), 2 * f0, f"approx_Lagrange_1d with symbolic nodes L*{nodes}, values L*{v} at {x0}L", "interpolation", unit=vu)
    if rng.random() < 0.2 and n > 1:
        X = np.linspace(-1, 1, n)
        r = gen_Lagrange_1d(N=n, lambdify=True) if rng.random() < 0.5 else gen_Lagrange_1d(i=list(range(1, n + 1)), lambdify=True)
        near([[float(r[i + 1]["fnc"][0](z)) for z in X] for i in range(n)], np.eye(n), f"gen_Lagrange_1d(N={n}) at the equidistant nodes of [-1, 1]", "nodal")


def replay(t):
    try:
        rng = random.Random(str(t["log"][0]))
        for e in t["log"]:
            observe(e, rng)
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail[:2500])
    except Exception:
        return dict(clause="exception", detail=traceback.format_exc()[-1800:])
    return None

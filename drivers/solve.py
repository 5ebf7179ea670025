"""Real linear systems, against spec/Solve.tla."""
import random, traceback
import numpy as np
from sigmaepsilon.math.linalg.solve import linsolve, reduce, backsub, npsolve
from common import Mismatch, expect, q

LinAlgError = np.linalg.LinAlgError


def near(a, b, scale):
    a = np.asarray(a, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * scale))


def plain(t):
    n, nr = t["n"], t["nr"]
    return dict(n=n, nr=nr, a=np.array(t["a"], dtype=int).reshape(n, n), b=np.array(t["b"], dtype=int).reshape(n, nr), pre=np.array(t["pre"], dtype=bool), pv=np.array(t["pv"], dtype=float), sing=t["sing"],
                x=None if t["sing"] else q(t["x"], (n, nr)), r=None if t["sing"] else q(t["r"], (n, nr)))


def blocks(ts, rng):
    """several systems as one: block triangular, the unknowns and equations renumbered; its solution follows from theirs"""
    ps = [plain(t) for t in ts]
    n, nr = sum(p["n"] for p in ps), ps[0]["nr"]
    sing = any(p["sing"] for p in ps)
    a, b, o = np.zeros((n, n)), np.zeros((n, nr)), 0
    for p in ps:
        a[o:o + p["n"], o:o + p["n"]] = p["a"]
        b[o:o + p["n"]] = p["b"]
        o += p["n"]
    x = r = None
    if not sing:
        x, r = np.concatenate([p["x"] for p in ps]), np.concatenate([p["r"] for p in ps])
    o = 0
    for p in ps[:-1]:
        e = o + p["n"]
        c = np.array([[rng.choice([0, 0, 1, -1, 2]) for _ in range(n - e)] for _ in range(p["n"])], dtype=float)
        a[o:e, e:] = c
        if not sing:
            b[o:e] += c @ x[e:]
        o = e
    pre, pv = np.concatenate([p["pre"] for p in ps]), np.concatenate([p["pv"] for p in ps])
    k = np.array(rng.sample(range(n), n))
    return dict(n=n, nr=nr, a=a[np.ix_(k, k)], b=b[k], pre=pre[k], pv=pv[k], sing=sing, x=None if sing else x[k], r=None if sing else r[k])


def wide(t, rng):
    """many right-hand sides: the given ones and affine combinations of them, solution and residual are combined alike"""
    m = t["nr"] + rng.choice([3, 5, 17, 40])
    c = np.eye(t["nr"], m)
    for j in range(t["nr"], m):
        i, k, w = rng.randrange(t["nr"]), rng.randrange(t["nr"]), rng.choice([1, 1, 0.3, -1.7])
        c[i, j] += w
        c[k, j] += 1 - w
    out = dict(t, nr=m, a=t["a"].astype(float), b=t["b"] @ c)
    if not t["sing"]:
        out.update(x=t["x"] @ c, r=t["r"] @ c)
        out["x"][t["pre"]] = t["pv"][t["pre"]][:, None]
    return out


def replay(t):
    rng = random.Random(str(t))
    t = blocks(t["blocks"], rng) if "blocks" in t else plain(t)
    if rng.random() < 0.2:
        t = wide(t, rng)
    n, nr, pre = t["n"], t["nr"], t["pre"]
    try:
        for method in ("numpy", "Jordan", "Gauss-Jordan", "reduce/Jordan", "reduce/Gauss-Jordan"):
            for dt in ("float", "int"):
                if method == "numpy" and (pre.any() or t["sing"]):
                    continue
                if dt == "int" and t["a"].dtype != int:
                    continue
                sc = 1 if dt == "int" else rng.choice([1, 1, 2.0 ** -36, 2.0 ** 30])
                A, B, rows = t["a"].copy(), t["b"].copy(), np.ones((n, 1))
                if dt == "float":
                    if rng.random() < 0.3:      # equations in different units
                        rows = 2.0 ** np.array([[rng.choice([0, 0, -8, -20])] for _ in range(n)])
                    A, B = A * float(sc) * rows, B * float(sc) * rows
                if rng.random() < 0.3:
                    A = np.asfortranarray(A)
                if nr == 1 and rng.random() < 0.5:
                    B = B[:, 0].copy()
                pv = t["pv"].copy()
                pv[~pre] = rng.choice([0, 7])                       # values of free unknowns have no meaning
                constrained = bool(pre.any()) or (method != "numpy" and rng.random() < 0.3)
                pb = pre.copy() if rng.random() < 0.5 else pre.astype(int)
                inplace = rng.random() < 0.25
                keep = [A.copy(), B.copy(), pv.copy(), pb.copy()]
                what = f"method {method}, {dt}, scale {sc}, inplace {inplace}, A={(A / sc).tolist()}, B={(B / sc).tolist()}, prescribed {pre.tolist()} = {pv.tolist()}"
                kw = dict(presc_bool=pb, presc_val=pv) if constrained else {}
                R = None
                try:
                    if method == "numpy":
                        X = linsolve(A, B) if rng.random() < 0.5 else linsolve(A, B, method="numpy")
                        inplace = False
                    elif method.startswith("reduce/"):
                        Ar, Br = reduce(A, B, method=method[7:], inplace=inplace, **kw)
                        X, R = backsub(Ar, Br.reshape(n, nr), pb if constrained else np.zeros(n, dtype=bool), pv)
                        if not constrained:
                            R = None
                    else:
                        X = linsolve(A, B, method=method, inplace=inplace, **kw)
                        if constrained:
                            expect(isinstance(X, tuple) and len(X) == 2, "residual", f"a constrained solution without residuals; {what}")
                            X, R = X
                except LinAlgError:
                    expect(t["sing"], "solvable", f"called singular though it has a unique solution; {what}")
                    X = None
                if not inplace:
                    expect(all(np.array_equal(a, b) for a, b in zip(keep, [A, B, pv, pb])), "inputs", f"the inputs were changed; {what}")
                else:
                    expect(np.array_equal(keep[2], pv) and np.array_equal(keep[3], pb), "inputs", f"the prescription was changed; {what}")
                if X is None:
                    continue
                expect(not t["sing"], "singular", f"answered though there is no unique solution: {np.asarray(X).tolist()}; {what}")
                x = t["x"]
                X = np.asarray(X, dtype=float)
                expect(X.size == n * nr and X.shape[0] == n, "shape", f"solution of shape {X.shape}; {what}")
                X = X.reshape(n, nr)
                s = 1 + np.max(np.abs(x))
                expect(near(X, x, s), "solution", f"solution {X.tolist()}, specified {x.tolist()}; {what}")
                expect(np.array_equal(X[pre], np.broadcast_to(pv[pre][:, None], X[pre].shape)), "prescribed", f"prescribed unknowns {X[pre].tolist()}; {what}")
                if R is not None:
                    r = t["r"]
                    expect(near(np.asarray(R).reshape(n, nr) / sc / rows, r, s * (1 + np.max(np.abs(t["a"])))), "residual", f"residual {np.asarray(R).tolist()}, specified {(r * sc * rows).tolist()}; {what}")
        if pre.any():
            try:
                linsolve(t["a"].astype(float), t["b"].astype(float), presc_bool=pre, presc_val=t["pv"].copy())
            except Exception:
                pass
            else:
                raise Mismatch("unsupported", "the numpy method silently accepted prescribed unknowns")
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail)
    except Exception:
        return dict(clause="exception", detail=f"{t}: {traceback.format_exc()[-1500:]}")
    return None

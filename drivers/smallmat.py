"""Small-matrix kernels on real arrays, against spec/SmallMat.tla."""
import random, traceback
import numpy as np
import sympy as sy
from sigmaepsilon.math.linalg import utils as u
from sigmaepsilon.math.linalg import logical as lg
from sigmaepsilon.math.linalg.exceptions import LinalgError
from common import Mismatch, expect, q


UNITS = [1.0, 1.0, 1e-7, 2e6, 1e-3, 7e-10, 1e9]
UNIT = 1.0      # the matrices of the specification times this; a result of order k is compared in units of UNIT**k


def near(got, want, what, clause, tol=1e-8, k=0):
    got, want = np.asarray(got, dtype=float) / UNIT ** k, np.asarray(want, dtype=float)
    ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * (1 + np.max(np.abs(want), initial=0))))
    if not ok:
        raise Mismatch(clause, f"{what}: got {got.tolist()}, specified {want.tolist()}")


def pure(f, *args, **kw):
    keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else None for a in args]
    r = f(*args, **kw)
    for k, a in zip(keep, args):
        if k is not None and not np.array_equal(k, a):
            raise Mismatch("inputs", f"{getattr(f, '__name__', f)} changed its input {k.tolist()} to {a.tolist()}")
    return r


def one(e, r, c, M, rng):
    A = M.reshape(r, c)
    nm = A.tolist()
    reg = e["det"] != 0 and r == c
    if r == c:
        near(pure(np.linalg.det, A), e["det"], f"numpy determinant of {nm}", "oracle", 1e-6, k=r)     # the oracle itself
    if r == c == 2:
        near(pure(u.det2x2, A), e["det"], f"det2x2 of {nm}", "determinant", k=r)
        if reg:
            iv = q(e["inv"], (2, 2))
            near(pure(u.inv2x2, A), iv, f"inv2x2 of {nm}", "inverse", k=-1)
            near(pure(u.inv2x2u, A), iv, f"inv2x2u of {nm}", "inverse", k=-1)
    if r == c == 3:
        near(pure(u.det3x3, A), e["det"], f"det3x3 of {nm}", "determinant", k=r)
        near(pure(u.adj3x3, A), np.array(e["adj"]).reshape(3, 3), f"adj3x3 of {nm}", "adjugate", k=r - 1)
        if reg:
            iv = q(e["inv"], (3, 3))
            if A.dtype == float:               # compiled kernels reject integers
                near(pure(u.inv3x3, A), iv, f"inv3x3 of {nm}", "inverse", k=-1)
            near(pure(u.inv3x3u, A), iv, f"inv3x3u of {nm}", "inverse", k=-1)
    if reg:
        iv = q(e["inv"], (r, r))
        if A.dtype == float:
            near(pure(u.inv, A), iv, f"inv of {nm}", "inverse", k=-1)
            near(pure(u.dual_frame, A), iv.T, f"dual frame of {nm}", "dual", k=-1)
    if e["full"]:
        iv = q(e["inv"], (c, r))
        near(pure(u.generalized_inverse, A), iv, f"generalized inverse of {nm}", "generalized-inverse", k=-1)
        if r <= c:
            near(pure(u.generalized_right_inverse, A), iv, f"right inverse of {nm}", "generalized-inverse", k=-1)
        if r >= c:
            near(pure(u.generalized_left_inverse, A), iv, f"left inverse of {nm}", "generalized-inverse", k=-1)
    else:
        try:
            g = u.generalized_inverse(A)
        except LinalgError:
            pass
        else:
            raise Mismatch("generalized-inverse", f"a matrix of rank {e['rank']} has got a generalized inverse: {nm} -> {g.tolist()}")
    rk = e["rank"]
    for f, want in ((lg.has_full_row_rank, rk == r), (lg.has_full_column_rank, rk == c), (lg.has_full_rank, rk == min(r, c))):
        expect(bool(pure(f, A)) == want, "rank", f"{f.__name__} of {nm} (rank {rk}) is {not want}")
    near(pure(u.Gram, A), np.array(e["gram"]).reshape(r, r), f"Gram matrix of {nm}", "gram", k=2)
    n2 = np.array([e["gram"][i * r + i] for i in range(r)], dtype=float)
    if A.dtype == float:
        near(pure(u.norm2d, A), np.sqrt(n2), f"norm2d of {nm}", "norm", k=1)
        near(pure(u.norm, A[0].copy()), np.sqrt(n2[0]), f"norm of {nm[0]}", "norm", k=1)
    if np.all(n2 > 0) and A.dtype == float:
        w = A / UNIT / np.sqrt(n2)[:, None]
        near(pure(u.normalize2d, A), w, f"normalize2d of {nm}", "norm")
        near(pure(u.normalize_frame, A), w, f"normalize_frame of {nm}", "norm")
        near(pure(u.normalize, A[0].copy()), w[0], f"normalize of {nm[0]}", "norm")
    if r == c:
        expect(bool(pure(lg.is_rectangular_frame, A)) == e["orth"], "frame-predicate", f"is_rectangular_frame of {nm} is {not e['orth']}")
        expect(bool(pure(lg.is_normal_frame, A)) == (e["unit"] and UNIT == 1), "frame-predicate", f"is_normal_frame of {nm}")
        expect(bool(pure(lg.is_orthonormal_frame, A)) == (e["unit"] and e["orth"] and UNIT == 1), "frame-predicate", f"is_orthonormal_frame of {nm}")
        if UNIT == 1:
            expect(bool(pure(lg.is_independent_frame, A, tol=0.5)) == reg, "frame-predicate", f"is_independent_frame of {nm}")
        if e["sym"] and reg:                                   # a zero eigenvalue cannot be told from rounding
            expect(bool(pure(lg.is_pos_def, A)) == e["pd"], "definite", f"is_pos_def of {nm} is {not e['pd']}")
            expect(bool(pure(lg.is_pos_semidef, A)) == e["pd"], "definite", f"is_pos_semidef of {nm} is {not e['pd']}")


def replay(t):
    global UNIT
    UNIT = 1.0
    try:
        if "eps" in t:
            n = t["n"]
            near(u.permutation_tensor(n), np.array(t["eps"]).reshape((n,) * n), f"permutation tensor in {n} dimensions", "permutation")
            if n == 3:
                near(u.permutation_tensor(), np.array(t["eps"]).reshape(3, 3, 3), "permutation tensor by default", "permutation")
            for i in range(n):
                near(u.unit_basis_vector(n, i), np.eye(n)[i], f"unit_basis_vector({n}, {i})", "basis")
                near(u.unit_basis_vector(n, i, -2.5), -2.5 * np.eye(n)[i], f"unit_basis_vector({n}, {i}, -2.5)", "basis")
            return None
        r, c, log = t["r"], t["c"], t["log"]
        rng = random.Random(str(log[0]))
        UNIT = UNITS[rng.randrange(len(UNITS))]
        for e in log:
            for dt in (float, int) if UNIT == 1 else (float,):
                M = np.array(e["m"], dtype=dt) if UNIT == 1 else UNIT * np.array(e["m"], dtype=float)
                one(e, r, c, M, rng)
            if r == c == 3 and rng.random() < 0.1:
                S = sy.Matrix(3, 3, e["m"])
                d, a = u.inv_sym_3x3(S, as_adj_det=True)
                expect(d == e["det"] and list(a) == e["adj"], "symbolic", f"inv_sym_3x3 of {S.tolist()}: {d}, {a}")
                if e["det"]:
                    near(np.array(u.inv_sym_3x3(S).tolist(), dtype=float), q(e["inv"], (3, 3)), f"inv_sym_3x3 of {S.tolist()}", "symbolic")
                expect(bool(lg.has_full_rank(S)) == e["full"], "rank", f"has_full_rank of the SymPy matrix {S.tolist()}")
        A = UNIT * np.array([e["m"] for e in log], dtype=float).reshape(len(log), r, c)
        if r == c:                             # axes of frames are square
            near(pure(u.transpose_axes, A), np.transpose(A, (0, 2, 1)) / UNIT, "transpose of a stack", "stack", k=1)
            near(pure(u.transpose_axes, A[0]), A[0].T / UNIT, "transpose", "stack", k=1)
            near(pure(u.transpose_axes, A[None]), np.transpose(A[None], (0, 1, 3, 2)) / UNIT, "transpose of a stack of stacks", "stack", k=1)
            near(pure(u.Gram, A), np.array([e["gram"] for e in log]).reshape(-1, r, r), "Gram matrices of a stack", "stack", k=2)
        if r == c == 2:
            near(pure(u.det2x2, A), [e["det"] for e in log], "det2x2 of a stack", "stack", k=2)
        if r == c == 3:
            near(pure(u.det3x3, A), [e["det"] for e in log], "det3x3 of a stack", "stack", k=3)
            near(pure(u.adj3x3, A), np.array([e["adj"] for e in log]).reshape(-1, 3, 3), "adj3x3 of a stack", "stack", k=2)
        if r == c:
            # row i of the result is the image of row i
            for e, B, X in zip(log[1:], A[1:], A[:-1]):
                S = np.array(e["shown"]).reshape(r, r)
                near(pure(u.show_vector, B, X), S, f"show_vector({B.tolist()}, {X.tolist()})", "show", k=2)
                near(pure(u.show_vector, B, X[0]), S[0], f"show_vector({B.tolist()}, {X[0].tolist()})", "show", k=2)
                near(pure(u.show_frame, B, X), S, f"show_frame({B.tolist()}, {X.tolist()})", "show", k=2)
                near(pure(u.show_frame, B, np.stack([X, X])), np.stack([S, S]), "show_frame of a stack by one matrix", "show", k=2)
            if len(log) > 1:
                S = np.array([e["shown"] for e in log[1:]]).reshape(-1, r, r)
                near(pure(u.show_frame, A[1:].copy(), A[:-1].copy()), S, "show_frame of a stack by a stack", "show", k=2)
                near(pure(u.show_vector, A[1:].copy(), A[:-1, 0].copy()), S[:, 0], "show_vector of a stack by a stack", "show", k=2)
        ok = [i for i, e in enumerate(log) if e["det"] != 0]
        if r == c and ok:
            B = A[ok].copy()
            iv = np.array([q(log[i]["inv"], (r, r)) for i in ok])
            fs = [u.inv2x2u] if r == 2 else [u.inv3x3u, u.inv3x3_bulk, u.inv3x3_bulk2] if r == 3 else []
            for f in fs:
                near(pure(f, B), iv, f"{getattr(f, '__name__', f)} of the stack {B.tolist()}", "stack", k=-1)
                # many matrices at once, the same ones again in another order
                p = np.array([rng.randrange(len(ok)) for _ in range(rng.choice([33, 70, 300]))])
                near(pure(f, B[p]), iv[p], f"{getattr(f, '__name__', f)} of a stack of {len(p)} matrices", "stack", k=-1)
            for f in fs[:1]:
                near(pure(f, np.stack([B, B[::-1]])), np.stack([iv, iv[::-1]]), f"{getattr(f, '__name__', f)} of a stack of stacks", "stack", k=-1)
                near(pure(f, np.asfortranarray(B)), iv, f"{getattr(f, '__name__', f)} of a stack in Fortran order", "stack", k=-1)
            if r == 3:
                D, J = np.array([log[i]["det"] for i in ok]), np.array([log[i]["adj"] for i in ok]).reshape(-1, 3, 3)
                near(pure(u.det3x3, B[p]), D[p], "det3x3 of many matrices", "stack", k=3)
                near(pure(u.adj3x3, B[p]), J[p], "adj3x3 of many matrices", "stack", k=2)
                near(pure(u.adj3x3, np.asfortranarray(B)), J, "adj3x3 of a stack in Fortran order", "stack", k=2)
            near(pure(u.dual_frame, B), np.transpose(iv, (0, 2, 1)), "dual frames of a stack", "stack", k=-1)
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail[:2500])
    except Exception:
        return dict(clause="exception", detail=traceback.format_exc()[-1800:])
    return None

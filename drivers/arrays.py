"""Array utilities against spec/Arrays.tla."""
import random, traceback, warnings
import numpy as np
import sigmaepsilon.math as sm
from sigmaepsilon.math import utils as u
from sigmaepsilon.math import logical as lg
from sigmaepsilon.math.hist import histogram, bin_centers
from sigmaepsilon.math.linalg import utils as lu
from sigmaepsilon.math.linalg.sparse import utils as su
from common import Mismatch, expect, q

warnings.filterwarnings("ignore")


def same(got, want, what, clause, tol=0.0):
    g, w = np.asarray(got), np.asarray(want)
    ok = g.shape == w.shape
    if ok:
        gf, wf = g.astype(float), w.astype(float)
        ok = bool(np.all(np.abs(gf - wf) <= tol * (1 + np.abs(wf))))
    if not ok:
        raise Mismatch(clause, f"{what}: got {g.tolist()} of shape {g.shape}, specified {w.tolist()} of shape {w.shape}")


def pure(f, *args, **kw):
    keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else None for a in args]
    r = f(*args, **kw)
    for k, a in zip(keep, args):
        if k is not None and not (np.array_equal(k, a) and k.dtype == a.dtype):
            raise Mismatch("inputs", f"{getattr(f, '__name__', f)} changed its input {k.tolist()} to {a.tolist()}")
    return r


def fresh(got, src, what):
    """results are new arrays: writing into them does not reach the input"""
    if isinstance(got, np.ndarray) and isinstance(src, np.ndarray):
        expect(not np.shares_memory(got, src), "fresh", f"{what}: the result is a view of the input")


def step(e, rng):
    op, arg, out = e["op"], e["arg"], e["out"]
    r, c = e["in"]["r"], e["in"]["c"]
    dt = rng.choice([int, float])
    A = np.array(e["in"]["v"], dtype=dt).reshape(r, c)
    nm = f"{A.tolist()} ({A.dtype})"
    if op == "repeat":
        n = arg["n"]
        g = pure(u.repeat, A, n)
        same(g, np.array(out).reshape(n, r, c), f"repeat({nm}, {n})", op)
        fresh(g, A, "repeat")
        expect(g.dtype == A.dtype, op, f"repeat({nm}): {g.dtype}")
        v = A.reshape(-1).copy()
        same(pure(u.repeat1d, v, n), out, f"repeat1d({v.tolist()}, {n})", op)
        if n == 1:
            same(u.repeat(A), A[None], "repeat once", op)
    elif op == "tile":
        n = arg["n"]
        half = rng.random() < 0.4
        D = np.array(arg["da"], dtype=rng.choice([int, float])).reshape(r, c)
        want = np.array(out, dtype=float).reshape(n, r, c)
        if half:
            D = D / 2
            want = np.array(e["in"]["v"], dtype=float).reshape(1, r, c) + (want - np.array(e["in"]["v"]).reshape(1, r, c)) / 2
        same(pure(u.tile, A, D, n), want, f"tile({nm}, {D.tolist()}, {n})", op)
        same(pure(u.tile1d, A.reshape(-1).copy(), D.reshape(-1).copy(), n), want.reshape(-1), f"tile1d({nm}, {D.tolist()}, {n})", op)
    elif op == "diag":
        n = arg["n"]
        g = pure(u.repeat_diagonal_2d, A, n)
        same(g, np.array(out).reshape(r * n, c * n), f"repeat_diagonal_2d({nm}, {n})", op)
        fresh(g, A, "repeat_diagonal_2d")
        if n == 2:
            same(u.repeat_diagonal_2d(A), g, f"repeat_diagonal_2d({nm})", op)
    elif op in ("flatC", "flatF"):
        B = A if rng.random() < 0.7 else np.asfortranarray(A)
        g = pure(u.flatten2d, B, order=op[-1])
        same(g, out, f"flatten2d({nm}, {op[-1]})", op)
        if op == "flatC":
            same(pure(u.flatten2d, B), out, f"flatten2d({nm})", op)
    elif op == "clip":
        v = A.reshape(-1).copy()
        g = pure(u.clip1d, v, dt(arg["lo"]), dt(arg["hi"]))
        same(g, out, f"clip1d({v.tolist()}, {arg})", op)
        fresh(g, v, "clip1d")
    elif op == "range":
        v = A.reshape(-1).copy()
        g = rng.choice([v, v.tolist(), tuple(v.tolist())])
        s, t = arg["s"], arg["t"]
        kw = dict(source=rng.choice([s, np.array(s, dtype=float)]), target=rng.choice([t, np.array(t, dtype=float)]))
        same(pure(u.to_range_1d, g, **kw), q(out), f"to_range_1d({g}, {arg})", op, 1e-12)
        if t == [-1, 1]:
            same(u.to_range_1d(g, source=s), q(out), f"to_range_1d({g}, source={s})", op, 1e-12)
        same(u.to_range_1d(v.tolist()[0], **kw), q(out)[:1], f"to_range_1d({v[0]}, {arg})", op, 1e-12)
        same(u.to_range_1d([0.0, 1.0], source=None, target=t), [t[0], t[1]], f"to_range_1d of the default source to {t}", op, 1e-12)
    elif op == "find":
        sp = np.array(arg["space"], dtype=dt)
        same(pure(u.find1d, A.reshape(-1).copy(), sp), out, f"find1d({nm}, {sp.tolist()})", op)
        same(pure(u.find2d, A, sp), np.array(out).reshape(r, c), f"find2d({nm}, {sp.tolist()})", op)
    elif op == "match":
        B = np.array(arg["b"]["v"], dtype=rng.choice([int, float])).reshape(arg["b"]["r"], c)
        want = [(i - 1, j - 1) for i, j in out]
        if rng.random() < 0.3:
            X, Y = A / 4, B / 4
        else:
            X, Y = A, B
        kw = {}
        if rng.random() < 0.25:                    # a tolerance wider than the disturbance, narrower than the differences
            X, Y = X.astype(float), Y + np.array([[rng.choice([0, 1e-3, -1e-3]) for _ in range(c)] for _ in range(len(Y))])
            kw = dict(tol=0.1)
        g = pure(u.indices_of_equal_rows, X, Y, **kw)
        expect(len(g) == 2 and len(g[0]) == len(g[1]), op, f"indices_of_equal_rows: {g}")
        got = sorted(zip(np.asarray(g[0]).tolist(), np.asarray(g[1]).tolist()))
        expect(got == sorted(want), op, f"indices_of_equal_rows({X.tolist()}, {Y.tolist()}): got {got}, specified {want}")
    elif op == "csr":
        ptr = np.concatenate([[0], np.cumsum(arg["counts"])]).astype(rng.choice([np.int64, np.int32]))
        ind = np.array([j for k in arg["counts"] for j in range(k)], dtype=ptr.dtype)
        if rng.random() < 0.5:
            rng.shuffle(ind)                       # counting does not depend on which columns are filled
        same(pure(u.count_cols_csr, ptr, ind), out, f"count_cols_csr({ptr.tolist()}, {ind.tolist()})", op)
        n, w = pure(su.get_shape_sp, ptr)
        expect(n == len(out) and w == max(out), op, f"get_shape_sp({ptr.tolist()}) is {n}, {w}")
        same(pure(u.count_cols, A), [c] * r, f"count_cols({nm})", op)
    elif op == "lift":
        B = A if arg["nd"] == 2 else A.reshape(-1).copy()
        n = arg["n"]
        kw = {"front": {}, "back": dict(back=True), "both": dict(front=True, back=True), "none": dict(front=False)}[arg["how"]]
        G = rng.choice([B, B.tolist()])
        f = rng.choice([lambda z, **k: u.atleastnd(z, n, **k), {1: lambda z, **k: u.atleastnd(z, 1, **k), 2: u.atleast2d, 3: u.atleast3d, 4: u.atleast4d}[n]])
        g = pure(f, G, **kw)
        same(g, np.reshape(B, tuple(out)), f"lifting {nm} to {n} dimensions, {kw}", op)
        same(u.atleastnd(3.5, n, **kw), np.full((1,) * n, 3.5), f"lifting a number to {n} dimensions", op)
        same(u.matrixform(G), B if B.ndim == 2 else B[:, None], f"matrixform({G})", op)
        same(u.matrixform(2), [[2]], "matrixform(2)", op)
        same(u.atleast1d(G), B, f"atleast1d({G})", op)
        same(u.ascont(B), B, "ascont", op)
        sq = sm.squeeze(True)(lambda z: (z, z[None], "s"))
        x = sq(B[None])
        expect(len(x) == 3 and x[2] == "s", op, f"squeeze: {x}")
        same(x[0], np.squeeze(B), f"squeezed {B[None].tolist()}", op)
        same(x[1], np.squeeze(B), f"squeezed {B[None].tolist()}", op)
        same(sq(B[None], squeeze=False)[0], B[None], "squeeze turned off", op)
        same(sm.squeeze(False)(lambda z: z)(B[None]), B[None], "squeeze off by default", op)
        same(sm.squeeze(False)(lambda z: {"k": z})(B[None], squeeze=True)["k"], np.squeeze(B), "squeezed dictionary", op)
    elif op == "path":
        n = arg["n"]
        p, z = np.array(arg["p"], dtype=dt), np.array(arg["q"], dtype=dt)
        want = q(out).reshape(n, len(p))
        same(pure(lu.vpath, p, z, n), want, f"vpath({p.tolist()}, {z.tolist()}, {n})", op, 1e-12)
        same(pure(lu.linspace, p, z, n), want, f"linspace({p.tolist()}, {z.tolist()}, {n})", op, 1e-12)
        same(lu.linspace(float(p[0]), float(z[0]), n), want[:, 0], f"linspace({p[0]}, {z[0]}, {n})", op, 1e-12)
        same(lu.linspace1d(dt(p[0]), dt(z[0]), n), want[:, 0], f"linspace1d({p[0]}, {z[0]}, {n})", op, 1e-12)
    elif op == "hist":
        ed = rng.choice([arg["e"], np.array(arg["e"], dtype=rng.choice([int, float]))])
        data = rng.choice([A, A.reshape(-1).copy(), A.reshape(-1).tolist()])
        h, bc = pure(histogram, data, ed)
        same(h, out["counts"], f"histogram({nm}, {arg['e']})", op)
        same(bc, np.array(out["centers2"]) / 2, f"centers of the bins {arg['e']}", op, 1e-12)
        h, bc = pure(histogram, data, ed, return_edges=True)
        same(h, out["counts"], f"histogram({nm}, {arg['e']})", op)
        same(bc, arg["e"], f"edges of the bins {arg['e']}", op)
    elif op == "bool":
        B = A > 0
        G = rng.choice([B, B.tolist()])
        g = pure(u.bool_to_float, G, float(arg["t"]), float(arg["f"]))
        same(g, np.array(out).reshape(r, c), f"bool_to_float({B.tolist()}, {arg})", op)
        expect(g.dtype == float, op, "bool_to_float does not return floats")
        if (arg["t"], arg["f"]) == (1, 0):
            same(u.bool_to_float(G), np.array(out).reshape(r, c), f"bool_to_float({B.tolist()})", op)
        for z, want in ((A.astype(float), (True, False, False)), (A.astype(int), (False, True, False)), (B, (False, False, True)), (A.astype(np.float32), (True, False, False)), (A.astype(np.int32), (False, True, False))):
            got = (lg.isfloatarray(z), lg.isintegerarray(z), lg.isboolarray(z))
            expect(tuple(map(bool, got)) == want and bool(lg.isintarray(z)) == want[1], "type", f"type predicates of an array of {z.dtype}: {got}")
            for zz in (z, z.reshape(-1)):
                expect(bool(lg.is1dfloatarray(zz)) == (want[0] and zz.ndim == 1) and bool(lg.is1dintarray(zz)) == (want[1] and zz.ndim == 1), "type", f"1d type predicates of an array of {z.dtype} of shape {zz.shape}")
    elif op == "parts":
        T = list(arg["all"])
        rng.shuffle(T)
        d, i, j = (np.array([t[k] for t in T], dtype=int) for k in range(3))
        d = d.astype(dt)
        for f, w in ((su.lower_spdata, out["low"]), (su.upper_spdata, out["upp"])):
            g = pure(f, d, i - 1, j - 1)
            got = list(zip(*(np.asarray(z).tolist() for z in g)))
            want = [(t[0], t[1] - 1, t[2] - 1) for t in T if t in w]
            expect(len(g) == 3 and got == want, op, f"{f.__name__} of {T}: {got}, specified {want}")
    elif op == "mul":
        k = arg["b"]["c"]
        A = A.astype(float)
        B, G, S = (np.array(arg[x]["v"], dtype=float).reshape(arg[x]["r"], arg[x]["c"]) for x in "bgs")
        w = float(arg["w"])
        same(pure(lu.matmul, A, B), np.array(out["ab"]).reshape(r, k), f"matmul({nm}, {B.tolist()})", op)
        same(pure(lu.matmulw, A, B, w), np.array(out["wab"]).reshape(r, k), f"matmulw({nm}, {B.tolist()}, {w})", op)
        same(pure(lu.ATB, A, G), np.array(out["atg"]).reshape(c, k), f"ATB({nm}, {G.tolist()})", op)
        same(pure(lu.ATBA, A, S), np.array(out["atsa"]).reshape(c, c), f"ATBA({nm}, {S.tolist()})", op)
        same(pure(lu.ATBAw, A, S, w), np.array(out["watsa"]).reshape(c, c), f"ATBAw({nm}, {S.tolist()}, {w})", op)
    elif op == "close":
        at, rt = arg["at"], arg["rt"]
        B = np.array(arg["b"], dtype=rng.choice([int, float])).reshape(r, c)
        want = np.array(out, dtype=bool).reshape(r, c)
        # tolerances halfway to the next representable difference, so that rounding does not decide
        kw = dict(atol=at / 10 + 1e-9 if at else None, rtol=rt / 10 * (1 + 1e-12) + 1e-15 if rt else None)
        g = pure(lg.isclose, A, B, **kw)
        same(g, want if r * c > 1 or A.ndim > 1 else want[0, 0], f"isclose({nm}, {B.tolist()}, {kw})", op)
        expect(bool(lg.allclose(A, B, **kw)) == bool(want.all()), op, f"allclose({nm}, {B.tolist()}, {kw})")
        x = lg.isclose(A.tolist()[0][0], B.tolist()[0][0], **kw)
        expect(bool(x) == bool(want[0, 0]), op, f"isclose({A[0, 0]}, {B[0, 0]}, {kw})")
    elif op == "minmax":
        same(pure(u.minmax, A), out, f"minmax({nm})", op)
        S = A @ A.T
        expect(bool(lg.issymmetric(S.astype(float))), op, f"issymmetric({S.tolist()})")
        if r > 1:
            S = S.astype(float)
            S[0, r - 1] += 1
            expect(not lg.issymmetric(S), op, f"issymmetric({S.tolist()})")
    else:
        raise ValueError(op)


BIG = {"repeat", "tile", "diag", "flatC", "flatF", "clip", "find", "match", "csr", "path", "hist", "bool", "minmax", "mul", "close", "range"}


def large(e, rng):
    """the same call on many shifted and scaled copies: every definition acts on each copy on its own"""
    op, arg, out = e["op"], e["arg"], e["out"]
    r, c = e["in"]["r"], e["in"]["c"]
    K = rng.choice([3, 17, 40, 80])
    s = rng.choice([1, 1, 4, 2**-3, 2.0**20, 2.0**-20])
    o = rng.choice([0, 0, 4096, -513]) * s
    dt = int if s >= 1 and rng.random() < 0.5 else float
    fmap = lambda z: (np.asarray(z, dtype=float) * s + o).astype(dt)
    V = np.array(e["in"]["v"], dtype=float).reshape(r, c)
    A = fmap(V)
    st = np.concatenate([A] * K)                                             # K r x c
    lay = rng.choice([lambda z: z, np.asfortranarray, lambda z: np.repeat(z, 2, axis=0)[::2]])
    nm = f"{K} stacked copies of {A.tolist()} ({A.dtype})"
    if op == "repeat":
        g = pure(u.repeat, lay(A), K)
        same(g, [A] * K, f"repeat({A.tolist()}, {K})", op)
        same(pure(u.repeat1d, st[:, 0].copy(), 3), np.concatenate([st[:, 0]] * 3), f"repeat1d of {nm}", op)
    elif op == "tile":
        D = np.array(arg["da"], dtype=float).reshape(r, c) * s
        D = D.astype(dt)
        same(pure(u.tile, lay(A), lay(D), K), [A + k * D for k in range(K)], f"tile({A.tolist()}, {D.tolist()}, {K})", op, 1e-13)
        same(pure(u.tile1d, st[:, 0].copy(), np.concatenate([D] * K)[:, 0].copy(), 3), np.concatenate([np.concatenate([A + k * D] * K)[:, 0] for k in range(3)]), f"tile1d of {nm}", op, 1e-13)
    elif op == "diag":
        n = min(K, 40)
        g = pure(u.repeat_diagonal_2d, lay(A), n)
        w = np.zeros((r * n, c * n))
        for k in range(n):
            w[k * r:(k + 1) * r, k * c:(k + 1) * c] = A
        same(g, w, f"repeat_diagonal_2d({A.tolist()}, {n})", op)
        expect(g.dtype == A.dtype, op, f"repeat_diagonal_2d of {A.dtype} gives {g.dtype}")
    elif op in ("flatC", "flatF"):
        w = fmap(np.array(out))
        want = np.concatenate([w] * K) if op == "flatC" else np.concatenate([w.reshape(c, r)] * K, axis=1).reshape(-1)
        g = pure(u.flatten2d, lay(st), order=op[-1])
        same(g, want, f"flatten2d({nm}, {op[-1]})", op)
        expect(g.dtype == st.dtype, op, f"flatten2d of {st.dtype} gives {g.dtype}")
    elif op == "clip":
        v = np.concatenate([A.reshape(-1)] * K)
        g = pure(u.clip1d, v, *fmap([arg["lo"], arg["hi"]]).tolist())
        same(g, np.concatenate([fmap(out)] * K), f"clip1d of {nm}", op)
    elif op == "range":
        v = np.concatenate([A.reshape(-1)] * K)
        same(pure(u.to_range_1d, v, source=fmap(arg["s"]).tolist(), target=arg["t"]), np.concatenate([q(out)] * K), f"to_range_1d of {nm}", op, 1e-9 * (1 + 20 * abs(o) / s))
    elif op == "find":
        sp = fmap(arg["space"])
        if dt is int and s * 200 < 1e6:           # copies with values of their own
            d = int(300 * s)
            same(pure(u.find1d, np.concatenate([A.reshape(-1) + k * d for k in range(K)]), np.concatenate([sp + k * d for k in range(K)])),
                 np.concatenate([np.array(out) + k * len(sp) for k in range(K)]), f"find1d of {nm}", op)
        same(pure(u.find2d, lay(st), sp), np.concatenate([np.array(out).reshape(r, c)] * K), f"find2d({nm}, {sp.tolist()})", op)
    elif op == "match":
        B = fmap(np.array(arg["b"]["v"], dtype=float).reshape(arg["b"]["r"], c))
        n, d = len(B), 1000 * s
        want = sorted((i - 1 + k * r, j - 1 + k * n) for k in range(K) for i, j in out)
        X = np.concatenate([A + dt(k * d) for k in range(K)])
        Y = np.concatenate([B + dt(k * d) for k in range(K)])
        g = pure(u.indices_of_equal_rows, lay(X), Y)
        got = sorted(zip(np.asarray(g[0]).tolist(), np.asarray(g[1]).tolist()))
        bad = sorted(set(got) ^ set(want))[:4]
        expect(got == want, op, f"indices_of_equal_rows of {K} copies of {A.tolist()} and {B.tolist()}, each {d} further: {len(got)} pairs, specified {len(want)}, different in {bad}")
    elif op == "csr":
        cn = arg["counts"] * K
        if not any(cn):
            return
        ptr = np.concatenate([[0], np.cumsum(cn)])
        same(pure(u.count_cols_csr, ptr, np.concatenate([np.arange(k) for k in cn]).astype(int)), list(out) * K, f"count_cols_csr of {K} copies of {arg}", op)
        n, w = pure(su.get_shape_sp, ptr)
        expect(n == K * len(out) and w == max(out), op, f"get_shape_sp of {K} copies of {arg} is {n}, {w}")
        same(pure(u.count_cols, st), [c] * (K * r), f"count_cols of {nm}", op)
    elif op == "path":
        n = arg["n"]
        p, z = (np.concatenate([fmap(np.array(arg[k]))] * K) for k in "pq")
        w = q(out).reshape(n, len(arg["p"])) * s + o
        want = np.concatenate([w] * K, axis=1)
        same(pure(lu.vpath, p, z, n), want, f"vpath of {K} copies of {arg}", op, 1e-12)
        same(pure(lu.linspace, p, z, n), want, f"linspace of {K} copies of {arg}", op, 1e-12)
        if n > 1:                                  # a finer division passes through the same points
            m = 12 * (n - 1) + 1
            for f in (lu.vpath, lu.linspace):
                g = pure(f, p, z, m)
                expect(np.shape(g)[0] == m, op, f"{f.__name__} to {m} points has {np.shape(g)}")
                same(g[::12], want, f"every twelfth point of {m}, {f.__name__} of {K} copies of {arg}", op, 1e-12)
                same(g[5], want[0] + (want[1] - want[0]) * 5 / 12, f"the sixth point of {m}, {f.__name__} of {K} copies of {arg}", op, 1e-11)
            g = lu.linspace1d(p[0], z[0], m)
            same(g[::12], want[:, 0], f"linspace1d({p[0]}, {z[0]}, {m})", op, 1e-12)
    elif op == "hist":
        h, bc = pure(histogram, st, fmap(arg["e"]))
        same(h, K * np.array(out["counts"]), f"histogram of {nm} in {fmap(arg['e']).tolist()}", op)
        same(bc, np.array(out["centers2"]) / 2 * s + o, f"centers of the bins {fmap(arg['e']).tolist()}", op, 1e-12)
    elif op == "bool":
        B = np.concatenate([V > 0] * K)
        same(pure(u.bool_to_float, lay(B), float(arg["t"]) * s, float(arg["f"]) * s), np.concatenate([np.array(out).reshape(r, c) * s] * K), f"bool_to_float of {K} copies of {(V > 0).tolist()}", op)
    elif op == "minmax":
        same(pure(u.minmax, lay(st)), fmap(out), f"minmax of {nm}", op)
        same(pure(u.minmax, st.reshape(-1).copy()), fmap(out), f"minmax of {nm}", op)
        st = st.astype(float)
        n = rng.randrange(len(st))
        st[n, rng.randrange(c)] = float(np.max(st)) + 1 * s
        same(u.minmax(st)[1], fmap(out)[1] + s, f"minmax of {nm} with one larger entry", op)
    elif op == "mul":
        k = arg["b"]["c"]
        B, G, S = (np.array(arg[x]["v"], dtype=float).reshape(arg[x]["r"], arg[x]["c"]) for x in "bgs")
        w = float(arg["w"])
        A, st = V * s, np.concatenate([V * s] * K)
        nm = f"{K} stacked copies of {A.tolist()}"
        # stacked rows of the first factor stack the product; stacked along the contraction they add up
        same(pure(lu.matmul, st, B), np.concatenate([np.array(out["ab"]).reshape(r, k) * s] * K), f"matmul of {nm}, {B.tolist()}", op, 1e-12)
        same(pure(lu.matmulw, st, B, w), np.concatenate([np.array(out["wab"]).reshape(r, k) * s] * K), f"matmulw of {nm}, {B.tolist()}", op, 1e-12)
        same(pure(lu.ATB, st, np.concatenate([G] * K)), K * s * np.array(out["atg"]).reshape(c, k), f"ATB of {nm}", op, 1e-12)
        if K < 20:
            S = np.kron(np.eye(K), S)
            same(pure(lu.ATBA, st, S), K * s * s * np.array(out["atsa"]).reshape(c, c), f"ATBA of {nm}", op, 1e-12)
            same(pure(lu.ATBAw, st, S, w), K * s * s * np.array(out["watsa"]).reshape(c, c), f"ATBAw of {nm}", op, 1e-12)
    elif op == "close":
        at, rt = arg["at"], arg["rt"]
        B = np.array(arg["b"], dtype=float).reshape(r, c) * s
        X, Y = np.concatenate([V * s] * K), np.concatenate([B] * K)
        kw = dict(atol=(at / 10 + 1e-9) * s if at else None, rtol=rt / 10 * (1 + 1e-12) + 1e-15 if rt else None)
        want = np.concatenate([np.array(out, dtype=bool).reshape(r, c)] * K)
        same(pure(lg.isclose, lay(X), lay(Y), **kw), want, f"isclose of {K} copies of {(V * s).tolist()} and {B.tolist()}, {kw}", op)
        expect(bool(lg.allclose(X, Y, **kw)) == bool(want.all()), op, f"allclose of {K} copies of {(V * s).tolist()} and {B.tolist()}, {kw}")


def replay(t):
    try:
        rng = random.Random(str(t["log"][0]) + str(len(t["log"])))
        for e in t["log"]:
            step(e, rng)
            if e["op"] in BIG and rng.random() < 0.4:
                large(e, rng)
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail[:2500])
    except Exception:
        return dict(clause="exception", detail=traceback.format_exc()[-1800:])
    return None

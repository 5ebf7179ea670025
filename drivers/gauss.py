"""Gauss rules against spec/Gauss.tla."""
import random, traceback
import numpy as np
from sigmaepsilon.math.numint import gauss_points, gauss_points_1d, gauss_points_2d, gauss_points_3d
from common import Mismatch, expect


def replay(t):
    try:
        rng = random.Random(str(t))
        ax = t["axes"]
        D = len(ax)
        how = rng.random()
        typ = rng.choice([int, np.int64])
        args = [typ(a) for a in ax]
        what = f"gauss_points{tuple(ax)}"
        if how < 0.6:
            r = gauss_points(*args)
        else:
            r = gauss_points_1d(args[0]) if D == 1 else (gauss_points_2d if D == 2 else gauss_points_3d)(rng.choice([tuple, list, np.array])(args))
        if D == 1:
            expect(isinstance(r, np.ndarray) and r.shape == (2, ax[0]), "shape", f"{what}: {np.shape(r)}")
            pos, w = r[0][:, None], r[1]
        else:
            pos, w = r
            expect(pos.shape == (len(t["pts"]), D) and w.shape == (len(t["pts"]),), "shape", f"{what}: {pos.shape} {w.shape}")
        expect(bool(np.all(w > 0)), "weights", f"{what}: weights {w.tolist()}")
        expect(bool(np.all(np.abs(pos) < 1)), "domain", f"{what}: points {pos.tolist()}")
        # the points of an axis by rank, ascending and mirrored
        for k in range(D):
            val = {}
            for p, z in zip(t["pts"], pos):
                val.setdefault(p[k], []).append(z[k])
            lev = []
            for i in range(1, ax[k] + 1):
                expect(len(set(val[i])) == 1, "order", f"{what}: coordinate {k} of the points of rank {i} are {sorted(set(val[i]))}")
                lev.append(val[i][0])
            expect(all(a < b for a, b in zip(lev, lev[1:])), "order", f"{what}: points of axis {k} are {lev}")
            # exactness to degree 2n-1 puts the points at the roots of the Legendre polynomial
            r0 = np.polynomial.legendre.legval(np.array(lev), [0] * ax[k] + [1])
            expect(bool(np.all(np.abs(r0) < 1e-11 * (1 + ax[k]))), "integral", f"{what}: the Legendre polynomial of degree {ax[k]} is {r0.tolist()} at the points {lev} of axis {k}")
            expect(all(abs(a + b) < 1e-12 for a, b in zip(lev, lev[::-1])), "symmetric", f"{what}: points of axis {k} are {lev}")
        expect(len({tuple(z) for z in pos.tolist()}) == len(t["pts"]), "once", f"{what}: a point occurs twice")
        for a in t["log"]:
            want = a["v"][0] / a["v"][1]
            got = float(np.sum(w * np.prod(pos ** np.array(a["e"]), axis=1)))
            expect(abs(got - want) <= 1e-10, "integral", f"{what}: integral of the monomial with exponents {a['e']} is {got}, specified {want}")
        # and orthogonality to all Legendre polynomials up to that degree, where high monomials say little
        for k in range(D):
            m = np.polynomial.legendre.legvander(pos[:, k], 2 * ax[k] - 1)
            s0 = w @ m
            s0[0] -= 2.0 ** D
            expect(bool(np.all(np.abs(s0) < 1e-10)), "integral", f"{what}: the integrals of the Legendre polynomials along axis {k} are off by {s0.tolist()}")
        want = 2.0 ** D
        expect(abs(w.sum() - want) < 1e-10, "integral", f"{what}: weights sum to {w.sum()}")
        # rules are fresh: writing into one does not affect the next
        keep = pos.copy()
        pos += 1.0
        r2 = gauss_points(*args)
        p2 = r2[0][:, None] if D == 1 else r2[0]
        expect(np.array_equal(p2, keep), "fresh", f"{what}: the second rule differs from the first")
        if rng.random() < 0.1:
            try:
                gauss_points(1, 2, 1, 2)
            except NotImplementedError:
                pass
            else:
                raise Mismatch("dimension", "four dimensions were accepted")
    except Mismatch as m:
        return dict(clause=m.clause, detail=m.detail[:2500])
    except Exception:
        return dict(clause="exception", detail=traceback.format_exc()[-1800:])
    return None

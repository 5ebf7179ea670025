"""The named test functions, against spec/NamedFns.tla."""
import numpy as np
from sigmaepsilon.math.function import functions as F
from common import Mismatch, expect, expect_close


def replay(r):
    try:
        mk = getattr(F, r["f"])
        f = mk(r["a"], r["b"]) if r["f"] == "Rosenbrock" else mk()
        want = r["n"] / r["d"]
        expect_close(float(f([float(v) for v in r["x"]])), want, "named-value", f"{r['f']} at {r['x']}")
        opt = f.optimums
        expect(len(opt) == r["nmin"], "named-optimums", f"{r['f']}: {len(opt)} optimums")
        pts = np.array(opt, dtype=float)
        for i in range(len(pts)):
            expect(all(np.linalg.norm(pts[i] - pts[j]) > 1e-3 for j in range(i)), "named-optimums", f"{r['f']}: the same point twice")
            expect(abs(float(f(pts[i])) - r["min"]) < 1e-6, "named-optimums", f"{r['f']}: value {float(f(pts[i]))} at the optimum {pts[i].tolist()}")
    except Mismatch as e:
        return dict(clause=e.clause, detail=e.detail)
    except Exception as e:
        return dict(clause="error", detail=f"{type(e).__name__}: {e}")

import numpy as np

TOL = 1e-7


def q(a, shape=None):
    """array of the specification -> floats"""
    r = np.array(a["n"], dtype=float) / a["d"]
    return r if shape is None else r.reshape(shape)


def s(p):
    return p[0] / p[1]


class Mismatch(Exception):
    def __init__(self, clause, detail):
        super().__init__(clause, detail)
        self.clause, self.detail = clause, detail


def close(got, want, tol=TOL):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    return bool(np.all(np.abs(got - want) <= tol * (1.0 + np.abs(want))))


def expect(cond, clause, detail):
    if not cond:
        raise Mismatch(clause, detail() if callable(detail) else detail)


def expect_close(got, want, clause, what, tol=TOL):
    if not close(got, want, tol):
        raise Mismatch(clause, f"{what}: got {np.asarray(got).tolist()}, specified {np.asarray(want).tolist()}")

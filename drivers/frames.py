"""Replays behaviours of spec/Frames.tla into the real frame and tensor classes and compares the
complete projected state after every call."""
import copy, gc
import numpy as np
import sympy as sy
from sigmaepsilon.math.linalg import (ReferenceFrame, RectangularFrame, CartesianFrame, Vector, Tensor, Tensor2,
                                      Tensor2x3, Tensor4, Tensor4x3, dot, cross)
from common import q, s, Mismatch, expect, expect_close, close

FC = dict(ref=ReferenceFrame, rec=RectangularFrame, car=CartesianFrame)
TC = dict(V=Vector, T2=Tensor2, T2x3=Tensor2x3, T3=Tensor, T4=Tensor4, T4x3=Tensor4x3)
UF = dict(mul=np.multiply, div=np.divide, add=np.add, sub=np.subtract, matmul=np.matmul, neg=np.negative)


def pynum(p, as_float=False):
    if p[1] == 1 and not as_float:
        return int(p[0])
    return p[0] / p[1]


ANGLES = [k * np.pi / 2 for k in range(4)] + [np.arctan2(4, 3), -np.arctan2(4, 3), -np.pi / 2, 5 * np.pi / 2, np.arctan2(4, 3) + 2 * np.pi]


def rotargs(r):
    if r["how"] in ("Space", "Body"):
        o = "".join(("XYZ" if sum(r["q"]) % 3 else "123")[i - 1] for i in r["o"])
        return r["how"], [ANGLES[k] for k in r["q"]], int(o) if sum(r["q"]) == 6 else o
    if r["how"] == "DCM":
        return "DCM", sy.Matrix(3, 3, [sy.Rational(n, r["m"]["d"]) for n in r["m"]["n"]])
    n = sum(a * a for a in r["q"]) ** 0.5
    return "Quaternion", [a / n for a in r["q"]]


class Beyond(Exception):
    """the rest of a behaviour has no meaning with the chosen units of length"""


class World:
    """unit: the unit of length the axes of (not Cartesian) frames are given in. A frame whose axes are X in the specification is
    U[f] * X here, and the components of a tensor of order r are divided by U[f] ** r; ambient components are the same."""

    def __init__(self, dim, unit=1.0):
        self.dim = dim
        self.F, self.T = {}, {}
        self.unit, self.U = unit, {}

    def tshape(self, rec):
        sh = (self.dim,) * rec["r"]
        return (rec["it"],) + sh if rec["it"] else sh

    def uc(self, cls):
        return 1.0 if cls == "car" else self.unit

    def setu(self, f, u):
        if not 1e-20 < u < 1e20:
            raise Beyond
        self.U[f] = u

    def mktensor(self, rec, frame, u):
        arr = q(rec["c"], self.tshape(rec)) / u ** rec["r"]
        kw = {}
        if rec["it"] and rec["kind"] in ("T2", "T4"):
            kw["bulk"] = True
        if frame is not None:
            kw["frame"] = frame
        return TC[rec["kind"]](arr, **kw)

    def init(self, st):
        for i, f in enumerate(st["fr"], 1):
            if f["live"]:
                self.U[i] = self.uc(f["cls"])
                self.F[i] = FC[f["cls"]](q(f["ax"], (self.dim, self.dim)) * self.U[i])
        for i, t in enumerate(st["ts"], 1):
            if t["live"]:
                self.T[i] = self.mktensor(t, self.F[t["f"]], self.U[t["f"]])

    # ------------------------------------------------------------------ calls
    def step(self, e, post):
        d = self.dim
        mat = lambda a: q(a, (d, d))
        a = e["a"]
        F, T, U = self.F, self.T, self.U
        rec = lambda i: post["ts"][i - 1]
        u = U[e["f"]] if "f" in e else 1.0
        if "t" in e:     # frame of the tensor before the call
            tf = self.tf[e["t"]]
            ut = U[tf]

        if a == "SetAxes":
            X = mat(e["x"]) * u
            via = e["via"] if u == 1 or e["via"] != "int" else "axes"
            f = F[e["f"]]
            if via == "axes":
                Y = X.copy()
                f.axes = Y
                Y += 7.0 * u   # the frame must not share memory with the caller's array
            elif via == "list":
                f.axes = X.tolist()
            elif via == "nonc":
                f.axes = np.ascontiguousarray(X.T).T
            elif via == "int":
                f.axes = np.array(X, dtype=int)
            elif via == "slice":
                f[:] = X
            else:
                f[...] = X
        elif a == "SetRow":
            f = F[e["f"]]
            w = q(e["w"]) * u
            if e["via"] == "row":
                f[e["i"]] = w
            else:
                f[e["i"], e["j"]] = w[e["j"]]
        elif a == "ChopF":
            expect(F[e["f"]].chop(e["l"][0] / e["l"][1] * u) is F[e["f"]], "identity", "chop did not return the object")
        elif a == "ChopT":
            expect(T[e["t"]].chop(tol=e["l"][0] / e["l"][1] / ut ** T[e["t"]].rank) is T[e["t"]], "identity", "chop did not return the object")
        elif a == "FMetric":
            t = T[e["new"]] = F[e["f"]].metric_tensor()
            # the components are given in the base itself: scale them so that the ambient tensor is the one of the specification
            if u != 1:
                t *= u ** -4
        elif a == "BadAxes":
            f, how = F[e["f"]], e["how"]
            if how == "shape":
                f.axes = np.eye(d + 1)
            elif how == "scalar":
                f.axes = 5.0
            elif how == "string":
                f.axes = "abc"
            elif how == "zero":
                f.axes = np.zeros((d, d))
            elif how == "zerorow":
                f[0] = np.zeros(d)
            else:
                f *= 0
        elif a in ("IOpS", "IOpM", "IPow"):
            f = F[e["f"]]
            old = f
            if a == "IPow":
                f **= e["k"]
                u = u ** e["k"]
            else:
                x = pynum(e["s"], e["np"] == "float") if a == "IOpS" else mat(e["x"])
                op = e["op"]
                if op in ("add", "sub") and u != 1:
                    x = x * u
                if op == "mul":
                    f *= x
                elif op == "div":
                    f /= x
                elif op == "add":
                    f += x
                elif op == "sub":
                    f -= x
                else:
                    f @= x
            if e["new"]:
                expect(f is not old, "cast", "class-changing in-place operation returned the old object")
                F[e["new"]] = f
                self.setu(e["new"], u)
            else:
                self.setu(e["f"], u)
                expect(f is old, "identity", f"{a} {e.get('op')} returned another object of class {type(f).__name__}")
        elif a == "UOut":
            f = F[e["f"]]
            if e["op"] == "neg":
                np.negative(f, out=f)
            else:
                UF[e["op"]](f, mat(e["x"]) * (u if e["op"] in ("add", "sub") else 1), out=f)
        elif a == "UOutF":
            f = F[e["f"]]
            u = self.upair(e["op"], e["f"], e["g"])
            UF[e["op"]](f, F[e["g"]], out=f)
            self.setu(e["f"], u)
        elif a == "UOut2":
            g, f, u = F[e["f"]], F[e["src"]], U[e["src"]]
            if e["op"] == "neg":
                np.negative(f, out=g)
            else:
                UF[e["op"]](f, mat(e["x"]) * (u if e["op"] in ("add", "sub") else 1), out=g)
            self.setu(e["f"], u)
        elif a == "UOutW":
            f = F[e["f"]]
            mask = np.ones((d, d), dtype=bool)
            mask[e["i"]] = False
            UF[e["op"]](f, mat(e["x"]) * (u if e["op"] in ("add", "sub") else 1), out=f, where=mask)
        elif a == "UAt":
            at = np.zeros((d, d), dtype=bool)
            at[e["i"], e["j"]] = True
            UF[e["op"]].at(F[e["f"]], at if e["j"] >= 0 else e["i"], pynum(e["s"]) * (u if e["op"] in ("add", "sub") else 1))
        elif a == "Orient":
            f = F[e["f"]]
            r = getattr(f, e["via"])(*rotargs(e["rot"]))
            expect(r is f, "identity", "orient did not return the object itself")
        elif a == "TransposeF":
            f = F[e["f"]]
            r = f.transpose(inplace=True)
            expect(r is f, "identity", "transpose(inplace=True) did not return the object itself")
        elif a == "NewFrame":
            X = mat(e["x"]) * self.uc(e["cls"])
            if e["via"] == "list":
                X = X.tolist()
            elif e["via"] == "nonc":
                X = np.ascontiguousarray(X.T).T
            f = FC[e["cls"]](X)
            if isinstance(X, np.ndarray):
                X += 3.0
            F[e["new"]] = f
            self.setu(e["new"], self.uc(e["cls"]))
        elif a == "NewEye":
            C = FC[e["cls"]]
            F[e["new"]] = {"dim": lambda: C(dim=d), "dim1": lambda: C(dim=(d,)), "eye": lambda: C.eye(dim=d), "eyearg": lambda: C.eye(d)}[e["via"]]()
            self.setu(e["new"], 1.0)
        elif a == "NewNormal":
            F[e["new"]] = CartesianFrame(mat(e["x"]) * self.unit, normalize=True) if "new" in e else None
            self.setu(e["new"], 1.0)
        elif a == "DropFrame":
            del F[e["f"]]
        elif a == "MkTensor":
            T[e["new"]] = self.mktensor(rec(e["new"]), F[e["f"]], u)
        elif a == "MkDefault":
            t = T[e["new"]] = self.mktensor(rec(e["new"]), None, 1.0)
            F[e["newf"]] = t.frame
            self.setu(e["newf"], 1.0)
        elif a == "DropTensor":
            del T[e["t"]]
        elif a == "SetFrame":
            T[e["t"]].frame = F[e["g"]]
        elif a == "SetFrameArr":
            T[e["t"]].frame = mat(e["x"]) * self.unit
            F[e["new"]] = T[e["t"]].frame
            self.setu(e["new"], self.unit)
        elif a == "SetFrameBad":
            t, how = T[e["t"]], e["how"]
            t.frame = {"number": 3.0, "list": [1, 2], "zero": np.zeros((d, d))}[how]
        elif a == "TScaleI":
            t = T[e["t"]]
            o = t
            if e["op"] == "mul":
                t *= pynum(e["s"])
            else:
                t /= pynum(e["s"])
            expect(t is o, "identity", "in-place scaling returned another object")
        elif a == "TAddI":
            t = T[e["t"]]
            o = t
            if e["op"] == "add":
                t += T[e["u"]]
            else:
                t -= T[e["u"]]
            expect(t is o, "identity", "in-place addition returned another object")
        elif a == "TNumI":
            t = T[e["t"]]
            x = pynum(e["s"]) if ut == 1 else pynum(e["s"]) / ut ** t.rank
            if e["op"] == "add":
                t += x
            else:
                t -= x
        elif a == "SetArray":
            t = T[e["t"]]
            X = q(e["x"], self.tshape(rec(e["t"]))) / ut ** t.rank
            if e["via"] == "array":
                t.array = X
            else:
                t[...] = X
            X += 11.0 / ut ** t.rank
        elif a == "TransposeT":
            t = T[e["t"]]
            expect(t.transpose(inplace=True) is t, "identity", "transpose(inplace=True) did not return the object")
        elif a == "OrientT":
            t = T[e["t"]]
            ra = rotargs(e["rot"])
            kw = {}
            if e["via"] == "dcm":
                ra, kw = (), dict(dcm=ReferenceFrame(dim=3).orient_new(*ra).dcm())
            expect(t.orient(*ra, **kw) is t, "identity", "orient did not return the object")
        elif a == "TBad":
            t, how = T[e["t"]], e["how"]
            if how == "addnum":
                t + 1
            elif how == "rmul":
                2 * t
            elif how == "matmul":
                t @ t
            elif how == "imatmul":
                t @= t
            elif how == "pow":
                t ** 2
            elif how == "ipow":
                t **= 2
            elif how == "mulself":
                t * t
            elif how == "imularr":
                t *= np.ones(t.array.shape)
            elif how == "ufunc":
                np.sqrt(t)
            elif how == "badarray":
                t.array = np.zeros(np.array(t.array.shape) + 1)
            elif how == "divarr":
                t / np.ones(3)
            else:
                np.negative(t, out=t)
        elif a == "TAdd":
            t, u = T[e["t"]], T[e["u"]]
            r = t + u if e["op"] == "add" else t - u
            self.result(e, r, ut)
        elif a == "TScale":
            t = T[e["t"]]
            r = -t if e["op"] == "neg" else (t * pynum(e["s"]) if e["op"] == "mul" else t / pynum(e["s"]))
            self.result(e, r)
        elif a == "TDual":
            self.result(e, T[e["t"]].dual(), 1 / ut)
        elif a == "TTransNew":
            t = T[e["t"]]
            self.result(e, t.T if e["via"] == "T" else t.transpose(), ut)
        elif a == "TCopy":
            t, via = T[e["t"]], e["via"]
            r = {"copy": lambda: t.copy(), "deep": lambda: t.copy(deep=True), "deepcopy": lambda: t.deepcopy(),
                 "scopy": lambda: copy.copy(t), "dcopy": lambda: copy.deepcopy(t)}[via]()
            self.result(e, r, ut)
        elif a == "OrientNewT":
            self.result(e, T[e["t"]].orient_new(*rotargs(e["rot"])))
        elif a == "Dot":
            kw = {}
            t, u = T[e["t"]], T[e["u"]]
            if e["g"]:
                kw["frame"] = F[e["g"]]
            gen = not (t.rank <= 2 and u.rank <= 2)
            if gen:
                kw["axes"] = (e["i"], e["j"])
            r = dot(t, u, **kw)
            if e["new"]:
                self.result(e, r)
            else:
                expect_close(r, q(e["out"])[0], "dot", "scalar product")
                if not kw:
                    expect_close(np.dot(t, u), q(e["out"])[0], "dot", "numpy.dot of tensors")
        elif a == "Cross":
            kw = {}
            if e["g"]:
                kw["frame"] = F[e["g"]]
            self.result(e, cross(T[e["t"]], T[e["u"]], **kw))
        elif a == "FCopy":
            f, via = F[e["f"]], e["via"]
            F[e["new"]] = {"copy": lambda: f.copy(), "deep": lambda: f.copy(deep=True), "deepcopy": lambda: f.deepcopy(),
                           "scopy": lambda: copy.copy(f), "dcopy": lambda: copy.deepcopy(f), "new": lambda: type(f)(f.axes),
                           "orient_new": lambda: f.orient_new()}[via]()
            self.setu(e["new"], u)
            self.fresh(e["new"])
        elif a == "FOpS":
            f, op, x = F[e["f"]], e["op"], pynum(e["s"])
            if op in ("add", "sub", "radd", "rsub") and u != 1:
                x = x * u
            self.setu(e["new"], u * u if op == "pow" else u)
            F[e["new"] or 0] = {"mul": lambda: f * x, "div": lambda: f / x, "add": lambda: f + x, "sub": lambda: f - x,
                                "rmul": lambda: x * f, "neg": lambda: -f, "radd": lambda: x + f, "rsub": lambda: x - f, "pow": lambda: f ** 2, "abs": lambda: abs(f)}[op]()
            self.fresh(e["new"])
        elif a == "FOpM":
            f, op, x = F[e["f"]], e["op"], mat(e["x"]) * (u if e["op"] in ("add", "sub", "rsub") else 1)
            self.setu(e["new"], u)
            F[e["new"]] = {"rmul": lambda: x * f, "rsub": lambda: x - f, "rmatmul": lambda: x @ f, "mul": lambda: f * x, "add": lambda: f + x, "sub": lambda: f - x, "matmul": lambda: f @ x}[op]()
            self.fresh(e["new"])
        elif a == "FOpF":
            f, g, op = F[e["f"]], F[e["g"]], e["op"]
            self.setu(e["new"], self.upair(op, e["f"], e["g"]))
            F[e["new"]] = {"add": lambda: f + g, "sub": lambda: f - g, "matmul": lambda: f @ g}[op]()
            self.fresh(e["new"])
        elif a == "FOrientNew":
            f, via = F[e["f"]], e["via"]
            ra = rotargs(e["rot"])
            self.setu(e["new"], u)
            F[e["new"]] = f.rotate(*ra, inplace=False) if via == "rotate" else getattr(f, via)(*ra)
            self.fresh(e["new"])
        elif a == "FTrans":
            f = F[e["f"]]
            r = f.T if e["via"] == "T" else f.transpose()
            F[e["new"]] = r
            self.setu(e["new"], u)
            self.fresh(e["new"])
        elif a == "FDual":
            self.setu(e["new"], 1 / u)
            F[e["new"]] = F[e["f"]].dual()
            self.fresh(e["new"])
        elif a == "ShowT":
            t = T[e["t"]]
            g = F[e["g"]] if e["g"] else ReferenceFrame(dim=d)
            r = t.show(dcm=t.frame.dcm(target=g)) if e["via"] == "dcm" else t.show(g) if e["g"] else t.show()
            expect_close(r * (U[e["g"]] if e["g"] else 1) ** t.rank, q(e["out"], self.tshape(rec(e["t"]))), "show", "components shown in a frame")
            try:
                r[...] = -77.0      # a shown array is the caller's
            except ValueError:
                pass
        elif a == "ObsClose":
            t, o = T[e["t"]], T[e["u"]]
            want = np.array(e["out"]).reshape(self.tshape(rec(e["t"])))
            expect(bool(np.allclose(t, o)) == bool(want.all()), "equality", f"numpy.allclose of two tensors is {np.allclose(t, o)}")
            expect(np.array_equal(np.isclose(t, o), want), "equality", "numpy.isclose of two tensors")
        elif a == "ObsDcm":
            f, g = F[e["f"]], F[e["g"]]
            want, c = mat(e["out"]), U[e["g"]] / U[e["f"]]
            expect_close(f.dcm(target=g) * c, want, "dcm", "dcm(target=)")
            expect_close(g.dcm(source=f) * c, want, "dcm", "dcm(source=)")
            expect_close(f.show(g) * c, want.T, "show-frame", "components of a frame in another one")
        else:
            raise RuntimeError("unknown event " + a)

    def fresh(self, i):
        for k, g in self.F.items():
            if k != i:
                expect(g is not self.F[i], "identity", "an out-of-place frame operation returned an existing frame")

    def upair(self, op, f, g):
        if op in ("mul", "matmul"):
            return self.U[f] * self.U[g]
        if self.U[f] != self.U[g]:
            raise Beyond
        return self.U[f]

    def result(self, e, r, u=1.0):
        for t in self.T.values():
            expect(r is not t, "identity", f"{e['a']} returned an existing object")
        self.T[e["new"]] = r
        if e["newf"]:
            for k, g in self.F.items():
                expect(g is not r.frame, "identity", f"the result of {e['a']} uses existing frame object {k}, a frame of its own is specified")
            self.F[e["newf"]] = r.frame
            self.setu(e["newf"], u)

    # ------------------------------------------------------------- projection
    def compare(self, post):
        d = self.dim
        self.tf = {i: t["f"] for i, t in enumerate(post["ts"], 1) if t["live"]}
        for i, f in enumerate(post["fr"], 1):
            if not f["live"]:
                continue
            g, u = self.F[i], self.U[i]
            expect(type(g) is FC[f["cls"]], "frame-class", f"frame {i} is a {type(g).__name__}, specified {FC[f['cls']].__name__}")
            ax = q(f["ax"], (d, d))
            expect_close(g.axes / u, ax, "axes", f"axes of frame {i} (in units of {u})")
            expect_close(g.show() / u, ax, "axes", f"show() of frame {i}")
            expect_close(np.asarray(g[:]) / u, ax, "axes", f"items of frame {i}")
            expect_close(g.max() / u, ax.max(), "axes", f"max() of frame {i}")
            if "gram" in f:
                gram = q(f["gram"], (d, d))
                cart = f["cart"] if u == 1 else close(gram * u * u, np.eye(d))
                expect(bool(g.is_rectangular) == f["rect"], "is_rectangular", f"frame {i} with axes {g.axes.tolist()}: {g.is_rectangular}, specified {f['rect']}")
                expect(bool(g.is_cartesian) == cart, "is_cartesian", f"frame {i} with axes {g.axes.tolist()}: {g.is_cartesian}, specified {cart}")
                expect(bool(g.is_independent), "is_independent", f"frame {i} claims to be dependent")
                expect_close(g.Gram() / u ** 2, gram, "Gram", f"Gram matrix of frame {i}")
                expect_close(g.dual().axes * u, q(f["dual"], (d, d)), "dual", f"dual of frame {i}")
                expect_close(g.volume() / u ** d, s(f["vol"]), "volume", f"volume of frame {i}")
        for i, t in enumerate(post["ts"], 1):
            if not t["live"]:
                continue
            o, u = self.T[i], self.U[t["f"]] ** t["r"]
            if t["kind"] != "T":
                expect(type(o) is TC[t["kind"]], "tensor-class", f"tensor {i} is a {type(o).__name__}, specified {t['kind']}")
            sh = self.tshape(t)
            expect(o.rank == t["r"], "rank", f"tensor {i} has rank {o.rank}, specified {t['r']}")
            expect(bool(o.is_bulk()) == (t["it"] > 0), "is_bulk", f"tensor {i}: is_bulk() is {o.is_bulk()!r}")
            expect(o.frame is self.F[t["f"]], "tensor-frame", f"tensor {i} is not expressed in frame object {t['f']}")
            expect_close(o.array * u, q(t["c"], sh), "components", f"components of tensor {i} ({t['kind']}, frame {t['f']}, in units of {self.U[t['f']]})")
            expect_close(o.show(), q(t["amb"], sh), "objectivity", f"ambient components of tensor {i} ({t['kind']}, frame {t['f']})")
            expect_close(np.asarray(o[...]) * u, q(t["c"], sh), "components", f"items of tensor {i}")
            expect_close(o.max() * u, q(t["c"]).max(), "components", f"max() of tensor {i}")


def replay(tr):
    w = World(tr["dim"], tr.get("unit", 1.0))
    w.init(tr["init"])
    k = -1
    try:
        w.compare(tr["init"])
        for k, st in enumerate(tr["log"]):
            e = st["e"]
            if e["ok"]:
                try:
                    w.step(e, st)
                except Mismatch:
                    raise
                except Beyond:
                    return None
                except Exception as ex:
                    raise Mismatch("error", f"{type(ex).__name__}: {ex}")
            else:
                try:
                    w.step(e, st)
                except Beyond:
                    return None
                except Exception:
                    pass
                else:
                    raise Mismatch("accepted", "the call was accepted, an error is specified")
            w.compare(st)
    except Mismatch as m:
        return dict(clause=m.clause, detail=f"step {k + 1}: {tr['log'][k]['e'] if k >= 0 else 'init'} -> {m.detail}")
    return None

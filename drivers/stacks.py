"""Replays behaviours of spec/Stacks.tla."""
import copy
import numpy as np
import sympy as sy
from sigmaepsilon.math.linalg import ReferenceFrame, Vector, Tensor2, Tensor2x3, Tensor4, Tensor4x3
from common import q, s, Mismatch, expect, expect_close
from frames import pynum

TC = dict(V=Vector, T2=Tensor2, T2x3=Tensor2x3, T4=Tensor4, T4x3=Tensor4x3)


REP = 1     # number of concrete leading items that stand for one leading item of the specification


def axes(ax, d, multi):
    a = np.stack([q(x, (d, d)) for x in ax])
    return np.repeat(a, REP, axis=0) if multi else a[0]


def stack(c, lead, d, r):
    return np.repeat(np.stack([q(x, (d,) * r) for x in c]).reshape(tuple(lead) + (d,) * r), REP, axis=0)


def make(o, d, ax, c):
    kw = {}
    if o["kind"] in ("T2", "T4"):
        kw["bulk"] = True
    return TC[o["kind"]](stack(c, o["lead"], d, o["r"]), frame=ReferenceFrame(axes(ax, d, len(ax) > 1 or o["multi"])), **kw)


def rot(m):
    # the 'DCM' way of giving a rotation takes the transpose of the components of the rotated base
    return "DCM", sy.Matrix(3, 3, [sy.Rational(n, m["d"]) for n in m["n"]]).T


def compare(t, o, d, what):
    sh = lambda c: stack(c, o["lead"], d, o["r"])
    expect(type(t) is TC[o["kind"]], "class", f"{what}: {type(t).__name__}")
    expect(t.rank == o["r"], "rank", f"{what}: rank {t.rank}")
    expect(t.is_bulk() is True, "is_bulk", f"{what}: is_bulk() is {t.is_bulk()!r}")
    expect_close(t.array, sh(o["c"]), "components", what)
    expect_close(t.show(), sh(o["amb"]), "ambient", what)
    ax = np.asarray(t.frame.axes)
    want = axes(o["ax"], d, ax.ndim == 3)
    expect(ax.ndim == (2 if len(o["ax"]) == 1 and not o["multi"] else 3), "frame-shape", f"{what}: axes of shape {ax.shape}")
    expect_close(ax, want, "axes", what)
    # a member shown alone, in a frame of its own
    idx = (o["lead"][0] * REP - 1,) + tuple(n - 1 for n in o["lead"][1:])
    single = TC[o["kind"]](np.array(t.array[idx]), frame=ReferenceFrame(np.array(ax[idx[0]] if ax.ndim == 3 else ax)))
    expect(single.is_bulk() is False, "is_bulk", f"a single {o['kind']} claims to be a stack: {single.is_bulk()!r}")
    expect_close(single.show(), sh(o["amb"])[idx], "member", what)


def replay(tr):
    global REP
    d, REP = tr["dim"], tr.get("rep", 1)
    t, prev, pobj = None, None, None
    k = 0
    try:
        for k, st in enumerate(tr["log"]):
            e, o = st["e"], st["obj"]
            a = e["a"]
            multi = lambda ax: len(ax) > 1
            prev, pobj = None, None
            old = t
            try:
                if a == "Create":
                    t = make(o, d, o["ax"], o["c"])
                elif a == "Show":
                    X = e["x"]
                    got = t.show(ReferenceFrame(axes(X, d, multi(X))))
                    expect_close(got, stack(e["out"], o["lead"], d, o["r"]), "show", "components shown in a frame")
                elif a == "Geom":
                    f, X = t.frame, ReferenceFrame(axes(e["x"], d, multi(e["x"])))
                    expect_close(f.Gram(), axes(e["gram"], d, o["multi"]), "Gram", "Gram matrices of the frame(s) of a stack")
                    expect_close(f.dual().axes, axes(e["dual"], d, o["multi"]), "dual", "dual frame(s)")
                    vol = np.array([s(v) for v in e["vol"]])
                    expect_close(f.volume(), np.repeat(vol, REP) if o["multi"] else vol[0], "volume", "volume of the frame(s)")
                    expect(bool(np.all(f.is_independent)), "is_independent", "independent frame(s) claim to be dependent")
                    want = axes(e["dcm"], d, o["multi"] or multi(e["x"]))
                    expect_close(f.dcm(target=X), want, "dcm", "dcm(target=) of the frame(s)")
                    expect_close(X.dcm(source=f), want, "dcm", "dcm(source=) of the frame(s)")
                    expect_close(f.show(X), np.swapaxes(want, -1, -2), "show-frame", "frame(s) of a stack shown in another frame")
                elif a == "ShowAmb":
                    expect_close(t.show(), stack(e["out"], o["lead"], d, o["r"]), "show", "ambient components shown")
                elif a == "SetFrame":
                    X = axes(e["x"], d, o["multi"])
                    t.frame = X if e["via"] == "array" else ReferenceFrame(X)
                elif a == "SetAxes":
                    t.frame.axes = axes(e["x"], d, o["multi"])
                elif a == "IScale":
                    f = t.frame
                    if e["op"] == "mul":
                        f *= pynum(e["s"])
                    else:
                        f /= pynum(e["s"])
                elif a == "IMat":
                    f = t.frame
                    y = q(e["y"], (d, d))
                    if e["op"] == "add":
                        f += y
                    else:
                        f @= y
                elif a == "OrientF":
                    t.frame.orient(*rot(e["m"]))
                elif a == "TransposeF":
                    t.frame.transpose(inplace=True)
                elif a == "TransposeT":
                    if e["via"] == "inplace":
                        t.transpose(inplace=True)
                    else:
                        prev, t = t, t.T
                elif a == "Scale":
                    x, via = pynum(e["s"]), e["via"]
                    if via == "imul":
                        t *= x
                    elif via == "itruediv":
                        t /= x
                    else:
                        prev = t
                        t = {"mul": lambda: t * x, "truediv": lambda: t / x, "neg": lambda: -t}[via]()
                elif a == "Add":
                    o2 = dict(o)
                    o2["multi"] = multi(e["x"])
                    u = make(o2, d, e["x"], e["d"])
                    via = e["via"]
                    if via == "iadd":
                        t += u
                    elif via == "isub":
                        t -= u
                    else:
                        prev = t
                        t = t + u if via == "add" else t - u
                    expect_close(u.array, stack(e["d"], o["lead"], d, o["r"]), "operand", "second operand changed")
                elif a == "ToDual":
                    prev, t = t, t.dual()
                elif a == "OrientT":
                    if e["via"] == "orient":
                        t.orient(*rot(e["m"]))
                    else:
                        prev, t = t, t.orient_new(*rot(e["m"]))
                elif a == "Copy":
                    prev = t
                    t = {"copy": t.copy, "deepcopy": t.deepcopy, "scopy": lambda: copy.copy(prev), "dcopy": lambda: copy.deepcopy(prev)}[e["via"]]()
                elif a == "SetItem":
                    i = np.unravel_index(e["i"] - 1, tuple(o["lead"]))
                    i = tuple(int(x) for x in i)
                    t[i if REP == 1 else (slice(i[0] * REP, (i[0] + 1) * REP),) + i[1:]] = q(e["x"], (d,) * o["r"])
                else:
                    raise RuntimeError(a)
            except Mismatch:
                raise
            except Exception as ex:
                raise Mismatch("error", f"{type(ex).__name__}: {ex}")
            compare(t, o, d, f"stack after {a}")
            if prev is not None:
                compare(prev, tr["log"][k - 1]["obj"], d, f"operand after {a}")
    except Mismatch as m:
        o = tr["log"][k]["obj"]
        return dict(clause=m.clause, detail=f"step {k + 1}: {tr['log'][k]['e']} on {o['kind']} {o['lead']} -> {m.detail}")
    return None

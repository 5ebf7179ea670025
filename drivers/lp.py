"""Replays behaviours of spec/LP.tla into LinearProgrammingProblem."""
import operator
import random
import numpy as np
import sympy as sy
from sigmaepsilon.math.function import Function, Relation, Equality, InEquality
from sigmaepsilon.math.function.relation import Relations
from sigmaepsilon.math.optimize import LinearProgrammingProblem as LPP
from common import Mismatch, expect

NAMES = [("x1", "x2", "x3"), ("x", "y", "z"), ("b", "a", "c"), ("x2", "x11", "x1"), ("E", "I", "N")]
NAMES = [a + b for a, b in zip(NAMES, [("x4", "x5", "x6"), ("u", "v", "w"), ("d", "f", "e"), ("x10", "x3", "x12"), ("beta", "S", "Q")])]
OPF = {"=": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FLIP = {"=": "=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
PERMS = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}
for _n in (4, 5, 6):
    PERMS[_n] = [random.Random(_k).sample(range(_n), _n) for _k in range(6)]
TOL = 1e-6
# positive and negative factors a constraint or objective is written with (codes of the specification)
MUL = {11: 0.5, 12: 0.1, 13: -250, 14: sy.Rational(1, 3), 15: sy.sqrt(2), 16: -sy.pi}
OBJ = [1, 1, 100, 0.01, 0.5, sy.Rational(2, 3), sy.sqrt(3)]


# units the continuous variables are measured in
UNITS = [6 * (1,), (1, 10000, 1, 1, 10000, 1), 6 * (1,), (10000, 1, 500, 10000, 1, 1), (2000, 2000, 2000, 1, 1, 1), 6 * (1,), (1, 1, 3000000, 1, 1, 1)]


def mult(q):
    return MUL.get(q["mul"], q["mul"])


def omult(o):
    return OBJ[o.get("mul", 0)]


def terms(names, a):
    return [f"{c}*{n}" if c != 1 else n for c, n in zip(a, names) if c != 0]


def join(ts):
    return " + ".join(t if not t.startswith("-") else f"({t})" for t in ts) if ts else "0"


def varlist(vs, syms, a):
    used = [s for s, c in zip(syms, a) if c != 0]
    if vs == "used" and used:
        return used
    return list(syms) if vs == "all" else list(syms)[::-1]


def inunits(m, a, U):
    """m * a with the variables measured in other units"""
    return [m * x if u == 1 or x == 0 else m * sy.Rational(x, u) for x, u in zip(a, U)]


def objective(o, syms, names, U):
    m = omult(o)
    c, k = inunits(m, o["c"], U), m * o["k"]
    v = varlist(o["vs"] if any(c) else "all", syms, c)
    if o["form"] == "text":
        return Function(join(terms(names, c) + ([str(k)] if k else [])), variables=v)
    expr = sum(ci * s for ci, s in zip(c, syms)) + k
    return Function(expr if o["form"] == "expr" else 2 * (expr + 1) / 2 - 1, variables=v)


def constraint(o, syms, names, U):
    m = mult(o)
    a, op, b = inunits(m, o["row"], U), o["op"], m * o["b"]
    if m < 0:
        op = FLIP[op]
    v = varlist(o["vs"], syms, a)
    if o["form"] == "text":
        left, right = [], []
        for i, (c, n) in enumerate(zip(a, names)):
            if c:
                (right if (o["sides"] >> i % 3) & 1 else left).extend(terms([n], [-c if (o["sides"] >> i % 3) & 1 else c]))
        if o["sides"] & 8:
            left.append(str(-b))
        else:
            right.append(str(b))
        return Relation(f"{join(left)} {op} {join(right)}", variables=v)
    expr = sum(c * s for c, s in zip(a, syms)) - b
    if o["form"] == "expr":
        return Relation(expr, op=op, variables=v)
    if o["form"] == "enum":
        return Relation(expr, operator=Relations(op), variables=v)
    if o["form"] == "opstr":
        return Relation(expr, op_str=op, variables=v)
    if o["form"] == "callable":
        return Relation(expr, op=OPF[op], op_str=op, variables=v)
    return (Equality if op == "=" else InEquality)(expr, op=op, variables=v)


def unreliable(e, st, n):
    """does scipy itself, called directly on the stated problem, miss the specified outcome in some arrangement of it?"""
    from scipy.optimize import linprog
    o = e["out"]
    c = np.array(st["obj"]["c"], dtype=float) * (-1 if e["max"] else 1)
    bnd = [(None if l == 99 else l, None if h == 99 else h) for l, h in zip(st["lo"], st["hi"])]
    bnd0 = bnd
    un = np.array([1 if i else u for i, u in zip(e["int"], st["units"])], dtype=float)
    for scaled, un in ((True, un), (True, np.ones(n)), (False, np.ones(n))):
        co = (c * float(omult(st["obj"])) if scaled else c) / un
        bnd = [tuple(None if x is None else x * u for x in b) for b, u in zip(bnd0, un)]
        for strict in (True, False):
            A, b, Ae, be = [], [], [], []
            for q in st["cons"]:
                f = float(mult(q))
                m = abs(f) if scaled else 1
                r = np.array(q["row"], dtype=float) * m / un
                if q["op"] == "=":
                    g = f / m if scaled else 1
                    Ae.append(g * r), be.append(g * q["b"] * m)
                else:
                    s = 1 if q["op"][0] == "<" else -1
                    A.append(s * r), b.append(s * q["b"] * m - (np.nextafter(0, 1) if strict and len(q["op"]) == 1 else 0))
            for p in PERMS[n]:
                for rev in (1, -1):
                    kw = dict(bounds=[bnd[i] for i in p], integrality=[int(e["int"][i]) for i in p])
                    if A:
                        kw.update(A_ub=np.array(A)[::rev, p], b_ub=b[::rev])
                    if Ae:
                        kw.update(A_eq=np.array(Ae)[::rev, p], b_eq=be[::rev])
                    r = linprog(co[p], **kw)
                    if o["s"] != "optimal":
                        ok = not r.success and r.status in ((2, 4) if o["s"] == "infeasible" else (3, 4))
                    else:
                        want, om = o["n"] / o["d"], float(omult(st["obj"])) if scaled else 1
                        ok = r.success and abs((-r.fun if e["max"] else r.fun) / om + st["obj"]["k"] - want) <= TOL * (1 + abs(want))
                    if not ok:
                        return True
    return False


def solve(e, st, names, n):
    """None, or the description of a wrong answer that the underlying solver gives for the stated problem as well"""
    ints = e["int"]
    infer = e["how"] == "inferred"
    syms = [sy.Symbol(nm, integer=True) if infer and ints[i] else sy.Symbol(nm) for i, nm in enumerate(names)]
    U = [1 if i else u for i, u in zip(ints, st["units"])]
    obj = objective(st["obj"], syms, names, U)
    cons = [constraint(c, syms, names, U) for c in st["cons"]]
    if e["rev"]:
        cons = cons[::-1]
    p = PERMS[n][e["ord"] % len(PERMS[n])]
    bnds = [(None if st["lo"][i] == 99 else st["lo"][i] * U[i], None if st["hi"][i] == 99 else st["hi"][i] * U[i]) for i in p]
    kw = dict(variables=[syms[i] for i in p], sparsify=e["sparse"])
    if all(b == (0, None) for b in bnds) and e["rev"]:
        pass
    elif all(b == bnds[0] for b in bnds) and e["sparse"]:
        kw["bounds"] = bnds[0]
    else:
        kw["bounds"] = bnds
    if not infer and any(ints):
        kw["integrality"] = [int(ints[i]) for i in p]
        if all(ints) and e["rev"]:
            kw["integrality"] = 1
    # a variable nowhere in the functions' own lists is not a variable of the problem: give the objective all of them
    own = {str(v) for f in [obj, *cons] for v in f.variables}
    if any(nm not in own for nm in names):
        obj = Function(obj.expr, variables=list(syms))
    what = f"{'max' if e['max'] else 'min'} {obj.expr} s.t. {[(str(c.expr), c.op_str) for c in cons]} bounds {bnds} int {kw.get('integrality', ints)} variables {kw['variables']}"
    skw = dict(maximize=e["max"]) if e["max"] or e["rev"] else {}
    if e.get("meth", "default") != "default":
        skw["method"] = e["meth"]
    if e.get("late") and "bounds" in kw:      # bounds given for this solution only
        skw["bounds"] = kw.pop("bounds")
    prob = LPP(obj, cons, **kw)
    if e["sparse"]:                           # the same problem was solved before, in the other sense
        prob.solve(maximize=not e["max"])
    res = prob.solve(**skw)
    try:
        judge(e, st, names, n, p, res, what, np.array(U, dtype=float))
    except Mismatch as m:
        if m.clause in ("optimum", "solved", "infeasible", "unbounded") and unreliable(e, st, n):
            return m.detail
        raise
    return None


def refused(e, st, names, n):
    """the stated problem, spoiled at one place, is not accepted"""
    syms = [sy.Symbol(nm) for nm in names]
    obj = Function(objective(st["obj"], syms, names, n * [1]).expr, variables=syms)
    cons = [constraint(c, syms, names, n * [1]) for c in st["cons"]]
    x, y, other = syms[e["i"] - 1], syms[e["j"] - 1], sy.Symbol("other")
    var, term = list(syms), 0
    w, at = e["w"], e["where"]
    if w == "noop" and at == "objective" or w in ("numeric", "object") and at == "constraint" and not cons:
        at = "constraint" if w == "noop" else "objective"
    if w in ("square", "product", "reciprocal", "root", "foreign"):
        term = e["c"] * {"square": x ** 2, "product": x * y, "reciprocal": 1 / (x + 7), "root": sy.sqrt(x), "foreign": other}[w]
        if at == "objective":
            obj = Function(obj.expr + term, variables=syms + ([other] if w == "foreign" else []))
        else:
            c = cons[-1] if cons else Relation(x, op="<=", variables=syms)
            new = Relation(c.expr + term, op=c.op_str, variables=syms + ([other] if w == "foreign" else []))
            cons = cons[:-1] + [new]
    elif w == "object":
        if at == "objective":
            obj = obj.expr
        else:
            cons = cons + [Function(x - 1, variables=syms)]
    elif w == "numeric":
        f = lambda v: v[0]
        if at == "objective":
            obj = Function(f, dimension=n)
        else:
            cons = cons + [Relation(f, op="<=", dimension=n)]
    elif w == "undeclared":
        var = var + [other] if e["c"] == 1 else None if e["c"] == 5 else [str(v) for v in var]
    elif w == "noop":
        cons = cons + [Relation(x - 1, op=lambda a, b: a <= b, variables=syms)]
    try:
        LPP(obj, cons, variables=var)
    except Exception:
        return
    raise Mismatch("refused", f"accepted as a linear program: {getattr(obj, 'expr', obj)} s.t. {[(str(c.expr), getattr(c, 'op_str', None)) for c in cons]} in {var} ({w}, {at})")


def judge(e, st, names, n, p, res, what, U):
    o, ints = e["out"], e["int"]
    if o["s"] != "optimal":
        okst = (2, 4) if o["s"] == "infeasible" else (3, 4)
        expect(not res.success and res.status in okst, o["s"], f"{what}: {o['s']}, reported success={res.success} status={res.status} x={res.x}")
        return
    expect(res.success and res.status == 0, "solved", f"{what}: has the optimum {o['n'] / o['d']}, reported status {res.status} ({res.message})")
    om = float(omult(st["obj"]))
    want = om * o["n"] / o["d"]
    x = np.zeros(n)
    x[p] = res.x / U[p]
    f = om * (st["obj"]["k"] + float(np.dot(st["obj"]["c"], x)))
    expect(abs(f - res.fun) <= TOL * (max(1, om) + abs(f)), "objective", f"{what}: objective {f} at the reported point {x}, reported {res.fun}")
    for c in st["cons"]:
        l, r, t = float(np.dot(c["row"], x)), c["b"], 1e-5
        ok = abs(l - r) <= t if c["op"] == "=" else l <= r + t if c["op"][0] == "<" else l >= r - t
        expect(ok, "feasible", f"{what}: reported point {x} violates {c['row']} {c['op']} {c['b']}")
    for i in range(n):
        l, h = st["lo"][i], st["hi"][i]
        expect((l == 99 or x[i] >= l - 1e-5) and (h == 99 or x[i] <= h + 1e-5), "bounds", f"{what}: reported point {x} violates bounds {l}, {h} of {names[i]}")
        expect(not ints[i] or abs(x[i] - round(x[i])) < 1e-5, "integrality", f"{what}: reported point {x}, {names[i]} is not an integer")
    expect(abs(res.fun - want) <= TOL * (max(1, om) + abs(want)), "optimum", f"{what}: optimum {want}, reported {res.fun} at {res.x}")


def replay(tr):
    n = tr["n"]
    names = NAMES[tr.get("seed", 0) % len(NAMES)][:n]
    st = dict(obj=dict(c=[1] + [0] * (n - 1), k=0, form="expr", vs="all"), cons=[], lo=[0] * n, hi=[99] * n)
    st["units"] = UNITS[tr.get("seed", 0) % len(UNITS)][:n]
    k = 0
    known = None
    try:
        for k, e in enumerate(tr["log"]):
            a = e["a"]
            if a == "Objective":
                st["obj"] = e
            elif a == "Constrain":
                st["cons"].append(e)
            elif a == "Again":
                o = st["cons"][e["m"] - 1]
                st["cons"].append(dict(o, op=e["op"], b=e["b"]) if e["like"] else e)
            elif a == "Drop":
                del st["cons"][e["m"] - 1]
            elif a == "Bound":
                st["lo"][e["i"] - 1], st["hi"][e["i"] - 1] = e["lo"], e["hi"]
            elif a == "MakeInt":
                i = e["i"] - 1
                if e["by"] == "bounds":
                    st["lo"][i], st["hi"][i] = e["lo"], e["hi"]
                else:
                    st["lo"][i], st["hi"][i] = 0, 99
                    st["cons"].append(dict(row=[int(j == i) for j in range(n)], op="<=", b=e["hi"], form="text", vs="all", sides=0, mul=1))
            elif a == "Refused":
                refused(e, st, names, n)
            elif a == "Solve":
                known = solve(e, st, names, n) or known
            else:
                raise KeyError(a)
    except Mismatch as m:
        return dict(clause=m.clause, detail=f"{m.detail} [event {k + 1} {tr['log'][k]}]")
    except Exception:
        import traceback
        return dict(clause="exception", detail=f"event {k + 1} {tr['log'][k]}: " + traceback.format_exc()[-1500:])
    if known:
        return dict(clause="solver-optimum", detail="program that scipy.optimize.linprog itself gets wrong: " + known)
    return None

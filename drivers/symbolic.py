"""Replays behaviours of spec/Symbolic.tla into Function, Relation, Equality and InEquality."""
import operator
import numpy as np
import sympy as sy
from sigmaepsilon.math.function import Function, Relation, Equality, InEquality
from sigmaepsilon.math.function.relation import Relations
from common import Mismatch, expect, expect_close

NAMES = [("x", "y", "z", "t", "u"), ("x1", "x11", "x2", "x10", "x3"), ("b", "a", "ab", "c", "ba"), ("xi", "eta", "q_1", "q_2", "r"), ("z", "y", "x", "w", "v"), ("E", "beta", "I", "N", "S")]
# what the whole expression is multiplied with (relations: exact in binary, such that zero stays zero)
SCALES = [1, 1, sy.Rational(1, 3), 0.1, 1e-7, 1, 250000, sy.sqrt(2), -1]
RSCALES = [1, 1, 0.5, 2.0 ** -16, 4096]
OPF = {"=": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
LATEX = {"=": "=0", "<": "<0", "<=": "\\leq0", ">": ">0", ">=": "\\geq0"}
CLS = dict(Relation=Relation, Equality=Equality, InEquality=InEquality)


class Env:
    def __init__(self, tr):
        i = tr.get("seed", 0)
        self.s = (SCALES if tr["mode"] == "function" else RSCALES)[i % (9 if tr["mode"] == "function" else 5)]
        self.v = float(self.s)
        # x = sinh(u): the same function in other coordinates, no polynomial any more
        self.curved = tr["mode"] == "function" and i % 7 == 3 and len(tr["log"]) <= 22
        # the last names mean something in SymPy unless they are declared to be variables
        said = {e["i"] for e in tr["log"] if e["a"] in "VT"}
        plain = any(e.get("how") == "none" or (e["a"] in ("Create", "Relation") and not said <= set(e["vars"])) for e in tr["log"])
        self.names = NAMES[i % (len(NAMES) - plain)]
        self.plain = [sy.Symbol(n) for n in self.names]
        self.pos = [sy.Symbol(n, positive=True) for n in self.names]
        self.int = [sy.Symbol(n, integer=True) for n in self.names]
        self.st = []     # (text, tree)

    def build(self, e):
        st, a = self.st, e["a"]
        if a == "C":
            st.append((str(e["c"]) if e["c"] >= 0 else f"({e['c']})", lambda s, c=e["c"]: sy.Integer(c)))
        elif a == "V":
            st.append((self.names[e["i"] - 1], lambda s, i=e["i"]: s[i - 1]))
        elif a == "T":
            n = self.names[e["i"] - 1]
            t = n if e["k"] == 1 else f"{n}**{e['k']}"
            t = t if e["c"] == 1 else f"{e['c']}*{t}" if e["c"] > 0 else f"({e['c']})*{t}"
            st.append((t, lambda s, e=e: e["c"] * s[e["i"] - 1] ** e["k"]))
        elif a == "B":
            (tb, fb), (ta, fa) = st.pop(), st.pop()
            op = e["op"]
            text = f"{ta} + {tb}" if op == "+" else f"{ta} - ({tb})" if op == "-" else f"({ta})*({tb})"
            f = {"+": lambda s: fa(s) + fb(s), "-": lambda s: fa(s) - fb(s), "*": lambda s: fa(s) * fb(s)}[op]
            st.append((text, f))
        elif a == "U":
            t, f = st.pop()
            st.append((f"-({t})", lambda s: -f(s)) if e["op"] == "neg" else (f"({t})**2", lambda s: f(s) ** 2))
        else:
            return False
        return True

    def text(self, k=-1):
        t = self.st[k][0] if self.s == 1 else f"{self.s}*({self.st[k][0]})"
        if self.curved:
            import re
            for j, n in enumerate(self.names):
                t = re.sub(rf"\b{n}\b", f"@{j}@", t)
            for j, n in enumerate(self.names):
                t = t.replace(f"@{j}@", f"sinh({n})")
        return t

    def expr(self, sy_, k=-1):
        return self.s * self.st[k][1]([sy.sinh(v) for v in sy_] if self.curved else sy_)

    def pt(self, x):
        return [float(np.arcsinh(v)) for v in x] if self.curved else x

    def given(self, how, vl):
        """symbols of the expression, argument 'variables', symbols of the variables"""
        sy_ = {"names": self.plain, "symbols": self.plain, "positive": self.pos, "integer": self.int, "text": self.plain, "none": self.plain, "renamed": self.plain, "replaced": self.pos}[how]
        own = [sy_[i - 1] for i in vl]
        if how == "none":
            return self.plain, None, own
        if how == "renamed":      # the expression knows more of its symbols than the list of variables, or less
            return self.pos, [self.names[i - 1] for i in vl], own
        if how == "replaced":
            return self.plain, own, own
        if how == "names":
            return self.plain, [self.names[i - 1] for i in vl], own
        if how == "text":
            return self.plain, " ".join(self.names[i - 1] for i in vl) + ("," if len(vl) == 1 else ""), own
        return sy_, own, own


def num(v):
    return float(np.asarray(v, dtype=float))


def poly(terms, x):
    return sum(t["c"] * np.prod([float(v) ** k for v, k in zip(x, t["e"])]) for t in terms)


def check_poly(f, terms, vl, env, what):
    """the function means the given polynomial: value at a few points, as specified"""
    for j in range(3):
        full = [((3 * i + 5 * j + 1) % 5) - 2 for i in range(5)]
        x = [float(full[env.names.index(str(v))]) for v in f.variables]
        nv = len(terms[0]["e"]) if terms else 0
        want = env.v * poly(terms, full[:nv]) if terms else 0.0
        close(num(f(env.pt(x))), want, "subs-value", f"{what}: value at {x}", env)


def close(got, want, clause, what, env):
    """equal relative to the size of the specified numbers"""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    expect(got.shape == want.shape, clause, f"{what}: shape {got.shape}, specified {want.shape}")
    tol = 1e-9 * (np.max(np.abs(want), initial=0) + (1000 if env.curved else 30) * abs(env.v))
    expect(np.all(np.abs(got - want) <= tol), clause, f"{what}: {got.tolist()}, specified {want.tolist()}")


def coeffs(d, terms, vl, env, what):
    got = {}
    for k, v in d.items():
        k, v = sy.sympify(k), sy.sympify(v)
        term = sy.expand(k * v)
        if k.free_symbols:
            P = sy.Poly(k, *sorted(k.free_symbols, key=str))
            expect(len(P.terms()) == 1, "coefficients", f"{what}: {k} is not a monomial")
            e = [0] * 5
            (mon, c), = P.terms()
            for s, m in zip(sorted(k.free_symbols, key=str), mon):
                e[env.names.index(str(s))] = m
            key = tuple(e)
            val = float(v) * float(c)
        else:
            key, val = (0,) * 5, float(term)
        got[key] = got.get(key, 0.0) + val
    want = {tuple(t["e"] + [0] * (5 - len(t["e"]))): env.v * float(t["c"]) for t in terms}
    for k in set(got) | set(want):
        expect(abs(got.get(k, 0.0) - want.get(k, 0.0)) < 1e-9 * abs(env.v) * (1 + abs(want.get(k, 0.0) / env.v)), "coefficients", f"{what}: coefficient of {k} is {got.get(k)}, specified {want.get(k, 0)}")


def deriv(terms, i):
    return [dict(e=[m - (j == i) for j, m in enumerate(t["e"])], c=t["c"] * t["e"][i]) for t in terms if t["e"][i] > 0]


def numeric(e):
    """value, gradient and Hessian of a polynomial as callables"""
    t, n = e["p"], e["n"]
    fs = [lambda x: poly(t, x), lambda x: np.array([poly(deriv(t, i), x) for i in range(n)]),
          lambda x: np.array([[poly(deriv(deriv(t, i), j), x) for j in range(n)] for i in range(n)])]
    return fs[:e["parts"]]


def relation(e, env):
    (tr_, fr), (tl, fl) = env.st[-1], env.st[-2]
    src, var, own = env.given(e["how"], e["vars"])
    form, op, cls = e["form"], e["op"], CLS[e["cls"]]
    expr = env.s * (fl(src) - fr(src))
    if env.s != 1:
        tl, tr_ = f"{env.s}*({tl})", f"{env.s}*({tr_})"
    kw = dict(variables=var)
    if form == "text":
        return cls(f"{tl} {op} {tr_}", **kw), own
    if form == "text-tight":
        return cls(f"{tl}{op}{tr_}", **kw), own
    if form == "text-loose":
        return cls(f"  {tl}   {op}\t {tr_}  ", **kw), own
    if form == "text-expanded":
        return cls(f"{sy.expand(env.s * fl(src))} {op} {sy.expand(env.s * fr(src))}", **kw), own
    if form == "callable":
        return cls(expr, op=OPF[op], **kw), own
    if form == "text-moved":
        return cls(f"{tl} - 7{op}{tr_} - 7", **kw), own
    if form == "expr-op":
        return cls(expr, op=op, **kw), own
    if form == "expr-enum":
        return cls(expr, op=Relations(op), **kw), own
    if form == "expr-operator":
        return cls(expr, operator=op, **kw), own
    if form == "expr-opstr":
        return cls(expr, op_str=op, **kw), own
    if form == "str-op":
        return cls(f"{tl} - ({tr_})", op=op, **kw), own
    if form == "callable-opstr":
        return cls(expr, op=OPF[op], op_str=op, **kw), own
    return cls(expr, **kw), own


def malformed(e, env):
    tl, tr_ = env.st[-2][0], env.st[-1][0]
    cls, op, s = CLS[e["cls"]], e["op"], e["shape"]
    var = list(env.names)
    if s == "badop":
        return cls(f"{tl} {e['bad']} {tr_}", variables=var)
    if s == "noleft":
        return cls(f"{op} {tr_}", variables=var)
    if s == "noright":
        return cls(f"{tl} {op}", variables=var)
    if s == "two":
        return cls(f"{tl} {op} {tr_} {op} 3", variables=var)
    if s == "badkw":
        return cls(tl, op=e["bad"], variables=var)
    if s == "badopstr":
        return cls(tl, op_str=e["bad"], variables=var)
    return cls(f"{tl} {op} {tr_}", op="<=" if op != "<=" else ">", variables=var)


def replay(tr):
    env = Env(tr)
    f, own, cur = None, None, None
    isnum, free, order = False, False, []
    k = 0

    def arg(x, point=True):
        """a point (or a gradient) in the coordinates and the order of the function"""
        if free:
            x = [x[j] for j in order]
        return env.pt(x) if point and not isnum else x

    def jac(x):
        return float(np.sqrt(1 + x * x)) if env.curved and not isnum else 1
    try:
        for k, e in enumerate(tr["log"]):
            a = e["a"]
            if env.build(e):
                continue
            if a == "Create":
                src, var, own = env.given(e["how"], e["vars"])
                what = env.text() if e["src"] == "str" else env.expr(src)
                kw = {} if var is None else dict(variables=var)
                if e["upd"] and f is not None:
                    f.update(what, **kw)
                else:
                    f = Function(what, **kw)
                cur, isnum = e["vars"], False
                expect(f.is_symbolic is True, "symbolic", "not symbolic")
                names = [str(v) for v in f.variables]
                if e["how"] == "none" and len(names) == len(cur):      # in any order
                    cur = [env.names.index(v) + 1 for v in names]
                    expect(sorted(cur) == sorted(e["vars"]), "variables", f"variables {f.variables} of {what}")
                    order = [e["vars"].index(v) for v in cur]
                expect(names == [env.names[i - 1] for i in cur], "variables", f"variables {f.variables}")
                free = e["how"] == "none"
            elif a == "CreateN":
                fs = numeric(e)
                if e["upd"] and f is not None:
                    f.update(*fs, d=e["n"])
                else:
                    f = Function(*fs, dimension=e["n"])
                cur, isnum, free = list(range(1, e["n"] + 1)), True, False
                expect(f.is_symbolic is False, "symbolic", "symbolic though given by callables")
            elif a == "Restart":
                env.st.clear()
            elif a == "Eval":
                x, c = arg(e["x"]), 1 if isnum else env.v
                for y in (x, np.array(x, dtype=float), tuple(x)):
                    close(num(f(y)), c * e["out"], "value", f"value of {f.expr} in {f.variables} at {y}", env)
                if not isnum and k % 3 == 0:      # a variable stands for a sum of two new ones
                    q, (u, w) = k % len(f.variables), sy.symbols("w_ u_")
                    g = f.subs([u + 2 * w], [str(f.variables[q])])
                    names = [str(v) for v in f.variables]
                    used = f.expr.has_free(f.variables[q])
                    at = dict(zip(names, x))
                    at.update({"w_": x[q] - 0.5, "u_": 0.25})
                    gv = [str(v) for v in g.variables]
                    expect(sorted(gv) == sorted(names[:q] + names[q + 1:] + (["u_", "w_"] if used else [])) or (len(names) == 1 and not used), "subs-variables", f"after substituting w_ + 2*u_ for {names[q]} in {f.expr}: variables {g.variables}")
                    close(num(g([at[v] for v in gv])), c * e["out"], "subs-value", f"value after substituting w_ + 2*u_ for {names[q]} in {f.expr}, at {at}", env)
                    if used:
                        gr = np.asarray(g.g([at[v] for v in gv]), dtype=float).reshape(len(gv))
                        fr = np.asarray(f.g(x), dtype=float).reshape(len(names))
                        close([gr[gv.index("w_")], gr[gv.index("u_")]], [fr[q], 2 * fr[q]], "subs-gradient", f"gradient after substituting w_ + 2*u_ for {names[q]} in {f.expr}", env)
                if not env.curved:
                    full = [0.0] * 5
                    for j, i in enumerate(e["vars"]):
                        full[i - 1] = e["x"][j] + 0.37 * (j + 1)
                    y = arg([full[i - 1] for i in e["vars"]])
                    close(num(f.f(y)), c * poly(e["p"], full[:tr["nv"]]), "value", f"value of {f.expr} in {f.variables} at {y}", env)
            elif a == "Grad":
                want = (1 if isnum else env.v) * np.array([e["out"][j] * jac(e["x"][j]) for j in range(len(e["out"]))], dtype=float)
                close(np.asarray(f.g(arg(e["x"])), dtype=float).reshape(len(want)), arg(want, False), "gradient", f"gradient of {f.expr} in {f.variables} at {arg(e['x'])}", env)
            elif a == "Hess":
                n = len(e["out"])
                want = np.array([[e["out"][i][j] * jac(e["x"][i]) * jac(e["x"][j]) for j in range(n)] for i in range(n)], dtype=float)
                if env.curved and not isnum:      # sinh'' = sinh
                    want += np.diag([e["g"][i] * e["x"][i] for i in range(n)])
                want = (1 if isnum else env.v) * want
                if free:
                    want = want[np.ix_(order, order)]
                close(np.asarray(f.G(arg(e["x"])), dtype=float).reshape(n, n), want, "hessian", f"Hessian of {f.expr} in {f.variables} at {arg(e['x'])}", env)
            elif a == "EvalMany":
                if isnum:
                    continue
                X = np.array([arg(x) for x in e["xs"]], dtype=float).T
                e = dict(e, out=[env.v * v for v in e["out"]])
                got = np.asarray(f(X), dtype=float)
                expect(got.shape == (X.shape[1],), "value-array", f"{f.expr} for {X.shape[1]} points: shape {got.shape}")
                close(got, e["out"], "value-array", f"values of {f.expr} at {X.T.tolist()}", env)
                # many points, points in an array with two axes, integer points
                m = X.shape[1]
                for Y in (np.tile(X, 37), np.asfortranarray(np.tile(X, 37))) + (() if env.curved else (X.astype(int),)):
                    close(np.asarray(f(Y), dtype=float), np.tile(e["out"], Y.shape[1] // m), "value-array", f"values of {f.expr} at {Y.shape[1]} points ({Y.dtype}), {X.T.tolist()} in turn", env)
                Y = np.tile(X, 6).reshape(X.shape[0], 6, m)
                close(np.asarray(f(Y), dtype=float), np.tile(e["out"], 6).reshape(6, m), "value-array", f"values of {f.expr} at an array of points with two axes, {X.T.tolist()} in turn", env)
            elif a == "Flags":
                expect(f.dimension == e["dim"], "dimension", f"dimension {f.dimension}, specified {e['dim']}")
                expect(f.is_symbolic is e["sym"], "symbolic", f"is_symbolic={f.is_symbolic}")
                if not e["sym"]:
                    for q in ("coefficients", "linear_coefficients", "simplify", "to_latex"):
                        try:
                            getattr(f, q)()
                        except TypeError:
                            continue
                        raise Mismatch("symbolic-only", f"{q} of a function given by callables did not raise TypeError")
                    continue
                if env.curved:
                    continue
                expect(bool(f.is_linear) is e["linear"], "linearity", f"{f.expr} is_linear={f.is_linear}")
                expect(len(f.to_latex()) > 0, "latex", "no LaTeX")
            elif a in ("Coeffs", "LinCoeffs") and env.curved:
                pass
            elif a == "Coeffs":
                coeffs(f.coefficients(normalize=e["norm"]), e["out"], e["vars"], env, f"coefficients of {f.expr}")
            elif a == "LinCoeffs":
                d = f.linear_coefficients(normalize=True)
                coeffs(d, e["out"], e["vars"], env, f"linear coefficients of {f.expr}")
                expect(all(v in d for v in f.variables), "coefficients", f"{d} does not list every variable")
            elif a == "Simplify":
                f.simplify()
            elif a == "Subs":
                names = [env.names[i - 1] for i in e["is"]]
                by = {str(v): v for v in f.variables}
                var = names if e["how"] == "names" else [by[n] for n in names]
                vals = e["vals"]
                if e["how"] == "default" and free:
                    by_ = dict(zip(names, vals))
                    vals = [by_[str(v)] for v in f.variables]
                vals = env.pt(vals)
                args = (vals,) if e["how"] == "default" else (vals, var)
                g = f.subs(*args, inplace=e["inplace"])
                expect((g is f) == e["inplace"], "subs-inplace", "in-place substitution returned another object" if e["inplace"] else "substitution returned the same object")
                check_poly(g, e["p"], e["vars"], env, f"substituting {dict(zip(names, e['vals']))}")
                got = [str(v) for v in g.variables]
                expect((sorted(got) if free else got) == (sorted if free else list)([env.names[i - 1] for i in e["vars"]]) and g.dimension == len(e["vars"]), "subs-variables",
                       f"after substitution for {names}: variables {g.variables}, dimension {g.dimension}")
                if not e["inplace"]:
                    close(num(f(arg(e["x"]))), env.v * e["was"], "subs-original", f"the original after substitution at {e['x']}", env)
                    if not e["keep"]:
                        f = g
                if f is g:
                    if free:
                        cur = [env.names.index(v) + 1 for v in got]
                        order = [e["vars"].index(v) for v in cur]
                    else:
                        cur = e["vars"]
            elif a == "Swap":
                by = {str(v): v for v in f.variables}
                s, t = by[env.names[e["i"] - 1]], by[env.names[e["j"] - 1]]
                f = f.subs([t, s], [s, t])
                got, want = [str(v) for v in f.variables], [env.names[i - 1] for i in e["vars"]]
                expect(sorted(got) == sorted(want) if free else got == want, "subs-variables", f"after exchanging {s} and {t}: variables {f.variables}")
                check_poly(f, e["p"], e["vars"], env, f"exchanging {s} and {t}")
                cur = [env.names.index(v) + 1 for v in got]
                order = [e["vars"].index(v) for v in cur]
            elif a == "Relation":
                try:
                    r, _ = relation(e, env)
                except Exception as ex:
                    expect(not e["ok"], "construction", f"rejected: {ex!r}")
                    continue
                expect(e["ok"], "kind-accepted", f"{e['cls']} accepted operator {e['op']} ({e['form']})")
                f = r
                expect(type(f) is CLS[e["kind"]], "kind", f"{type(f).__name__} for operator {e['op']}")
                if e["form"] != "callable":
                    expect(f.to_latex().replace(" ", "").endswith((LATEX[e["op"]], LATEX[e["op"]].replace("q0", "0"))), "latex", f"{f.to_latex()} for {f.expr} {e['op']} 0")
                free = e["how"] == "none"
                names = [str(v) for v in f.variables]
                if free:
                    expect(sorted(names) == sorted(env.names[i - 1] for i in e["vars"]), "variables", f"variables {f.variables}")
                    order = [e["vars"].index(env.names.index(v) + 1) for v in names]
                else:
                    expect(names == [env.names[i - 1] for i in e["vars"]], "variables", f"variables {f.variables}")
            elif a == "Relate":
                for y in (arg(e["x"]), tuple(arg(e["x"])), np.array(arg(e["x"]), dtype=float)):
                    got = f.relate(y)
                    expect(bool(got) is e["out"], "relate", f"{f.expr} {f.op_str} in {f.variables} at {y}: {got}, specified {e['out']}")
            elif a == "RelateMany":
                X = np.array([arg(x) for x in e["xs"]], dtype=float).T
                for Y in (X, np.tile(X, 29), X.astype(int)):
                    got = np.asarray(f.relate(Y))
                    if got.shape == ():
                        got = np.full(Y.shape[1], bool(got))
                    expect(got.tolist() == e["out"] * (Y.shape[1] // X.shape[1]), "relate", f"{f.expr} {f.op_str} at {Y.shape[1]} points, {X.T.tolist()} in turn: {got}, specified {e['out']}")
            elif a == "Malformed":
                try:
                    r = malformed(e, env)
                except Exception:
                    continue
                raise Mismatch("malformed-accepted", f"{e}: accepted as {type(r).__name__} {r.expr} {r.op}")
            else:
                raise KeyError(a)
    except Mismatch as m:
        return dict(clause=m.clause, detail=f"{m.detail} [event {k + 1} {tr['log'][k]}]")
    except Exception as ex:
        import traceback
        return dict(clause="exception", detail=f"event {k + 1} {tr['log'][k]}: " + traceback.format_exc()[-1500:])
    return None

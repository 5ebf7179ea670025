"""Replays behaviours of spec/Jagged.tla into JaggedArray, csr_matrix and unique2d."""
import json
import numpy as np
import awkward as ak
import scipy.sparse as sp
from numba import njit
from sigmaepsilon.math.linalg.sparse import JaggedArray, csr_matrix
from sigmaepsilon.math.arraysetops import unique2d
from common import Mismatch, expect


@njit
def nb_row(c, i):
    return c.row(i)


@njit
def nb_irow(c, i):
    return c.irow(i)


@njit
def nb_same(c):
    return c


@njit
def nb_parts(c):
    return c.data, c.indices, c.indptr, c.shape


VMAPS = {"id": lambda v: v, "big": lambda v: v * 4294967311, "frac": lambda v: v * 0.3, "tiny": lambda v: v * 1e-300, "neg": lambda v: -v * 1.7e200,
         "shift": lambda v: v * 1099511627777}


def concretise(tr):
    """the values of a behaviour stand for any values: an injective map which keeps zero (storage) or the order (unique elements)"""
    vm = tr.get("vm", "id")
    if vm == "id":
        return tr
    f = VMAPS[vm]
    tr = json.loads(json.dumps(tr))
    for e in tr["log"]:
        if vm in ("frac", "tiny", "neg") and "ty" in e:
            e["ty"] = "float64"
        elif e.get("ty") == "int32":
            e["ty"] = "int64"
        for o in (e, e.get("obs", {})):
            for k in ("rows", "dense"):
                if k in o:
                    o[k] = [[f(v) for v in r] for r in o[k]]
            for k in ("flat", "uniq"):
                if k in o:
                    o[k] = [f(v) for v in o[k]]
            if "ent" in o:
                o["ent"] = [[[c, f(v)] for c, v in r] for r in o["ent"]]
    return tr


def same(got, want):
    return got == want


def rows_of(obs, ty="int64"):
    f = float if ty.startswith("float") else int
    return [[f(v) for v in r] for r in obs["rows"]]


def check_jag(j, o, what):
    rows = o["rows"]
    expect(isinstance(j, JaggedArray), "type", f"{what}: {type(j)}")
    expect(same(j.to_list(), rows), "rows", f"{what}: rows {j.to_list()}, specified {rows}")
    expect(len(j) == len(rows), "length", f"{what}: len {len(j)}")
    expect(np.asarray(j.widths()).tolist() == o["widths"], "widths", f"{what}: widths {j.widths()}, specified {o['widths']}")
    expect(int(j.size) == o["size"], "size", f"{what}: size {j.size}, specified {o['size']}")
    expect(bool(j.is_jagged()) is o["jagged"], "jagged", f"{what}: is_jagged {j.is_jagged()} for {rows}")
    fl = j.flatten()
    expect(np.asarray(fl).tolist() == o["flat"], "flatten", f"{what}: flattened {fl}, specified {o['flat']}")
    c, fl = j.flatten(return_cuts=True)
    expect(np.asarray(fl).tolist() == o["flat"] and np.asarray(c).tolist() == o["widths"], "flatten", f"{what}: flattened with cuts {c} {fl}")
    a = j.to_ak()
    expect(isinstance(a, ak.Array) and a.to_list() == rows, "ak", f"{what}: to_ak {a}")
    a = j.to_array()
    expect(isinstance(a, (ak.Array, np.ndarray)) and (a.tolist() if isinstance(a, np.ndarray) else a.to_list()) == rows, "array", f"{what}: to_array {a}")
    d = np.asarray(j.to_numpy())
    expect(d.shape == (len(rows), o["nc"]) and d.tolist() == o["dense"], "numpy", f"{what}: to_numpy {d.tolist()}, specified {o['dense']}")
    s = j.to_scipy()
    expect(s.shape == (len(rows), o["nc"]) and s.toarray().tolist() == o["dense"], "scipy", f"{what}: to_scipy {s.toarray().tolist()}, specified {o['dense']}")
    m = j.to_csr()
    expect(tuple(m.shape) == (len(rows), o["nc"]) and m.to_numpy().tolist() == o["dense"], "csr", f"{what}: to_csr {m.to_numpy().tolist()}, specified {o['dense']}")
    for i, r in enumerate(rows):
        expect(m.row(i).tolist() == r and m.irow(i).tolist() == list(range(len(r))), "csr-row", f"{what}: row {i} {m.row(i)} {m.irow(i)}, specified {r}")
        expect(np.asarray(j[i]).tolist() == r, "item", f"{what}: [{i}] is {j[i]}, specified {r}")
    expect(np.asarray(j[-1]).tolist() == rows[-1], "item", f"{what}: [-1] is {j[-1]}, specified {rows[-1]}")
    expect([np.asarray(r).tolist() for r in j] == rows, "item", f"{what}: iteration gives {[r for r in j]}")
    p = j[1:len(rows)]
    expect((p.tolist() if isinstance(p, np.ndarray) else p.to_list()) == rows[1:], "item", f"{what}: [1:] is {p}")
    expect(m.row().tolist() == rows[0] and m.irow().tolist() == list(range(len(rows[0]))), "csr-row", f"{what}: row() {m.row()}")
    sh = j.shape
    expect(sh[0] == len(rows) and (sh[1] == o["nc"] and not o["jagged"] if np.ndim(sh[1]) == 0 else np.asarray(sh[1]).tolist() == o["widths"]), "shape", f"{what}: shape {sh}, widths {o['widths']}")


def check_csr(m, o, what, ordered=True):
    expect(isinstance(m, csr_matrix), "type", f"{what}: {type(m)}")
    expect(tuple(int(v) for v in m.shape) == (o["nr"], o["nc"]), "csr-shape", f"{what}: shape {m.shape}, specified {(o['nr'], o['nc'])}")
    d = m.to_numpy()
    expect(d.shape == (o["nr"], o["nc"]) and d.tolist() == o["dense"], "csr", f"{what}: to_numpy {d.tolist()}, specified {o['dense']}")
    s = m.to_scipy()
    expect(sp.issparse(s) and s.toarray().tolist() == o["dense"], "csr-scipy", f"{what}: to_scipy {s.toarray().tolist()}")
    for i, e in enumerate(o["ent"]):
        r, c = m.row(i), m.irow(i)
        rn, cn = nb_row(m, i), nb_irow(m, i)
        expect(rn.tolist() == r.tolist() and cn.tolist() == c.tolist(), "compiled", f"{what}: row {i} is {r} {c} outside and {rn} {cn} inside compiled code")
        got, want = list(zip(c.tolist(), r.tolist())), [tuple(x) for x in e]
        if not ordered:
            got, want = sorted(got), sorted(want)
        expect(got == want, "csr-row", f"{what}: row {i} {got}, specified {want}")
    a, b, c, sh = nb_parts(m)
    expect(a.tolist() == m.data.tolist() and b.tolist() == m.indices.tolist() and c.tolist() == m.indptr.tolist() and tuple(sh) == tuple(m.shape), "compiled", f"{what}: parts differ inside compiled code")
    n = sum(len(x) for x in o["ent"])
    expect(f"{o['nr']}x{o['nc']}" in repr(m) and str(n) in repr(m), "repr", f"{what}: {m!r}")


def make(e, typed):
    o, how, ty = e["obs"], e["how"], e["ty"]
    if typed and o["size"] == 0 and how in ("lists", "lists1d"):
        how = "flat"      # empty lists have no type
    rows = rows_of(o, ty)
    kw = dict(force_numpy=e["fn"])
    flat = np.array(o["flat"], dtype=ty)
    if how == "flat":
        return JaggedArray(flat, cuts=o["widths"], **kw)
    if how == "flatlist":
        return JaggedArray(flat, cuts=np.array(o["widths"], dtype=np.int32), **kw)
    if how == "lists":
        return JaggedArray(rows, **kw)
    if how == "lists1d":
        return JaggedArray([np.array(r, dtype=ty) for r in rows], **kw)
    arr = ak.unflatten(flat, np.array(o["widths"], dtype=int))
    if how == "ak":
        return JaggedArray(arr, **kw)
    if how == "wrap":
        return JaggedArray(wrap=arr, **kw)
    if how == "aksliced":
        big = ak.concatenate([ak.unflatten(np.array([9, 9, 9], dtype=ty), [1, 2]), arr, ak.unflatten(np.array([8], dtype=ty), [1])])
        return JaggedArray(big[2:-1], **kw)
    if how == "akindexed":
        n = len(rows)
        return JaggedArray(arr[::-1][list(range(n))[::-1]], **kw)
    d = np.array(rows, dtype=ty).reshape(len(rows), o["nc"])
    if how == "denseF":
        d = np.asfortranarray(d)
    return JaggedArray(d, **kw)


def raw(o, ty):
    data = np.array([v for r in o["ent"] for _, v in r], dtype=ty)
    ind = np.array([c for r in o["ent"] for c, _ in r], dtype=np.int64)
    ptr = np.cumsum([0] + [len(r) for r in o["ent"]])
    return data, ind, ptr


def unique(e, j):
    kw = {}
    if e["ri"]:
        kw["return_index"] = True
    if e["rv"]:
        kw["return_inverse"] = True
    if e["rc"]:
        kw["return_counts"] = True
    route = e["route"]
    before = j.to_list()
    if route == "np":
        res = np.unique(j, **kw)
    elif route == "method":
        res = j.unique(**kw)
    elif route == "unique2d":
        res = unique2d(j, **kw)
    elif route == "array":
        res = unique2d(np.array(j.to_list(), dtype=int).reshape(len(j), e["nc"]), **kw)
    else:
        res = unique2d(ak.Array(j.to_list()), **kw)
    what = f"{route} {kw} of {e['rows']}"
    res = list(res) if kw else [res]
    expect(len(res) == 1 + len(kw), "outputs", f"{what}: {len(res)} outputs")
    u = np.asarray(res.pop(0))
    expect(u.tolist() == e["uniq"], "unique", f"{what}: unique {u.tolist()}, specified {e['uniq']}")
    if e["ri"]:
        d = res.pop(0)
        expect(sorted(int(k) for k in d.keys()) == e["uniq"], "index", f"{what}: index keys {sorted(d.keys())}")
        for v, pos in zip(e["uniq"], e["idx"]):
            p = np.asarray(d[v])
            if p.ndim == 2:
                expect(p.shape == (len(pos), 2), "index", f"{what}: positions of {v} {p.tolist()}")
                p = p[:, 0] * e["nc"] + p[:, 1]
                ok = not e["jagged"]
            else:
                ok = True
            expect(ok and p.tolist() == pos, "index", f"{what}: positions of {v} {np.asarray(d[v]).tolist()}, specified (flat) {pos}")
    if e["rv"]:
        i = res.pop(0)
        i = i.to_list() if isinstance(i, ak.Array) else np.asarray(i).tolist()
        expect(i == e["inv"], "inverse", f"{what}: inverse {i}, specified {e['inv']}")
    if e["rc"]:
        c = np.asarray(res.pop(0))
        expect(c.tolist() == e["counts"], "counts", f"{what}: counts {c.tolist()}, specified {e['counts']}")
    expect(j.to_list() == before, "purity", f"{what}: the input was changed")


def copies(e, K, apart):
    """an event on K copies of its array, one below the other; apart: each has values of its own"""
    e = json.loads(json.dumps(e))
    if e["a"] == "Unique":
        step = max(e["uniq"]) - min(e["uniq"]) + 1 if apart else 0
        m, nu = len(sum(e["rows"], [])), len(e["uniq"])
        e["rows"] = [[v + k * step for v in r] for k in range(K) for r in e["rows"]]
        if apart:
            e["uniq"] = [v + k * step for k in range(K) for v in e["uniq"]]
            e["counts"] *= K
            e["inv"] = [[v + k * nu for v in r] for k in range(K) for r in e["inv"]]
            e["idx"] = [[v + k * m for v in p] for k in range(K) for p in e["idx"]]
        else:
            e["counts"] = [c * K for c in e["counts"]]
            e["inv"] *= K
            e["idx"] = [[v + k * m for k in range(K) for v in p] for p in e["idx"]]
        return e
    o = e["obs"]
    for k in ("rows", "widths", "flat", "dense", "ent"):
        if k in o:
            o[k] = o[k] * K
    for k in ("size", "nr"):
        if k in o:
            o[k] = o[k] * K
    return e


def large(tr):
    """the same on many copies of the array: (event, number of copies, apart)"""
    for k, K, apart in tr.get("large", []):
        e = tr["log"][k]
        what = f"{K} copies{' apart' if apart else ''} of {e}"[:600]
        try:
            f = copies(e, K, apart)
            if e["a"] == "Unique":
                unique(f, JaggedArray([list(r) for r in f["rows"]]) if K % 2 else JaggedArray(np.array(sum(f["rows"], []), dtype=np.int64), cuts=[len(r) for r in f["rows"]]))
            elif e["a"] == "Make":
                verify(make(f, tr["mode"] == "unique"), f["obs"], True, what)
            else:
                d, i, p = raw(f["obs"], f["ty"])
                sh = (f["obs"]["nr"], f["obs"]["nc"])
                verify(csr_matrix(d, i, p, sh), f["obs"], True, what)
                verify(csr_matrix(sp.csr_matrix((d, i, p), shape=sh)), f["obs"], True, what)
        except Mismatch as m:
            return dict(clause=m.clause, detail=f"{what}: {m.detail}"[:1500])
        except Exception:
            import traceback
            return dict(clause="exception", detail=f"{what}: " + traceback.format_exc()[-1500:])
    return None


def replay(tr):
    tr = concretise(tr)
    return behaviour(tr) or large(tr)


def behaviour(tr):
    slot, obs = {}, {}
    k = 0
    try:
        for k, e in enumerate(tr["log"]):
            a = e["a"]
            ordered = True
            if a == "Unique":
                unique(e, slot[e["s"]])
                continue
            if a == "BadCuts":
                try:
                    j = JaggedArray(np.array(e["flat"]), cuts=e["cuts"])
                except Exception:
                    continue
                raise Mismatch("bad-cuts", f"row widths {e['cuts']} for {len(e['flat'])} items accepted: {j.to_list()}")
            if a == "Make":
                n = make(e, tr["mode"] == "unique")
            elif a == "Join":
                ss = [slot[s] for s in e["ss"]]
                n = np.vstack(ss) if e["f"] == "vstack" else np.concatenate(ss) if e["f"] == "concatenate" else np.concatenate(ss, axis=0) if e["f"] == "concatenate0" else np.vstack(tuple(ss))
                if len(ss) > 1 and e["f"] != "vstack":      # another axis is refused or respected
                    try:
                        w = np.concatenate(ss, axis=1) if e["f"] == "concatenate" else np.concatenate(ss, 1)
                    except Exception:
                        w = None
                    if w is not None:
                        want = [sum((list(r) for r in rows), []) for rows in zip(*[s.to_list() for s in ss])]
                        expect(len({len(s.to_list()) for s in ss}) == 1 and w.to_list() == want, "join-axis", f"joined along the second axis: {w}, rows next to each other: {want}")
            elif a == "Via":
                j, how, kw = slot[e["s"]], e["how"], dict(force_numpy=e["fn"])
                if how == "list" and e["obs"]["size"] == 0 and tr["mode"] == "unique":
                    how = "flat"
                if how == "list":
                    n = JaggedArray(j.to_list(), **kw)
                elif how == "ak":
                    n = JaggedArray(j.to_ak(), **kw)
                elif how == "flat":
                    n = JaggedArray(j.flatten(), cuts=j.widths(), **kw)
                elif how == "cuts":
                    c, f = j.flatten(return_cuts=True)
                    n = JaggedArray(f, cuts=c, **kw)
                elif how == "numpy":
                    n = JaggedArray(np.array(j.to_numpy()), **kw)
                elif how == "scipy":
                    n = JaggedArray(j.to_scipy().toarray(), **kw)
                else:
                    n = JaggedArray(j.to_array(), **kw)
            elif a == "ToCsr":
                n = slot[e["s"]].to_csr()
            elif a == "MakeCsr":
                d, i, p = raw(e["obs"], e["ty"])
                sh = (e["obs"]["nr"], e["obs"]["nc"])
                if e["how"] == "raw-noshape":
                    n = csr_matrix(d, i, p)
                elif e["how"] == "raw-list":
                    n = csr_matrix(d.tolist(), i.tolist(), p.tolist(), sh)
                elif e["how"] == "scipy-raw":
                    n = csr_matrix(sp.csr_matrix((d, i, p), shape=sh))
                elif e["how"] == "csc":
                    n, ordered = csr_matrix(sp.csr_matrix((d, i, p), shape=sh).tocsc()), False
                else:
                    n = csr_matrix(d, i, p, sh)
            elif a == "Scipy":
                d = np.array(e["obs"]["dense"], dtype=e["ty"])
                mk = dict(csr=sp.csr_matrix, csc=sp.csc_matrix, coo=sp.coo_matrix, lil=sp.lil_matrix, csr_array=sp.csr_array, bsr=lambda x: sp.bsr_matrix(x, blocksize=(1, 1)), dok=sp.dok_matrix)[e["f"]]
                n, ordered = csr_matrix(mk(d)), False
            elif a == "Eye":
                n = csr_matrix.eye(e["n"])
            elif a == "Round":
                m, how = slot[e["s"]], e["how"]
                if how == "compiled":
                    n = nb_same(m)
                elif how == "parts":
                    n = csr_matrix(m.data, m.indices, m.indptr, m.shape)
                elif how == "scipy":
                    n = csr_matrix(m.to_scipy())
                else:
                    n = csr_matrix(*nb_parts(m))
                ordered = obs[e["s"]][1]
            elif a == "CsrToJag":
                n = JaggedArray(slot[e["s"]].to_numpy())
            else:
                raise KeyError(a)
            slot[e["t"]], obs[e["t"]] = n, (e["obs"], ordered)
            verify(n, e["obs"], ordered, f"{a} {e.get('how', '')}")
        for t in sorted(slot):
            verify(slot[t], *obs[t], f"slot {t} at the end")
    except Mismatch as m:
        return dict(clause=m.clause, detail=f"{m.detail} [event {k + 1} {({x: y for x, y in tr['log'][k].items() if x != 'obs'})}]")
    except Exception:
        import traceback
        return dict(clause="exception", detail=f"event {k + 1} {tr['log'][k]}: " + traceback.format_exc()[-1500:])
    return None


def verify(n, o, ordered, what):
    if "rows" in o:
        check_jag(n, o, what)
    else:
        check_csr(n, o, what, ordered)

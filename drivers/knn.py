"""Nearest neighbours and the averaging approximator on real clouds, against spec/KNN.tla."""
import copy, traceback
import numpy as np
from sigmaepsilon.math.knn import k_nearest_neighbours
from sigmaepsilon.math.approx import MLSApproximator
from common import Mismatch, expect, expect_close

P = {"1": 1, "2": 2, "inf": np.inf}


SCALE, SHIFT = 1.0, 0.0       # the unit and the origin the coordinates of a behaviour are measured in


def limit(norm, m):
    return SCALE * (np.sqrt(m + 0.5) if norm == "2" else m + 0.5)


def coords(p):
    return SCALE * (np.array(p, dtype=float) + SHIFT)


FILL, FAR = 0, 10 ** 4        # size of the background: points out of reach which make the cloud large


def filled(cloud):
    """the cloud within its background, and the places its points got"""
    X = coords(cloud)
    if not FILL:
        return X, list(range(len(X)))
    rng = np.random.RandomState(len(cloud) + FILL)
    bg = rng.randint(FAR, 2 * FAR, size=(FILL, X.shape[1])) * rng.choice([-1, 1], size=(FILL, X.shape[1]))
    at = np.sort(rng.choice(FILL + len(X), size=len(X), replace=False))
    out = np.empty((FILL + len(X), X.shape[1]))
    mask = np.ones(len(out), dtype=bool)
    mask[at] = False
    out[at], out[mask] = X, coords(bg)
    return out, at.tolist()


def query(cloud, e):
    X, at = filled(cloud)
    n = len(X)
    Y = coords(e["qs"])
    if e["leaf"] == 2:
        X, Y = np.asfortranarray(X), np.repeat(Y, 2, axis=0)[::2]
    kw = dict(k=list(e["k"]) if e["aslist"] else e["k"][0], leaf_size=e["leaf"], workers=e["w"], return_distance=e["dist"])
    opts = {}
    if e["norm"] != "2":
        opts["p"] = P[e["norm"]]
    if not e["nolim"]:
        if e["viaopt"]:
            opts["distance_upper_bound"] = limit(e["norm"], e["lim"])
        else:
            kw["max_distance"] = limit(e["norm"], e["lim"])
    if opts or e["viaopt"]:
        kw["query_kwargs"] = opts
    if e["bal"]:
        kw["tree_kwargs"] = dict(balanced_tree=False)
    o0, X0, Y0 = copy.deepcopy(kw), X.copy(), Y.copy()
    res = k_nearest_neighbours(X, **kw) if e["self"] else k_nearest_neighbours(X, Y, **kw)
    expect(repr(o0) == repr(kw) and np.array_equal(X, X0) and np.array_equal(Y, Y0), "inputs", f"the search changed its inputs: {kw}")
    d, i = res if e["dist"] else (None, res)
    ranks = e["k"] if e["aslist"] else list(range(1, e["k"][0] + 1))
    nq = n if e["self"] else len(e["qs"])
    shape = (nq,) + (() if not e["aslist"] and e["k"][0] == 1 else (len(ranks),))
    i = np.asarray(i)
    what = f"cloud {cloud}, call {({k: v for k, v in e.items() if k not in ('keys', 'sorted')})}"
    expect(i.shape == shape, "shape", f"indices of shape {i.shape}, expected {shape}; {what}")
    if d is not None:
        expect(np.asarray(d).shape == shape, "shape", f"distances of shape {np.asarray(d).shape}, expected {shape}; {what}")
        d = np.asarray(d).reshape(nq, len(ranks))
    i = i.reshape(nq, len(ranks))
    if e["self"]:
        i, d = i[at], None if d is None else d[at]
    local = {a: j for j, a in enumerate(at)}
    for r in range(len(e["qs"])):
        keys, ok = e["keys"][r], e["sorted"][r]
        seen = []
        for c, rank in enumerate(ranks):
            j = int(i[r, c])
            if rank > len(ok) and FILL and e["nolim"]:
                expect(0 <= j < n and j not in local, "missing", f"query {e['qs'][r]}: neighbour number {rank} is {j}, but all {len(ok)} near points come before; {what}")
                seen.append(("far", j))
            elif rank > len(ok):
                expect(j == n, "missing", f"query {e['qs'][r]}: neighbour number {rank} is {j}, but there are only {len(ok)} within the limit; {what}")
                expect(d is None or np.isinf(d[r, c]), "missing", f"query {e['qs'][r]}: missing neighbour number {rank} has the distance {None if d is None else d[r, c]}; {what}")
            else:
                expect(0 <= j < n, "missing", f"query {e['qs'][r]}: neighbour number {rank} is {j} though it exists; {what}")
                expect(j in local, "nearest", f"query {e['qs'][r]}: neighbour number {rank} is the far point {j}; {what}")
                j = local[j]
                expect(keys[j] == ok[rank - 1], "nearest", f"query {e['qs'][r]}: neighbour number {rank} is {j} at {keys[j]}, specified at {ok[rank - 1]}; {what}")
                if d is not None:
                    w = SCALE * (np.sqrt(keys[j]) if e["norm"] == "2" else keys[j])
                    expect_close(d[r, c] / SCALE, w / SCALE, "distance", f"query {e['qs'][r]}, neighbour {j}; {what}")
                seen.append(j)
        expect(len(set(seen)) == len(seen), "distinct", f"query {e['qs'][r]}: repeated neighbours {seen}; {what}")


def average(cloud, e, objs):
    X, at = filled(cloud)
    n = len(X)
    data = np.full((n, len(e["data"][0])), 12345, dtype=int if e["ty"] == "int" else float)
    data[at] = e["data"]
    Y = data[:, 0].copy() if e["shape"] == "s" else data if e["shape"] == "v" else data.reshape(n, 2, 2)
    kw = {}
    if e["k"]:
        kw["k"] = e["k"]
    if not e["nolim"]:
        kw["max_distance"] = float(limit("2", e["lim"]))
    key = (e["obj"], e["k"], e["lim"])
    if key in objs:                          # an approximator lives on and gets new data
        m = objs[key]
        m.X_S, m.Y_S = X, Y
    else:
        m = objs[key] = MLSApproximator(X, Y, **kw)
    T = coords(e["qs"])
    c0 = [X.copy(), Y.copy(), T.copy()]
    got = np.asarray(m.approximate(T), dtype=float).reshape(len(e["qs"]), -1)
    expect(all(np.array_equal(a, b) for a, b in zip(c0, [X, Y, T])), "inputs", "the approximator changed its inputs")
    for r, p in enumerate(e["poss"]):
        if p[0]["n"] == 0:
            # nothing within the limit: there is no value to report
            expect(np.all(np.isnan(got[r])), "average", f"target {e['qs'][r]} has no neighbour within the limit but gets {got[r].tolist()}; cloud {cloud}, {e}")
            continue
        want = [np.array(x["sum"]) / x["n"] for x in p]
        expect(any(got[r].shape == w.shape and np.allclose(got[r], w, atol=1e-9) for w in want), "average",
               f"target {e['qs'][r]}: got {got[r].tolist()}, possible {[w.tolist() for w in want][:4]}; cloud {cloud}, {({k: v for k, v in e.items() if k != 'poss'})}")


def replay(t):
    global SCALE, SHIFT, FILL
    FILL = t.get("fill", 0)
    SCALE, SHIFT = t.get("unit", [1.0, 0.0])
    objs = {}
    cloud = t["cloud"]
    for n, e in enumerate(t["log"]):
        try:
            if e["a"] == "Query":
                query(cloud, e)
            elif e["a"] == "Average":
                average(cloud, e, objs)
            elif e["a"] == "Move":
                cloud = e["new"]
        except Mismatch as m:
            return dict(clause=m.clause, detail=f"step {n}: {m.detail}"[:3000])
        except Exception:
            return dict(clause="exception", detail=f"step {n} {str(e)[:500]}: {traceback.format_exc()[-1500:]}")
    return None

"""Level structures and pseudo-peripheral nodes of real graphs, against spec/Graphs.tla."""
import random
import numpy as np
import networkx as nx
import scipy.sparse as sp
from sigmaepsilon.math.graph import Graph, rooted_level_structure, pseudo_peripheral_nodes
from sigmaepsilon.math.linalg.sparse import csr_matrix
from common import Mismatch, expect


def levels(d):
    ks = sorted(int(k) for k in d.keys())
    return ks, [np.asarray(d[k]).tolist() for k in ks]


LABELS = [lambda i: i, lambda i: i, lambda i: f"n{(7 * i) % 101}", lambda i: (i % 3, i), lambda i: -i, lambda i: (i * 29 + 11) % 101]


def replay(r):
    """the graph, then (if given) another one with as many nodes made of the same object by changing its edges"""
    n = r["n"]
    rng = random.Random(str(r["edges"]))
    label = LABELS[rng.randrange(len(LABELS))]
    weights = rng.choice([[1], [1], [0.5, 2, 3], [1, -1, 1e-9, 7]])
    G = Graph()
    G.add_nodes_from(label(i) for i in range(n))
    res = check(r, G, label, weights, rng)
    if res is None and r.get("large"):
        res = large(r)
    if res is None and r.get("then"):
        G.remove_edges_from(list(G.edges))
        res = check(r["then"], G, label, weights, rng)
        if res is not None:
            res["detail"] += f" (made from the graph {r['edges']} by changing its edges)"
    return res


def large(r):
    """a large graph made of this one, its level structures follow: every node gets leaves or every edge becomes a path"""
    n, K = r["n"], r["large"]
    edges = [tuple(e) for e in r["edges"] if len(e) == 2]
    leafy = K > 0
    K = abs(K)
    new, mid, N = [], [], n
    if leafy:
        for i in range(n):
            new += [(i, N + q) for q in range(K)]
            mid += [(i, N + q) for q in range(K)]
            N += K
        new += edges
    else:
        for a, b in edges:
            path = [a] + list(range(N, N + K - 1)) + [b]
            N += K - 1
            new += list(zip(path, path[1:]))
            mid.append((a, b, path))
    G = Graph()
    G.add_nodes_from(range(N))
    G.add_edges_from(new)
    what = f"{'leaves at every node of' if leafy else 'paths for the edges of'} the graph {edges} ({K})"
    try:
        m = G.adjacency_matrix(to_csr=True)
        for root in (0, n // 2, n - 1):
            d = {v: k for k, s in enumerate(r["rls"][root]) for v in s}
            lv = {}
            for v, k in d.items():
                lv.setdefault(k if leafy else k * K, []).append(v)
            if leafy:
                for a, q in mid:
                    if a in d:
                        lv.setdefault(d[a] + 1, []).append(q)
            else:
                for a, b, path in mid:
                    if a in d:
                        for q in range(1, K):
                            lv.setdefault(min(K * d[a] + q, K * d[b] + K - q), []).append(path[q])
            want = [sorted(lv[k]) for k in range(len(lv))]
            for how, g in (("graph", G.rooted_level_structure(root)), ("csr", rooted_level_structure(m, root))):
                ks, ls = levels(g)
                got = [sorted(x) for x in ls]
                expect(ks == list(range(len(want))) and got == want, "level-structure", f"level structure of root {root} ({how}) with {len(ks)} levels, specified {len(want)}, different in {[k for k, (x, y) in enumerate(zip(got, want)) if x != y][:5]}; {what}")
    except Mismatch as e:
        return dict(clause=e.clause, detail=e.detail)
    except Exception:
        import traceback
        return dict(clause="exception", detail=f"{what}: " + traceback.format_exc()[-1500:])
    return None


def check(r, G, label, weights, rng):
    n, edges = r["n"], [tuple(e) if len(e) == 2 else (e[0], e[0]) for e in r["edges"]]
    es = [e if rng.random() < 0.5 else e[::-1] for e in edges]
    rng.shuffle(es)
    A = np.zeros((n, n))
    for a, b in es:
        A[a, b] = A[b, a] = w = rng.choice(weights)
        if w == 1:
            G.add_edge(label(a), label(b))
        else:
            G.add_edge(label(a), label(b), weight=w)
    try:
        adj = G.adjacency_matrix()
        expect(np.asarray(adj.todense()).tolist() == A.tolist(), "adjacency", f"adjacency matrix {np.asarray(adj.todense()).tolist()} of {edges}")
        c = G.adjacency_matrix(to_csr=True)
        expect(isinstance(c, csr_matrix) and c.to_numpy().tolist() == A.tolist(), "adjacency", f"CSR adjacency matrix of {edges}")
        # unsorted column indices are a legal CSR matrix too
        data, ind, ptr = [], [], [0]
        for i in range(n):
            cols = [j for j in range(n) if A[i, j]]
            rng.shuffle(cols)
            ind += cols
            ptr.append(len(ind))
        m = csr_matrix(np.array([A[i, j] for i in range(n) for j in ind[ptr[i]:ptr[i + 1]]]), np.array(ind, dtype=int), np.array(ptr), (n, n))
        for root in range(n):
            want = r["rls"][root]
            for how, d in (("graph", G.rooted_level_structure(root)), ("csr", rooted_level_structure(m, root))):
                ks, ls = levels(d)
                expect(ks == list(range(len(ks))), "levels", f"levels {ks} of root {root} ({how}) in the graph {edges} of {n} nodes")
                expect([sorted(x) for x in ls] == want and all(len(set(x)) == len(x) for x in ls), "level-structure", f"level structure {ls} of root {root} ({how}), specified {want}; graph {edges} of {n} nodes")
        if n:
            ks, ls = levels(G.rooted_level_structure())
            expect([sorted(x) for x in ls] == r["rls"][0], "level-structure", f"level structure {ls} of the default root")
        ok = {}
        for g in r["good"]:
            ok[tuple(sorted(r["rls"][g][-1] + [g]))] = g
        for how, p in (("graph", G.pseudo_peripheral_nodes()), ("csr", pseudo_peripheral_nodes(m))):
            p = sorted(np.asarray(p).tolist())
            expect(tuple(p) in ok, "peripheral", f"pseudo-peripheral candidates {p} ({how}) of the graph {edges} of {n} nodes; possible: {sorted(ok)}")
    except Mismatch as e:
        return dict(clause=e.clause, detail=e.detail)
    except Exception:
        import traceback
        return dict(clause="exception", detail=traceback.format_exc()[-1500:])
    return None

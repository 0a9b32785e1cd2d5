"""Linked cluster expansion"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import poly
from mc.engine import rng, dense

PROP = "N03"
BOUNDS = {"quick": "every strictly lower triangular multiplicity matrix of up to 3 clusters with entries 0..3 and of 4 clusters with entries 0..1, "
                   "real and complex values with 0..3 extra dimensions (also of length 1), every split into orders, 4 forms of the multiplicity vector, 2 numbers of sites; "
                   "every fixed parent of up to 5 sites; infinite lattice up to order 4",
          "thorough": "4 clusters with entries 0..2; parents up to 6 sites; infinite lattice up to order 5"}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4):
        top = 4 if n < 4 else (3 if th else 2)
        k = n * (n - 1) // 2
        allm = list(itertools.product(range(top), repeat=k))
        for lo in range(0, len(allm), 16):
            out.append({"kind": "mat", "n": n, "m": [list(m) for m in allm[lo:lo + 16]]})
    for n in range(1, 7 if th else 6):
        for f in poly.fixed(n):
            if n < 5 or poly.free(f) == f:
                out.append({"kind": "parent", "cells": [list(c) for c in f]})
    for n in range(1, 6 if th else 5):
        for us in (True, False):
            out.append({"kind": "inf", "n": n, "us": us})
    return out


def cost(c):
    if c["kind"] == "mat":
        return 20 * c["n"]
    return 5. ** c["n"] if c["kind"] == "inf" else 3. ** len(c["cells"])


def splits(n):
    """all ways to split n clusters into consecutive orders"""
    for k in range(n):
        for cut in itertools.combinations(range(1, n), k):
            yield [0] + list(cut) + [n]


def expected(p, m, v, inds, ns):
    w = np.zeros(p.shape, dtype=complex)
    for i in range(p.shape[0]):
        w[i] = p[i]
        for j in range(i):
            w[i] = w[i] - m[i, j] * w[j]
    orders = [sum((v[j] * w[j] for j in range(a, b)), np.zeros(p.shape[1:])) / ns for a, b in zip(inds[:-1], inds[1:])]
    return sum(orders), np.array(orders), w


def run(case, rec):
    from exact_diag import ed_nlce
    rs = rng(case)
    if case["kind"] == "mat":
        n = case["n"]
        for ent in case["m"]:
            m = np.zeros((n, n))
            m[np.tril_indices(n, -1)] = ent
            for sh in ((), (1,), (3,), (2, 2), (1, 3), (3, 1), (1, 1), (2, 1, 2), (2, "c"), (1, 2, "c")):
                cplx, sh = sh[-1:] == ("c",), tuple(x for x in sh if x != "c")
                p = rs.uniform(-1, 1, (n,) + sh)
                if cplx:
                    p = p + 1j * rs.uniform(-1, 1, (n,) + sh)
                v = rs.randint(0, 9, n).astype(float)
                for s, inds in enumerate(splits(n)):
                    for ns in (1, 3):
                        form = [v, v[None, :], list(v), sp.csr_matrix(v[None, :])][(s + ns) % 4]
                        p0, form0 = p.copy(), dense(form).copy()
                        got = ed_nlce.get_nlce_exp_val(p, sp.csr_matrix(m), form, inds, ns)
                        want = expected(p, m, v, inds, ns)
                        for g, w, nm in zip(got, want, ("expansion", "orders of the expansion", "weights")):
                            rec.close(g, w, f"{nm} of {ent}, values of shape {sh}, orders {inds}, {ns} sites")
                        rec.require(np.shape(got[1]) == (len(inds) - 1,) + sh and np.shape(got[2]) == p.shape,
                                    f"shapes of the orders and the weights for values of shape {sh}")
                        rec.close(np.sum(got[1], axis=0), got[0], "the orders add up to the expansion")
                        rec.require(np.array_equal(p, p0) and np.array_equal(dense(form), form0), "the arguments are not modified")
                        rec.state(n)
                        rec.outcome(want[2])
        return
    if case["kind"] == "parent":
        cells = [tuple(c) for c in case["cells"]]
        parent = poly.geom(cells)
        for us in (True, False):
            cl = poly.free if us else poly.norm
            lst, mat, edges = ed_nlce.get_reduced_subclusters(parent, use_symmetry=us)
            keys = [cl(poly.cells_of(c)) for c in lst]
            p = rs.uniform(-1, 1, (len(keys), 2))
            # the clusters of the finite system are its proper subclusters and the system itself
            v = dense(mat)[-1, :].copy()
            v[-1] += 1
            tot, orders, w = ed_nlce.get_nlce_exp_val(p, mat.tocsr(), v, edges, len(cells))
            rec.close(tot, p[-1] / len(cells), f"expansion of the finite cluster {cells} to all orders is the exact value")
            rec.require(len(orders) == len(cells), "one term per order")
            # brute force inclusion exclusion
            index = {k: i for i, k in enumerate(keys)}
            wt = {}
            for s in poly.subsets(cells):
                wt[frozenset(s)] = p[index[cl(s)]] - sum((wt[frozenset(t)] for t in poly.subsets(s) if len(t) < len(s)), np.zeros(2))
            for s, x in wt.items():
                rec.close(w[index[cl(tuple(s))]], x, f"weight of {sorted(s)} in {cells}")
            for o in range(len(cells)):
                rec.close(orders[o], sum(x for s, x in wt.items() if len(s) == o + 1) / len(cells), f"order {o + 1} of {cells}")
            rec.state(len(wt))
        return
    n, us = case["n"], case["us"]
    lst, mult, mat, inds = ed_nlce.get_all_clusters_with_subclusters(n, use_symmetry=us)
    # an extensive quantity with only site and bond terms is exact from the second order on
    ns = np.array([c.nsites for c in lst], dtype=float)
    nb = np.array([sum(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for a, b in itertools.combinations(poly.cells_of(c), 2)) for c in lst], dtype=float)
    p = np.stack((ns, nb, 0.3 * ns - 1.7 * nb), axis=1)
    tot, orders, w = ed_nlce.get_nlce_exp_val(p, mat, mult, inds, 1)
    bond = 2. if n > 1 else 0.
    rec.close(tot, [1., bond, 0.3 - 1.7 * bond], "site and bond terms per site of the infinite lattice")
    for o in range(n):
        rec.close(orders[o], [[1., 0., 0.3], [0., 2., -3.4]][o] if o < 2 else [0., 0., 0.], f"order {o + 1} of site and bond terms")
    rec.state(len(lst))
    rec.outcome("inf", n, us)

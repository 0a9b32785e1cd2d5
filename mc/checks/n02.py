"""Subclusters and their multiplicities"""
import itertools
from collections import Counter
import numpy as np
from mc import poly
from mc.engine import dense

PROP = "N02"
BOUNDS = {"quick": "every fixed cluster of up to 5 sites as parent (sites in every order up to 4 sites, 3 positions), every free cluster of 6 sites, "
                   "4 parents of 7..9 sites with loops (several labellings), with and without symmetry; reduction and matching of the lists of all clusters up to 5 sites; clusters of the infinite lattice up to order 5",
          "thorough": "every fixed cluster of up to 7 sites; infinite lattice up to order 6"}
ASSUMPTIONS = ["parents are open, connected clusters of the square lattice"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 8 if th else 7):
        for f in poly.fixed(n):
            if n == 7 and poly.free(f) != f or (n == 6 and not th and poly.free(f) != f):
                continue
            out.append({"kind": "parent", "cells": [list(c) for c in f], "perms": n <= 4})
    for nm in ("hole7", "ring8", "ladder8", "square9"):
        out.append({"kind": "parent", "cells": [list(c) for c in poly.HOLES[nm]], "perms": False})
        # other labels of the sites, far apart for neighbouring sites
        c = [list(c) for c in poly.HOLES[nm]]
        if th or nm == "ladder8":
            out.append({"kind": "parent", "cells": c[::-1], "perms": False})
        if nm != "square9":
            out.append({"kind": "parent", "cells": c[::2] + c[1::2][::-1], "perms": False})
            k = next(i for i, x in enumerate(c) if abs(x[0] - c[0][0]) + abs(x[1] - c[0][1]) == 1)
            out.append({"kind": "parent", "cells": c[:k] + c[k + 1:] + [c[k]], "perms": False})
    for us in (True, False):
        for n in (4, 5, 6) if th else (4, 5):
            out.append({"kind": "reduce", "n": n, "us": us})
        for n in (5, 6):
            out.append({"kind": "map", "n": n, "us": us})
    for n in range(1, 7 if th else 6):
        for us in (True, False):
            if n < 6 or us:
                out.append({"kind": "inf", "n": n, "us": us})
    return out


def cost(c):
    if c["kind"] == "inf":
        return 5. ** c["n"] * 3
    if c["kind"] != "parent":
        return 4. ** c["n"] * 3
    n = len(c["cells"])
    import math
    return (math.factorial(n) if c["perms"] else 1) * 3. ** n


def counts(cells, us):
    """Counter of the classes of the connected proper subsets"""
    cl = poly.free if us else poly.norm
    return Counter(cl(s) for s in poly.subsets(cells) if len(s) < len(cells))


def check_matrix(rec, clusters, mat, us, what):
    cl = poly.free if us else poly.norm
    keys = [cl(poly.cells_of(c)) for c in clusters]
    mat = dense(mat)
    rec.require(mat.shape == (len(keys), len(keys)), f"{what}: shape {mat.shape} of the multiplicity matrix of {len(keys)} clusters")
    want = np.zeros(mat.shape)
    index = {k: i for i, k in enumerate(keys)}
    for i, k in enumerate(keys):
        for s, m in counts(k, us).items():
            rec.require(s in index, f"{what}: subcluster {s} of {k} is not in the list")
            want[i, index[s]] = m
    rec.close(mat, want, f"{what}: number of times cluster j is contained in cluster i")
    rec.state(len(keys))
    rec.outcome(what[:3], want)
    return keys


def run(case, rec):
    from exact_diag import ed_nlce
    if case["kind"] == "inf":
        n, us = case["n"], case["us"]
        cl, mult, mat, inds = ed_nlce.get_all_clusters_with_subclusters(n, use_symmetry=us)
        keys = check_matrix(rec, cl, mat, us, "clusters of the infinite lattice")
        want = [k for o in range(n) for k in poly.fixed(o + 1)]
        rec.require(sorted(keys) == sorted({poly.free(w) for w in want} if us else want), "list of the clusters")
        for k, m in zip(keys, np.ravel(dense(mult))):
            rec.require(m == (len(poly.orbit(k)) if us else 1), f"multiplicity {m} of cluster {k}")
        rec.require([len(k) for k in keys] == [o + 1 for o in range(n) for _ in range(inds[o], inds[o + 1])], "order boundaries")
        return
    if case["kind"] in ("reduce", "map"):
        n, us = case["n"], case["us"]
        cl = poly.free if us else poly.norm

        def placed(f, i):
            g = poly.geom([(x + 2 * i, y - 3 * i) for x, y in f])
            g.permute_sites(g.get_sorting_permutation())
            return g
        if case["kind"] == "reduce":
            # every cluster of each order, some of them twice at different positions
            shapes = [poly.fixed(o) + poly.fixed(o)[::3] for o in range(1, n + 1)]
            dist, dmult, red = ed_nlce.reduce_clusters_by_geometry([[placed(f, i) for i, f in enumerate(s)] for s in shapes], use_symmetry=us)
            dk = [cl(poly.cells_of(c)) for o in dist for c in o]
            rec.require([len(o) for o in dist] == [len({cl(f) for f in s}) for s in shapes], "number of distinct clusters of each order")
            want = np.array([[float(cl(f) == k) for s in shapes for f in s] for k in dk])
            rec.close(red, want, "reduction matrix of all clusters")
            rec.require([int(m) for o in dmult for m in o] == [int(x) for x in want.sum(1)], "number of clusters of each class")
            rec.state(want.size)
            rec.outcome(want)
            return
        full, _, finds = ed_nlce.get_all_clusters(n, use_symmetry=us)
        fk = [cl(poly.cells_of(c)) for c in full]
        small = [f for o in range(1, n) for f in poly.fixed(o)] + list(poly.fixed(n)[::5 if n > 5 else 1])
        edges = [0] + list(np.cumsum([sum(len(f) == o for f in small) for o in range(1, n + 1)]))
        m = ed_nlce.map_between_cluster_bases(full, finds, [placed(f, i) for i, f in enumerate(small)], edges, use_symmetry=us)
        want = np.array([[float(cl(f) == k) for k in fk] for f in small])
        rec.close(m, want, "map from all clusters to the distinct ones")
        rec.state(want.size)
        rec.outcome(want)
        return
    base = [tuple(c) for c in case["cells"]]
    perms = itertools.permutations(base) if case["perms"] else [base]
    for i, p in enumerate(perms):
        for sh in ((0, 0), (-4, 9), (-120, 301)) if i == 0 else ((0, 0),):
            cells = [(x + sh[0], y + sh[1]) for x, y in p]
            parent = poly.geom(cells)
            # every connected subset, as placed in the parent
            orders, indices, mat = ed_nlce.get_all_subclusters(parent)
            flat = [c for o in orders for c in o]
            for o, lst in enumerate(orders):
                rec.require(all(c.nsites == o + 1 for c in lst), f"parent {cells}: subclusters of order {o + 1}")
            got = [frozenset(poly.cells_of(c)) for c in flat]
            rec.require(all(c.nsites == len(g) for c, g in zip(flat, got)), "subcluster contains a site twice")
            want = {frozenset(s) for s in poly.subsets(cells)}
            rec.require(len(set(got)) == len(got), f"parent {cells}: subcluster listed twice")
            rec.require(set(got) == want, f"parent {cells}: subclusters {len(got)}, expected {len(want)}")
            contain = np.array([[float(b < a) for b in got] for a in got])
            rec.close(mat, contain, f"parent {cells}: which subclusters contain which")
            for a, ind in enumerate(indices):
                rec.require(sorted(int(x) for x in ind) == [int(x) for x in np.flatnonzero(contain[a])], f"parent {cells}: indices of the subclusters")
            for us in (True, False):
                lst, rmat, edges = ed_nlce.get_reduced_subclusters(parent, use_symmetry=us)
                keys = check_matrix(rec, lst, rmat, us, f"parent {cells}, symmetry {us}")
                cl = poly.free if us else poly.norm
                rec.require(sorted(keys) == sorted({cl(s) for s in want}), f"parent {cells}: classes of subclusters")
                rec.require([len(k) for k in keys] == [o + 1 for o in range(len(edges) - 1) for _ in range(edges[o], edges[o + 1])],
                            f"parent {cells}: order boundaries {edges}")
                rec.require(keys[-1] == cl(cells), "the parent is the last cluster")
                # reduction of the full list
                dist, dmult, red = ed_nlce.reduce_clusters_by_geometry(orders, use_symmetry=us)
                dk = [cl(poly.cells_of(c)) for o in dist for c in o]
                red = dense(red)
                rec.close(red, np.array([[float(cl(g) == k) for g in got] for k in dk]), f"parent {cells}: reduction matrix")
                rec.require([int(m) for o in dmult for m in o] == [int(x) for x in red.sum(1)], f"parent {cells}: multiplicities in the parent")
            # changing between two lists of clusters
            n = len(cells)
            if n <= 4 and i == 0:
                for us in (True, False):
                    cl = poly.free if us else poly.norm
                    full, _, finds = ed_nlce.get_all_clusters(n, use_symmetry=us)
                    lst, _, edges = ed_nlce.get_reduced_subclusters(parent, use_symmetry=us)
                    m = dense(ed_nlce.map_between_cluster_bases(full, finds, lst, edges, use_symmetry=us))
                    rec.close(m, np.array([[float(cl(poly.cells_of(a)) == cl(poly.cells_of(b))) for b in full] for a in lst]),
                              f"parent {cells}: map between the lists of clusters")

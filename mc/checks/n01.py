"""Cluster enumeration of the infinite square lattice"""
import itertools
import numpy as np
from mc import poly
from mc.engine import dense

PROP = "N01"
BOUNDS = {"quick": "all clusters of orders 1..6, with and without point symmetry, lattice vectors in all 8 sign and order choices up to order 4; "
                   "the symmetry orbit of every fixed cluster of up to 6 sites, given with its sites in every order (up to 4 sites) and at 6 positions; "
                   "the next order of every subset of the clusters of 1..3 sites and of every free cluster of 7 sites",
          "thorough": "orders 1..8, orbits up to 7 sites, next order of every subset of up to 2 of the clusters with 4 sites and of every free cluster of 8 sites"}
ASSUMPTIONS = ["the clusters are those of the square lattice, the one the symmetry reduction is defined for"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 9 if th else 7):
        for us in (True, False):
            if n < 8 or us:
                out.append({"kind": "all", "n": n, "us": us, "lv": 0})
    for lv in range(1, 8):
        for us in (True, False):
            for n in (2, 3, 4) + ((5,) if th else ()):
                out.append({"kind": "all", "n": n, "us": us, "lv": lv})
    for n in range(1, 8 if th else 7):
        k = len(poly.fixed(n))
        for lo in range(0, k, 20):
            out.append({"kind": "orbit", "n": n, "lo": lo, "hi": min(k, lo + 20)})
    for n in (1, 2, 3):
        for us in (True, False):
            out.append({"kind": "next", "n": n, "us": us, "max": len(poly.fixed(n))})
    for n in (7, 8) if th else (7,):
        k = len({poly.free(f) for f in poly.fixed(n)})
        for lo in range(0, k, 12):
            for us in (True, False):
                out.append({"kind": "grow", "n": n, "lo": lo, "us": us})
    if th:
        for us in (True, False):
            out.append({"kind": "next", "n": 4, "us": us, "max": 2})
    return out


def cost(c):
    if c["kind"] == "all":
        return 4. ** c["n"] / 20
    if c["kind"] == "orbit":
        return (c["hi"] - c["lo"]) * (24 if c["n"] == 4 else 6)
    return 300


def check_list(rec, clusters, want, us, mult=None):
    """clusters contains each element of want (fixed polyominoes) exactly once, up to the point group if us"""
    got = []
    for c in clusters:
        cells = poly.cells_of(c)
        rec.require(len(set(cells)) == len(cells), f"cluster {cells} contains a site twice")
        adj = np.array([[int(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1) for b in cells] for a in cells])
        rec.close(c.adjacency_mat, adj, f"adjacency of cluster {cells}")
        got.append(poly.free(cells) if us else poly.norm(cells))
    rec.state(len(got))
    rec.require(len(set(got)) == len(got), lambda: f"cluster counted twice: {sorted(g for g in got if got.count(g) > 1)[0]}")
    want = {poly.free(w) for w in want} if us else set(want)
    rec.require(set(got) <= want, lambda: f"cluster {sorted(set(got) - want)[0]} is not one of the expected clusters")
    rec.require(want <= set(got), lambda: f"cluster {sorted(want - set(got))[0]} is missing")
    if mult is not None:
        rec.require(len(mult) == len(got), "one multiplicity per cluster")
        for g, m in zip(got, mult):
            rec.require(m == (len(poly.orbit(g)) if us else 1), f"multiplicity {m} of cluster {g}")
    rec.outcome(us, tuple(got))


def lvs(i):
    a, b = np.array([1, 0]), np.array([0, 1])
    a, b = a * (-1 if i & 1 else 1), b * (-1 if i & 2 else 1)
    return (b, a) if i & 4 else (a, b)


def run(case, rec):
    from exact_diag import ed_nlce
    if case["kind"] == "all":
        n, us = case["n"], case["us"]
        kw = {} if case["lv"] == 0 else dict(zip(("lv1", "lv2"), lvs(case["lv"])))
        cl, mult, inds = ed_nlce.get_all_clusters(n, use_symmetry=us, **kw)
        mult = [int(m) for m in np.ravel(dense(mult))]
        inds = [int(i) for i in inds]
        rec.require(len(inds) == n + 1 and inds[0] == 0 and inds[-1] == len(cl), f"index boundaries {inds} of {len(cl)} clusters")
        for o in range(n):
            block = cl[inds[o]:inds[o + 1]]
            rec.require(all(c.nsites == o + 1 for c in block), f"clusters of order {o + 1} have {o + 1} sites")
            check_list(rec, block, poly.fixed(o + 1), us, mult[inds[o]:inds[o + 1]])
        return
    if case["kind"] == "orbit":
        n = case["n"]
        for f in poly.fixed(n)[case["lo"]:case["hi"]]:
            perms = itertools.permutations(f) if n <= 4 else [f, f[::-1], f[n // 2:] + f[:n // 2]]
            for i, p in enumerate(perms):
                for sh in ((0, 0), (3, -2), (-7, 11), (-120, 7), (64, 253), (1000, -801)) if i == 0 else ((0, 0),):
                    cells = [(x + sh[0], y + sh[1]) for x, y in p]
                    g = poly.geom(cells)
                    # the function compares clusters in sorted order
                    g.permute_sites(g.get_sorting_permutation())
                    part = ed_nlce.get_clusters_rel_by_symmetry(g)
                    got = [poly.norm(poly.cells_of(c)) for c in part]
                    rec.require(len(set(got)) == len(got), f"orbit of {cells} has a cluster twice")
                    rec.require(set(got) == poly.orbit(cells), f"orbit of {cells}: {got}")
                    rec.state(len(got))
                    rec.outcome(n, len(got))
        return
    n, us = case["n"], case["us"]
    if case["kind"] == "grow":
        for f in sorted({poly.free(f) for f in poly.fixed(n)})[case["lo"]:case["lo"] + 12]:
            g = poly.geom(f)
            g.permute_sites(g.get_sorting_permutation())
            nxt, mult = ed_nlce.get_clusters_next_order([g], use_symmetry=us)
            check_list(rec, nxt, poly.grow([f]), us, [int(m) for m in mult])
        return
    shapes = poly.fixed(n)
    for k in range(1, case["max"] + 1):
        for sub in itertools.combinations(shapes, k):
            gs = []
            for s in sub:
                g = poly.geom(s)
                g.permute_sites(g.get_sorting_permutation())
                gs.append(g)
            nxt, mult = ed_nlce.get_clusters_next_order(gs, use_symmetry=us)
            check_list(rec, nxt, poly.grow(sub), us, [int(m) for m in mult])

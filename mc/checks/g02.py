"""Displacements are shortest images, and adjacency is unit distance"""
import itertools
import numpy as np
from mc import geo

PROP = "G02"
BOUNDS = {"quick": "all lattice clusters of G01, all polyomino-like point sets of up to 4 points in a 3x3 box, regular "
                   "polygons with 3..8 sides",
          "thorough": "all lattice clusters of G01 (thorough), point sets of up to 5 points in a 3x4 box, polygons 3..12"}
ASSUMPTIONS = ["images up to 6 (40 for strongly oblique cells) periodicity vectors away are compared"]


def cases(tier):
    out = [{"kind": "polygon", "nsides": n} for n in range(3, 9 if tier == "quick" else 13)]
    box = [(x, y) for x in range(3) for y in range(3 if tier == "quick" else 4)]
    for k in range(1, 5 if tier == "quick" else 6):
        for c in itertools.combinations(box, k):
            out.append({"kind": "points", "pts": [list(p) for p in c]})
    return out + geo.specs(tier)


def cost(c):
    return 1 + (geo.spec_size(c) ** 2 if c["kind"] not in ("polygon", "points") else 4)


def check_common(g, rec):
    n = g.nsites
    xd, yd, adj = np.asarray(g.xdist_mat), np.asarray(g.ydist_mat), np.asarray(g.adjacency_mat)
    for a in (xd, yd, adj):
        rec.require(a.shape == (n, n), "shape of site pair matrix")
    rec.close(xd, -xd.T, "x-displacement is antisymmetric")
    rec.close(yd, -yd.T, "y-displacement is antisymmetric")
    rec.close(adj, adj.T, "adjacency is symmetric")
    return xd, yd, adj


def run(case, rec):
    from exact_diag.ed_geometry import Geometry
    if case["kind"] == "polygon":
        n = case["nsides"]
        g = Geometry.createRegularPolygonGeometry(n)
        xd, yd, adj = check_common(g, rec)
        rec.require(g.nsites == n, "number of sites")
        for i in range(n):
            for j in range(n):
                rec.state()
                ring = min((i - j) % n, (j - i) % n)
                rec.require(adj[i, j] == (1 if ring == 1 else 0), f"polygon adjacency of {i}, {j}")
                d = np.hypot(xd[i, j], yd[i, j])
                rec.close(d, np.sin(np.pi * ring / n) / np.sin(np.pi / n), f"polygon distance of {i}, {j}")
                rec.close([xd[i, j], yd[i, j]], [g.xlocs[i] - g.xlocs[j], g.ylocs[i] - g.ylocs[j]], "displacement")
        rec.outcome(n)
        return
    if case["kind"] == "points":
        xs, ys = zip(*case["pts"])
        g = Geometry.createNonPeriodicGeometry(list(xs), list(ys))
        xd, yd, adj = check_common(g, rec)
        rec.require(g.nsites == len(xs), "number of sites")
        rec.require(list(g.xlocs) == list(xs) and list(g.ylocs) == list(ys), "coordinates are kept in order")
        for i in range(len(xs)):
            for j in range(len(xs)):
                rec.state()
                dx, dy = xs[i] - xs[j], ys[i] - ys[j]
                rec.close([xd[i, j], yd[i, j]], [dx, dy], "displacement")
                rec.require(adj[i, j] == (1 if abs(dx) + abs(dy) == 1 else 0), f"adjacency of sites {i}, {j}")
        rec.close(g.phase_mat, np.ones((len(xs), len(xs))), "phases")
        rec.outcome(adj)
        return
    m = geo.Model(case)
    g = geo.build(case)
    n = g.nsites
    xd, yd, adj = check_common(g, rec)
    w, shifts = m.images()
    for i in range(n):
        for j in range(n):
            rec.state()
            bare = np.array([g.xlocs[i] - g.xlocs[j], g.ylocs[i] - g.ylocs[j]])
            cand = bare + shifts
            ds = np.sqrt(np.sum(cand ** 2, 1))
            got = np.array([xd[i, j], yd[i, j]])
            rec.trans(len(ds))
            rec.require(np.min(np.sqrt(np.sum((cand - got) ** 2, 1))) < 1e-8,
                        lambda: f"displacement {got} of sites {i}, {j} is not a separation of images of the sites")
            rec.require(np.hypot(*got) < np.min(ds) + 1e-8,
                        lambda: f"displacement {got} of sites {i}, {j} is longer than the shortest one, {np.min(ds)}")
            want = 1 if abs(np.min(ds) - 1) < 1e-7 else 0
            rec.require(adj[i, j] == want, f"adjacency of sites {i}, {j} is {adj[i, j]}, expected {want}")
    rec.outcome(adj)

"""Reduction to the unit cell, reciprocal vectors and rejection of malformed lattices"""
import itertools
from fractions import Fraction as Fr
import numpy as np

PROP = "G04"
BOUNDS = {"quick": "all pairs of integer vectors with components -2..2 (zero vectors included), points on a half-integer "
                   "and a third-integer grid of extent 3 and 1e-4 off the integer and half-integer points; both reduction modes; all lattice/periodicity vector "
                   "combinations with components -2..2 for acceptance",
          "thorough": "vectors with components -3..3, points of extent 4"}
ASSUMPTIONS = ["points exactly on a cell boundary belong to the cell above them"]


def vecs(m):
    return [list(v) for v in itertools.product(range(-m, m + 1), repeat=2)]


def cases(tier):
    m = 2 if tier == "quick" else 3
    out = []
    for a in vecs(m):
        for b in vecs(m):
            out.append({"what": "reduce", "a": a, "b": b, "ext": 3 if tier == "quick" else 4})
    for a in vecs(m):
        out.append({"what": "malformed_latt", "a": a, "m": m})
    for a, b in [([1, 0], [0, 1]), ([2, 0], [0, 1]), ([1, 1], [1, -1]), ([2, 0], [0, 2]), ([2, 1], [0, 2]), ([1, 0], [1, 1]),
                 ([3, 0], [0, 1]), ([2, 1], [-1, 2]), ([0, -1], [1, 0])]:
        for p in vecs(m):
            out.append({"what": "malformed_per", "a": a, "b": b, "p": p, "m": m})
    out.append({"what": "malformed_geom"})
    out.append({"what": "irrational"})
    out.sort(key=lambda c: sum(abs(x) for k in "abp" for x in c.get(k, [])))
    return out


def coeffs(a, b, v):
    """exact coefficients of v along a and b. A zero vector has coefficient zero"""
    if not any(a) and not any(b):
        return Fr(0), Fr(0)
    if not any(a):
        return Fr(0), Fr(v[0] * b[0] + v[1] * b[1]) / (b[0] ** 2 + b[1] ** 2)
    if not any(b):
        return Fr(v[0] * a[0] + v[1] * a[1]) / (a[0] ** 2 + a[1] ** 2), Fr(0)
    det = a[0] * b[1] - a[1] * b[0]
    return Fr(v[0] * b[1] - v[1] * b[0]) / det, Fr(v[1] * a[0] - v[0] * a[1]) / det


def floor(f):
    return f.numerator // f.denominator


def run(case, rec):
    from exact_diag import ed_geometry as eg
    w = case["what"]
    if w == "reduce":
        a, b = case["a"], case["b"]
        det = a[0] * b[1] - a[1] * b[0]
        dependent = any(a) and any(b) and det == 0
        if dependent:
            return rec.state()
        r1, r2 = eg.get_reciprocal_vects(a, b)
        r1, r2 = np.asarray(r1, dtype=float).ravel(), np.asarray(r2, dtype=float).ravel()
        rec.close([np.dot(a, r1), np.dot(b, r2)], [float(any(a)), float(any(b))], "v_i . reciprocal_i")
        rec.close([np.dot(a, r2), np.dot(b, r1)], [0, 0], "v_i . reciprocal_j")
        if not any(a):
            rec.close(r1, [0, 0], "reciprocal of zero vector")
            rec.close(r2[0] * b[1] - r2[1] * b[0], 0, "reciprocal vector is along the vector")
        elif not any(b):
            rec.close(r2, [0, 0], "reciprocal of zero vector")
            rec.close(r1[0] * a[1] - r1[1] * a[0], 0, "reciprocal vector is along the vector")
        e = case["ext"]
        pts = [(Fr(i, 2), Fr(j, 2)) for i in range(-2 * e, 2 * e + 1) for j in range(-2 * e, 2 * e + 1)]
        pts += [(Fr(i, 3), Fr(j, 3)) for i in range(-e, 2 * e + 1) for j in range(-e, e + 1)]
        # close to the boundaries of the cells
        eps = Fr(1, 10000)
        pts += [(i + d1 * eps, j + d2 * eps) for i in (-2, 0, 1) for j in (-1, 0, 3) for d1 in (-1, 0, 1) for d2 in (-1, 0, 1)]
        pts += [(Fr(2 * i + 1, 2) + d1 * eps, Fr(j, 2) - d1 * eps) for i in (-2, 0, 1) for j in (-1, 0, 3) for d1 in (-1, 1)]
        xs, ys = [float(p[0]) for p in pts], [float(p[1]) for p in pts]
        for mode, shift in (("positive", Fr(0)), ("centered", Fr(1, 2))):
            if mode == "positive" or not (any(a) and any(b)):
                out = eg.reduce_vectors(a, b, xs, ys, mode=mode)
            else:
                out = eg.reduce_vectors(np.array([a]).T, np.array([b]).T, np.array(xs), np.array(ys), mode)
            xr, yr, n1, n2 = [np.asarray(o, dtype=float).ravel() for o in out]
            rec.require(len(xr) == len(yr) == len(n1) == len(n2) == len(pts), "number of reduced vectors")
            want = [coeffs(a, b, p) for p in pts]
            for k, p in enumerate(pts):
                rec.state()
                m1, m2 = floor(want[k][0] + shift), floor(want[k][1] + shift)
                rec.require(n1[k] == m1 and n2[k] == m2,
                            lambda: f"{mode} reduction of {xs[k], ys[k]} subtracts {n1[k], n2[k]}, expected {m1, m2}")
                ex, ey = p[0] - m1 * a[0] - m2 * b[0], p[1] - m1 * a[1] - m2 * b[1]
                rec.require(abs(xr[k] - float(ex)) < 1e-9 and abs(yr[k] - float(ey)) < 1e-9,
                            lambda: f"{mode} reduction of {xs[k], ys[k]} gives {xr[k], yr[k]}, expected {float(ex), float(ey)}")
            # a single vector is reduced in the same way
            k = (7 * len(pts)) // 11
            one = [np.asarray(o, dtype=float).ravel() for o in eg.reduce_vectors(a, b, xs[k], ys[k], mode=mode)]
            rec.close(np.concatenate(one), [xr[k], yr[k], n1[k], n2[k]], "reduction of a single vector")
            rec.outcome(n1, n2)
        # the same for the unit cell of a lattice
        latt = eg.Lattice([1, 0], [0, 1], [[0, 0]], a, b)
        for mode in ("positive", "centered"):
            got = [np.asarray(o, dtype=float).ravel() for o in latt.reduce_to_unit_cell(xs, ys, mode)]
            ref = [np.asarray(o, dtype=float).ravel() for o in eg.reduce_vectors(a, b, xs, ys, mode)]
            rec.close(np.concatenate(got), np.concatenate(ref), "reduction to the unit cell")
        rec.raises(lambda: eg.reduce_vectors(a, b, xs, ys, mode="nonsense"), ValueError, "unknown mode is accepted")
    elif w == "malformed_latt":
        a = case["a"]
        for b in vecs(case["m"]):
            rec.state()
            det = a[0] * b[1] - a[1] * b[0]
            if det == 0:
                rec.raises(lambda: eg.Lattice(a, b), ValueError, f"lattice vectors {a}, {b} are accepted")
            else:
                latt = eg.Lattice(a, b)
                rec.close(np.concatenate([latt.lattice_vect1.ravel(), latt.lattice_vect2.ravel()]), a + b, "lattice vectors")
    elif w == "malformed_per":
        a, b, p = case["a"], case["b"], case["p"]
        for q in vecs(case["m"]):
            rec.state()
            ok = all(c.denominator == 1 for v in (p, q) for c in coeffs(a, b, v))
            if any(p) and any(q) and p[0] * q[1] - p[1] * q[0] == 0:
                ok = False
            if ok:
                latt = eg.Lattice(a, b, [[0, 0]], p, q)
                rec.close(np.concatenate([latt.periodicity_vect1.ravel(), latt.periodicity_vect2.ravel()]), p + q, "vectors")
            else:
                rec.raises(lambda: eg.Lattice(a, b, [[0, 0]], p, q), ValueError,
                           f"lattice {a}, {b} with periodicity vectors {p}, {q} is accepted")
            rec.outcome(ok)
    elif w == "malformed_geom":
        for n in range(1, 4):
            for f in (eg.Geometry.createSquareGeometry, eg.Geometry.createTriangleGeometry, eg.Geometry.createHexagonalGeometry):
                for o in (True, False):
                    rec.state()
                    rec.raises(lambda: f(1, n, 0, 0, False, o), ValueError, "periodic direction with one site")
                    rec.raises(lambda: f(n, 1, 0, 0, o, False), ValueError, "periodic direction with one site")
        # all 0/1/2 matrices on 2 sites: only symmetric matrices of zeros and ones are adjacency matrices
        for ent in itertools.product((0, 1, 2, -1), repeat=4):
            rec.state()
            adj = np.array(ent).reshape(2, 2)
            ok = ent[1] == ent[2] and set(ent) <= {0, 1}
            fn = lambda: eg.Geometry.createNonPeriodicGeometry([0, 1], [0, 0], adjacency_mat=adj)
            if ok:
                rec.close(fn().adjacency_mat, adj, "given adjacency is used")
            else:
                rec.raises(fn, ValueError, f"adjacency {ent} is accepted")
        for sh in (1, 3):
            rec.raises(lambda: eg.Geometry.createNonPeriodicGeometry([0, 1], [0, 0], adjacency_mat=np.ones((sh, sh))),
                       ValueError, "adjacency of wrong size is accepted")
            rec.raises(lambda: eg.Geometry.createNonPeriodicGeometry([0, 1], [0, 0], phase_mat=np.ones((sh, sh))),
                       ValueError, "phases of wrong size are accepted")
        vals = (1, -1, 1j, -1j, np.exp(0.3j), np.exp(-0.3j), 0.5, 2)
        for ent in itertools.product(vals, repeat=4):
            rec.state()
            ph = np.array(ent).reshape(2, 2)
            ok = np.allclose(ph, ph.conj().T) and np.allclose(np.abs(ph), 1)
            fn = lambda: eg.Geometry.createNonPeriodicGeometry([0, 1], [0, 0], phase_mat=ph)
            if ok:
                rec.close(fn().phase_mat, ph, "given phases are used")
            else:
                rec.raises(fn, ValueError, f"phases {ent} are accepted")
    elif w == "irrational":
        # triangular and hexagonal lattice vectors: integer combinations are recognised, others are not
        s3 = np.sqrt(3)
        for l1, l2 in (((1, 0), (0.5, s3 / 2)), ((1.5, s3 / 2), (1.5, -s3 / 2))):
            l1, l2 = np.array(l1), np.array(l2)
            for n in itertools.product(range(-3, 4), repeat=4):
                rec.state()
                p, q = n[0] * l1 + n[1] * l2, n[2] * l1 + n[3] * l2
                det = n[0] * n[3] - n[1] * n[2]
                if det == 0 and any(n[:2]) and any(n[2:]):
                    rec.raises(lambda: eg.Lattice(l1, l2, [[0, 0]], p, q), ValueError, f"dependent vectors {n} are accepted")
                else:
                    eg.Lattice(l1, l2, [[0, 0]], p, q)
                    if any(n[:2]):
                        rec.raises(lambda: eg.Lattice(l1, l2, [[0, 0]], p + 0.5 * l1, q), ValueError, "not a lattice vector")
                    if any(n[2:]):
                        rec.raises(lambda: eg.Lattice(l1, l2, [[0, 0]], p, q + l2 / 3), ValueError, "not a lattice vector")

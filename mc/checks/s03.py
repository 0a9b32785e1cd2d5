"""Cyclic and translation symmetry projectors split the state space into momentum sectors"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock

PROP = "S03"
BOUNDS = {"quick": "cyclic group of every permutation of up to 4 sites (fermions with 1-2 species, spins 1/2 and 1), rings of up "
                   "to 7 sites; two translations of all periodic rectangles and tilted clusters up to 9 sites (spin 1/2 and "
                   "spinless fermions), and 4 modes x 2 species; every basis state of every sector; for spin 1/2 and spinless fermions also in every sector of given particle number",
          "thorough": "every permutation of up to 5 sites, rings of up to 9 sites, translations of clusters of up to 10 sites"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5"}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 5 + th):
        for p in itertools.permutations(range(n)):
            for m in ("f1", "f2", "s2", "s3"):
                if dim(m, n) <= 256:
                    out.append({"kind": "perm", "m": m, "n": n, "p": list(p)})
    for n in range(5, 8 + 2 * th):
        for k in range(1, n):
            for m in ("f1", "s2"):
                out.append({"kind": "perm", "m": m, "n": n, "p": [(i + k) % n for i in range(n)]})
    for lx, ly in itertools.product(range(2, 6), repeat=2):
        if lx * ly <= (10 if th else 9):
            for m in ("f1", "s2", "f2", "s3"):
                if dim(m, lx * ly) <= (1024 if th else 512):
                    out.append({"kind": "rect", "m": m, "n": lx * ly, "l": [lx, ly]})
    for t in ([2, 1], [1, 2], [2, 2], [1, -2], [2, -1]):
        n = t[0] ** 2 + t[1] ** 2
        for m in ("f1", "s2"):
            out.append({"kind": "tilt", "m": m, "n": n, "t": t})
    if th:
        out += [{"kind": "tilt", "m": m, "n": 10, "t": t} for t in ([3, 1], [1, 3]) for m in ("f1", "s2")]
    return out


def dim(m, n):
    return {"f1": 2, "f2": 4, "s2": 2, "s3": 3}[m] ** n


def cost(c):
    return dim(c["m"], c["n"]) ** 2 * c["n"] + 1000


def make(m, g):
    if m[0] == "f":
        from exact_diag.ed_fermions import fermions
        return fermions(g, 0, 0, nspecies=int(m[1]))
    from exact_diag.ed_spins import spinSystem
    return spinSystem(g, spin=(int(m[1]) - 1) / 2)


def complete(projs, d, rec):
    mats = [p.toarray() if sp.issparse(p) else np.asarray(p) for p in projs]
    for p in mats:
        rec.require(p.ndim == 2 and p.shape[1] == d, f"projector has shape {p.shape}")
    rec.require(sum(p.shape[0] for p in mats) == d, f"sectors have {[p.shape[0] for p in mats]} states, expected {d} in total")
    allp = np.concatenate(mats, 0)
    rec.close(allp.dot(allp.conj().T), np.eye(d), "states of the sectors are orthonormal")
    rec.state(d)
    return mats


def run(case, rec):
    from exact_diag import ed_symmetry as sy
    from exact_diag.ed_geometry import Geometry
    n, d = case["n"], dim(case["m"], case["n"])
    if case["kind"] == "perm":
        g = fock.cluster(NAMES[n]) if n in NAMES else Geometry.createRegularPolygonGeometry(n)
        model = make(case["m"], g)
        cyc = fock.cycles_of(case["p"])
        order = int(np.lcm.reduce([len(c) for c in cyc]))
        t = model.get_xform_op(cyc)
        projs, ks = sy.getZnProjectors(t, order)
        ks = np.asarray(ks)
        rec.require(len(projs) == order and ks.shape == (order,), "one sector per wavevector")
        rec.close(np.exp(1j * ks), np.exp(2j * np.pi * np.arange(order) / order), "wavevectors")
        mats = complete(projs, d, rec)
        td = t.toarray()
        for p, k in zip(mats, ks):
            if p.shape[0]:
                rec.close(td.dot(p.conj().T), np.exp(-1j * k) * p.conj().T, f"states of sector k={k} pick up exp(-ik)", 1e-8)
        rec.outcome(case["m"], [p.shape[0] for p in mats])
        if case["m"] in ("f1", "s2"):
            counts = np.array([sum(fock.occ(k, n)) for k in range(d)])
            for m in range(n + 1):
                idx = np.where(counts == m)[0]
                sub = t[idx][:, idx]
                projs, ks = sy.getZnProjectors(sub, order)
                rec.require(len(projs) == len(ks), "one sector per wavevector")
                mats = complete(projs, len(idx), rec)
                for p, k in zip(mats, ks):
                    if p.shape[0]:
                        rec.close(sub.toarray().dot(p.conj().T), np.exp(-1j * k) * p.conj().T, f"sector k={k} of {m} particles", 1e-8)
        return
    if case["kind"] == "rect":
        lx, ly = case["l"]
        g = Geometry.createSquareGeometry(lx, ly, 0., 0., False, False)
        n1, n2 = lx, ly
    else:
        g = Geometry.createTiltedSquareGeometry(case["t"][0], case["t"][1], 0., 0., False, False)
        n1 = n2 = None
    model = make(case["m"], g)
    c1, o1 = sy.findSiteCycles(sy.getTranslFn(np.array([[1], [0]])), g)
    c2, o2 = sy.findSiteCycles(sy.getTranslFn(np.array([[0], [1]])), g)
    if n1 is not None:
        rec.require((o1, o2) == (n1, n2), "order of the translations")
    t1, t2 = model.get_xform_op(c1), model.get_xform_op(c2)
    two(rec, sy, t1, o1, t2, o2, d, case["m"])
    # the same in the sectors of given particle number or magnetisation, where many momenta have one state or none
    if case["m"] in ("f1", "s2"):
        counts = np.array([sum(fock.occ(k, n)) for k in range(d)])
        for m in range(n + 1):
            idx = np.where(counts == m)[0]
            p = sp.csr_matrix((np.ones(len(idx)), (np.arange(len(idx)), idx)), shape=(len(idx), d))
            two(rec, sy, p * t1 * p.T, o1, p * t2 * p.T, o2, len(idx), case["m"])


def two(rec, sy, t1, o1, t2, o2, d, name):
    projs, k1, k2 = sy.get2DTranslationProjectors(t1, o1, t2, o2)
    rec.require(len(projs) == len(k1) == len(k2), "one wavevector per sector")
    mats = complete(projs, d, rec)
    a, b = t1.toarray(), t2.toarray()
    seen = set()
    for p, x, y in zip(mats, k1, k2):
        rec.require(p.shape[0] > 0, "empty sectors are left out")
        key = (round(o1 * x / 2 / np.pi, 6), round(o2 * y / 2 / np.pi, 6))
        rec.require(key not in seen, f"wavevector {key} occurs twice")
        seen.add(key)
        rec.close(a.dot(p.conj().T), np.exp(-1j * x) * p.conj().T, f"first translation in sector {key}", 1e-8)
        rec.close(b.dot(p.conj().T), np.exp(-1j * y) * p.conj().T, f"second translation in sector {key}", 1e-8)
    rec.outcome(name, sorted((k, p.shape[0]) for k, p in zip(seen, mats)))

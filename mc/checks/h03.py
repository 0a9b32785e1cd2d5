"""Hamiltonians in symmetry sectors: P H P+ for every projector, and the sectors together have the full spectrum"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "H03"
BOUNDS = {"quick": "11 clusters (1-6 sites); fermions with 1-2 species and spins 1/2, 1 up to 256 states; every rotation (2,3,4,6) "
                   "and translation symmetry of the cluster as cyclic group, every rotation with reflection as dihedral group, "
                   "every particle number sector, and generic isometries",
          "thorough": "14 clusters, up to 512 states"}
NAMES = ["site", "dimer", "chain3", "ring3", "poly3", "chain4", "ring4", "plaq", "poly4", "ring5", "poly5"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for nm in NAMES + (["ring6", "lad6", "tri4"] if th else ["ring6"]):
        n = fock.nsites(nm)
        for m in ("f1", "f2", "s2", "s3"):
            if {"f1": 2, "f2": 4, "s2": 2, "s3": 3}[m] ** n <= (512 if th else 256):
                out += [{"c": nm, "m": m, "kind": k} for k in ("iso", "cyc", "dih", "num")]
    return out


def cost(c):
    return {"f1": 2, "f2": 4, "s2": 2, "s3": 3}[c["m"]] ** (2 * fock.nsites(c["c"])) + 1000


def make(case, g, rs, ns=None, uniform=True):
    n = g.nsites
    if case["m"][0] == "f":
        from exact_diag.ed_fermions import fermions
        k = int(case["m"][1])
        if uniform:
            return fermions(g, 3.1 if k > 1 else 0, 1.2, ns=ns, mus=0.3, us_same_species=0.7, nspecies=k)
        t = np.stack([fock.herm(rs, n) for _ in range(k)], 2)
        if n == 1:
            t = 0.
        return fermions(g, rs.uniform(-2, 2, n) if k > 1 else 0, t, ns=ns, mus=rs.uniform(-1, 1, k),
                        potentials=rs.uniform(-1, 1, (n, k)), us_same_species=0.6, nspecies=k)
    from exact_diag.ed_spins import spinSystem
    s = (int(case["m"][1]) - 1) / 2
    if uniform:
        return spinSystem(g, 0.7, -1.1, 0.4, 0.3, 0.2, -0.5, spin=s)
    js = [rs.uniform(-1, 1, (n, n)) for _ in range(3)]
    js = [j + j.T for j in js]
    return spinSystem(g, *js, *[rs.uniform(-1, 1, n) for _ in range(3)], spin=s)


def sectors(model, projs, h, rec, what):
    ev = []
    for p in projs:
        hs = dense(model.createH(projector=p))
        pd = dense(p)
        rec.close(hs, pd.dot(h).dot(pd.conj().T), f"{what}: Hamiltonian in the sector")
        if pd.shape[0]:
            # invariance of the sector
            rec.close(h.dot(pd.conj().T), pd.conj().T.dot(hs), f"{what}: sector is invariant", 1e-8)
            e, _ = model.diagH(model.createH(projector=p))
            ev.append(np.asarray(e))
        rec.state(pd.shape[0])
    ev = np.sort(np.concatenate(ev))
    rec.close(ev, np.linalg.eigvalsh(h), f"{what}: eigenvalues of all sectors", 1e-8)
    rec.outcome(what, len(projs))


def run(case, rec):
    from exact_diag import ed_symmetry as sy
    g = fock.cluster(case["c"])
    n = g.nsites
    rs = rng(case)
    if case["kind"] == "iso":
        model = make(case, g, rs, uniform=False)
        h = dense(model.createH())
        d = h.shape[0]
        q, _ = np.linalg.qr(rs.uniform(-1, 1, (d, d)) + 1j * rs.uniform(-1, 1, (d, d)))
        for k in sorted({1, 2, d // 2, d} - {0}):
            p = q[:, :k].conj().T
            hs = model.createH(projector=sp.csr_matrix(p))
            rec.close(hs, p.dot(h).dot(p.conj().T), "Hamiltonian in a subspace")
            rec.state(k)
        rec.outcome(case["c"], case["m"])
        return
    if case["kind"] == "num":
        if case["m"][0] != "f":
            # magnetisation is not conserved; states with given magnetisation still give P H P+
            model = make(case, g, rs, uniform=False)
            h = dense(model.createH())
            projs, _ = model.get_subspace_projs(sp.csr_matrix(model.get_sum_op(model.sz)))
            for p in projs:
                rec.close(model.createH(projector=p), dense(p).dot(h).dot(dense(p).conj().T), "Hamiltonian of a magnetisation")
                rec.state(p.shape[0])
            return
        k = int(case["m"][1])
        h = None
        ev = []
        for ns in itertools.product(range(n + 1), repeat=k):
            model = make(case, g, rng(case), ns=np.array(ns), uniform=False)
            if h is None:
                h = dense(model.createH())
            p = model.n_projector
            hs = dense(model.createH(projector=p))
            pd = dense(p)
            rec.close(hs, pd.dot(h).dot(pd.conj().T), f"Hamiltonian with {ns} particles")
            ev.append(np.linalg.eigvalsh(hs))
            rec.state(pd.shape[0])
        rec.close(np.sort(np.concatenate(ev)), np.linalg.eigvalsh(h), "eigenvalues of all particle numbers", 1e-8)
        return
    model = make(case, g, rs)
    h = dense(model.createH())
    cx, cy = [float(np.squeeze(c)) for c in g.get_center_of_mass()]
    fns = []
    for k in sorted({2, 3, 4, 5, 6, 7}):
        fns.append((f"rot{k}", k, sy.getRotFn(k, cx=cx, cy=cy)))
    for v in ([1, 0], [0, 1], [1, 1], [1, -1]):
        fns.append((f"transl{v}", 0, sy.getTranslFn(np.array(v))))
    adj = np.asarray(g.adjacency_mat)
    good = []
    for name, k, fn in fns:
        try:
            cyc, order = sy.findSiteCycles(fn, g)
        except Exception:
            continue
        perm = {a: b for c in cyc for a, b in zip(c, c[1:] + c[:1])}
        if all(adj[perm[i], perm[j]] == adj[i, j] for i in range(n) for j in range(n)):
            good.append((name, k, cyc, order))
    if case["kind"] == "cyc":
        for name, k, cyc, order in good:
            projs, _ = sy.getZnProjectors(model.get_xform_op(cyc), order)
            sectors(model, projs, h, rec, f"{case['c']} {case['m']} {name}")
        return
    refl = []
    for v in ([1, 0], [0, 1], [1, 1], [1, -1]):
        try:
            refl.append((v, sy.findSiteCycles(sy.getReflFn(np.array(v), cx=cx, cy=cy), g)[0]))
        except Exception:
            continue
    group = {2: sy.getD2Projectors, 3: sy.getD3Projectors, 4: sy.getD4Projectors, 5: sy.getD5Projectors, 6: sy.getD6Projectors}
    for name, k, cyc, order in good:
        if k in group:
            for v, rc in refl:
                projs = group[k](model.get_xform_op(cyc), model.get_xform_op(rc))
                sectors(model, projs, h, rec, f"{case['c']} {case['m']} {name} with reflection {v}")

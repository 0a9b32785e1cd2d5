"""Expectation values, overlaps, norms, site-resolved expectation values and correlators"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "M01"
BOUNDS = {"quick": "fermions with 1-2 species (up to 6 modes) and spins 1/2, 1 (up to 4 sites): every single site operator, every pair of "
                   "sites and species; states as one vector, several real or complex columns, sparse columns (csc, csr), operators dense and sparse; no projector, every particle number "
                   "sector and a generic subspace; explicit and default site lists",
          "thorough": "up to 8 modes, 5 spins"}
ASSUMPTIONS = ["expectation values are those of hermitian products (the real part is reported)"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for nm in ("site", "dimer", "ell3", "tee4") + (("poly5",) if th else ()):
        n = fock.nsites(nm)
        for m in ("f1", "f2", "s2", "s3"):
            d = {"f1": 2, "f2": 4, "s2": 2, "s3": 3}[m] ** n
            if d <= (256 if th else 81):
                for p in ("none", "iso") + (("num",) if m[0] == "f" else ()):
                    for st in ("one", "dense", "sparse", "csr", "real"):
                        out.append({"c": nm, "m": m, "p": p, "st": st})
    return out


def cost(c):
    return {"f1": 2, "f2": 4, "s2": 2, "s3": 3}[c["m"]] ** (2 * fock.nsites(c["c"])) + 300


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    g = fock.cluster(case["c"])
    n = g.nsites
    rs = rng(case)
    k = int(case["m"][1])
    if case["m"][0] == "f":
        model = fermions(g, 1.0 if k > 1 else 0, 1.0, nspecies=k)
        f = fock.Fermi(n, k)
        d = f.dim
        species = list(range(k))
        single = {}
        for s in species:
            for i in range(n):
                single[i, s] = [("n", model.n_op, "boson", f.num(i, s)),
                                ("diag", np.diag([0.4, -1.1]), "boson", 0.4 * np.eye(d) - 1.5 * f.num(i, s)),
                                ("x", model.c_op + model.cdag_op, "fermion", f.c(i, s) + f.cd(i, s))]
        pair_ops = [("n", "n", model.n_op, model.n_op, "boson", lambda i, s, j, t: f.num(i, s).dot(f.num(j, t))),
                    ("c+", "c", model.cdag_op, model.c_op, "fermion", lambda i, s, j, t: f.cd(i, s).dot(f.c(j, t))),
                    ("c", "c+", model.c_op, model.cdag_op, "fermion", lambda i, s, j, t: f.c(i, s).dot(f.cd(j, t)))]
    else:
        model = spinSystem(g, spin=(k - 1) / 2)
        d = k ** n
        species = [0]
        sx, sy, sz, spl, smi = fock.spin_mats((k - 1) / 2)
        single = {(i, 0): [("sx", model.sx, "boson", fock.embed({i: sx}, n, k)), ("sy", model.sy, "boson", fock.embed({i: sy}, n, k)),
                           ("sz", model.sz, "boson", fock.embed({i: sz}, n, k))] for i in range(n)}

        def prod(a, b):
            return lambda i, s, j, t: fock.embed({i: a}, n, k).dot(fock.embed({j: b}, n, k))
        pair_ops = [("sz", "sz", model.sz, model.sz, "boson", prod(sz, sz)), ("sx", "sy", model.sx, model.sy, "boson", prod(sx, sy)),
                    ("s+", "s-", model.splus, model.sminus, "boson", prod(spl, smi))]
    # subspace
    if case["p"] == "none":
        projs = [None]
    elif case["p"] == "iso":
        q, _ = np.linalg.qr(rs.uniform(-1, 1, (d, d)) + 1j * rs.uniform(-1, 1, (d, d)))
        projs = [sp.csr_matrix(q[:, :m].conj().T) for m in sorted({1, max(1, d // 2)})]
    else:
        projs = []
        for ns in itertools.product(range(n + 1), repeat=k):
            projs.append(fermions(g, 0, 1.0, ns=np.array(ns), nspecies=k).n_projector)
    for pr in projs:
        pd = np.eye(d) if pr is None else dense(pr)
        r = pd.shape[0]
        nst = 1 if case["st"] == "one" else 3
        psi = rs.uniform(-1, 1, (r, nst)) + 1j * rs.uniform(-1, 1, (r, nst))
        phi = rs.uniform(-1, 1, (r, 2)) + 1j * rs.uniform(-1, 1, (r, 2))
        if case["st"] == "real":
            psi, phi = psi.real.copy(), phi.real.copy()
        form = {"sparse": sp.csc_matrix, "csr": sp.csr_matrix}.get(case["st"], np.array)
        states = psi[:, 0] if case["st"] == "one" else form(psi)
        low = lambda o: pd.dot(o).dot(pd.conj().T)
        ev = lambda o: np.sum(psi.conj() * low(o).dot(psi), axis=0).real
        rec.state(r)
        rec.close(model.get_norms(states), np.sum(np.abs(psi) ** 2, axis=0), "squared norms")
        rec.close(model.get_overlaps(states, phi), psi.conj().T.dot(phi), "overlaps")
        rec.close(model.get_overlaps(phi, states), phi.conj().T.dot(psi), "overlaps with exchanged arguments")
        rec.close(model.get_overlaps(states, form(phi)), psi.conj().T.dot(phi), "overlaps of states in the same form")
        rec.close(model.get_overlaps(states, states), psi.conj().T.dot(psi), "overlaps of states with themselves")
        for op in (sp.csr_matrix, sp.csc_matrix, np.array) if case["st"] not in ("sparse", "csr") else (sp.csr_matrix, sp.csc_matrix):
            hm = fock.herm(rs, r)
            rec.close(model.get_exp_vals(states, op(hm)), np.sum(psi.conj() * hm.dot(psi), axis=0).real, "expectation values")
        sub = [sp.csr_matrix(np.eye(r)[sorted(rs.permutation(r)[:m])]) for m in sorted({1, (r + 1) // 2, r})]
        wts = [np.sum(np.abs(dense(x).dot(psi)) ** 2, axis=0) for x in sub]
        rec.close(model.get_subspace_overlaps(states, sub), np.array(wts), "weights in several subspaces")
        rec.close(model.get_subspace_overlaps(states, sub[0]), wts[0], "weight in one subspace")
        u, _ = np.linalg.qr(rs.uniform(-1, 1, (r, r)) + 1j * rs.uniform(-1, 1, (r, r)))
        cut = [sp.csr_matrix(u[:, a:b].conj().T) for a, b in ((0, (r + 1) // 2), ((r + 1) // 2, r)) if b > a]
        wts = [np.sum(np.abs(dense(x).dot(psi)) ** 2, axis=0) for x in cut]
        rec.close(model.get_subspace_overlaps(states, cut), np.array(wts), "weights in complex subspaces")
        rec.close(model.get_subspace_overlaps(states, cut[0]), wts[0], "weight in a complex subspace")
        rec.close(model.get_overlaps(phi[:, 0], phi), phi[:, :1].conj().T.dot(phi), "overlaps of one state")
        hm = fock.herm(rs, r)
        rec.close(model.get_exp_vals(states, sp.csr_matrix(hm)), np.sum(psi.conj() * hm.dot(psi), axis=0).real, "expectation values")
        if case["st"] != "one":
            gen = rs.uniform(-1, 1, (r, r)) + 1j * rs.uniform(-1, 1, (r, r))
            rec.close(model.get_matrix_elems(states, sp.csr_matrix(gen)), psi.conj().T.dot(gen).dot(psi), "matrix elements")
        kw = {} if pr is None else {"projector": pr}
        for s in species:
            for idx in range(3):
                _, op, fmt, _ = single[0, s][idx]
                for sites in (None, [n - 1], list(range(n))[::-1]):
                    got, ss = model.get_exp_vals_sites(states, op, s, sites=sites, format=fmt, **kw)
                    ref = list(range(n)) if sites is None else sites
                    rec.require(list(ss) == ref, f"sites {ss}")
                    want = np.array([ev(single[i, s][idx][3]) for i in ref])
                    rec.close(got, want, f"expectation value of {single[0, s][idx][0]} at sites {ref}")
        for (na, nb, a, b, fmt, ref) in pair_ops:
            for s, t in itertools.product(species, repeat=2):
                got, s1, s2 = model.get_corr_sites(states, s, t, a, b, format=fmt, **kw)
                pairs = set(zip([int(x) for x in s1], [int(x) for x in s2]))
                rec.require(len(pairs) == len(s1) == n * (n + 1) // 2 and {frozenset(p) for p in pairs} ==
                            {frozenset((i, j)) for i in range(n) for j in range(i + 1)}, "every pair of sites once by default")
                want = np.array([ev(ref(i, s, j, t)) for i, j in zip(s1, s2)])
                rec.close(got, want, f"correlator {na} {nb} of species {s}, {t}")
                allp = list(itertools.product(range(n), repeat=2))
                got, s1, s2 = model.get_corr_sites(states, s, t, a, b, sites1=[x[0] for x in allp], sites2=[x[1] for x in allp],
                                                   format=fmt, **kw)
                want = np.array([ev(ref(i, s, j, t)) for i, j in allp])
                rec.close(got, want, f"correlator {na} {nb} of species {s}, {t} for all ordered pairs")
                rec.state(len(allp))
    rec.outcome(case["c"], case["m"], case["p"])

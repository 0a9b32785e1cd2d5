"""Thermal weights and thermal expectation values"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "T01"
BOUNDS = {"quick": "every sorted spectrum of up to 4 levels with energies 0,1,2 (every degeneracy pattern), shifted by -1000, -1, 0, 3, 1000; "
                   "temperatures 0, 0.001, 0.3, 1, 50, -0.7, -20, each alone and together; generic observables; site-resolved averages of "
                   "6 models, without projector, in every number sector, and in complex subspaces; zero temperature averages of 24 diagonalised rings "
                   "(spins with coupling 1, 20; fermions with interaction 0, 8, 40), most of them with a degenerate ground state",
          "thorough": "up to 6 levels with energies 0..3; 10 models; 40 rings"}
TEMPS = [0., 0.001, 0.3, 1., 50.]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 7 if th else 5):
        for e in itertools.combinations_with_replacement(range(4 if th else 3), n):
            out.append({"kind": "levels", "e": list(e)})
    for nm in ("dimer", "ell3", "poly3") + (("plaq", "ring4") if th else ()):
        for m in ("f1", "f2", "s2"):
            if {"f1": 2, "f2": 4, "s2": 2}[m] ** fock.nsites(nm) <= 256:
                for p in ("none", "num", "iso"):
                    if not (m == "s2" and p == "num"):
                        out.append({"kind": "model", "c": nm, "m": m, "p": p})
    for n in (3, 4, 5, 6, 7) + ((8, 9) if th else ()):
        for j in (1., 20.):
            for hz in (0., 0.3):
                if n < 9 or j > 1:
                    out.append({"kind": "ground", "m": "s", "n": n, "j": j, "hz": hz})
    for n in (2, 3) + ((4,) if th else ()):
        for u in (0., 8., 40.):
            for half in (0, 1):
                out.append({"kind": "ground", "m": "f", "n": n, "u": u, "half": half})
    return out


def cost(c):
    if c["kind"] == "ground":
        return (8. if c["m"] == "s" else 64.) ** c["n"] / 100 + 20
    return 10 if c["kind"] == "levels" else 4 ** (fock.nsites(c["c"]) * (2 if c["m"] == "f2" else 1)) / 4 + 50


def weights(e, t):
    """normalised Boltzmann weights; at zero temperature, equal weights of all ground states"""
    e = np.asarray(e, dtype=float)
    x = e - e.min()
    w = np.array([1.0 if a < 1e-9 else 0.0 for a in x]) if t == 0 else np.exp(-x / t)
    return w / np.sum(w), np.sum(w)


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    rs = rng(case)
    if case["kind"] == "levels":
        model = spinSystem(fock.cluster("dimer"))
        n = len(case["e"])
        q, _ = np.linalg.qr(rs.uniform(-1, 1, (n, n)) + 1j * rs.uniform(-1, 1, (n, n)))
        op = fock.herm(rs, n)
        for shift in (-1000., -1., 0., 3., 1000.):
            e = np.array(case["e"], dtype=float) + shift
            want = []
            for t in TEMPS:
                p, z = weights(e, t)
                w, zz = model.get_thermal_weights(e, t, use_energies_offset=True)
                rec.close(np.asarray(w) / zz, p, f"probabilities at temperature {t}")
                rec.close(zz, z, f"partition function relative to the ground state at temperature {t}")
                if t != 0 and abs(shift) / t < 500:
                    w, zz = model.get_thermal_weights(e, t)
                    rec.close(w, np.exp(-e / t), f"Boltzmann factors at temperature {t}")
                    rec.close(zz, np.sum(np.exp(-e / t)), f"partition function at temperature {t}")
                want.append(np.sum(p * np.diag(q.conj().T.dot(op).dot(q)).real))
                rec.close(model.get_exp_vals_thermal(q, sp.csr_matrix(op), e, t), want[-1], f"thermal average at temperature {t}")
                rec.state(n)
            # inverted populations: negative temperature
            for t in (-0.7, -20.):
                b = np.exp(-(e - e[0]) / t)
                w, zz = model.get_thermal_weights(e, t, use_energies_offset=True)
                rec.close(np.asarray(w) / zz, b / np.sum(b), f"probabilities at temperature {t}")
                rec.close(model.get_exp_vals_thermal(q, sp.csr_matrix(op), e, t), np.sum(b * np.diag(q.conj().T.dot(op).dot(q)).real) / np.sum(b),
                          f"thermal average at temperature {t}")
            rec.close(model.get_exp_vals_thermal(q, sp.csr_matrix(op), e, TEMPS), want, "thermal averages at several temperatures")
            w, zz = model.get_thermal_weights(e, np.array(TEMPS), use_energies_offset=True)
            rec.close(np.asarray(w) / np.asarray(zz)[None, :], np.array([weights(e, t)[0] for t in TEMPS]).T, "probabilities at several temperatures")
        rec.outcome(case["e"])
        return
    if case["kind"] == "ground":
        return ground(case, rec, rs)
    g = fock.cluster(case["c"])
    n = g.nsites
    k = int(case["m"][1])
    temps = [0.2, 1., 7.]
    if case["m"][0] == "f":
        base = fermions(g, 2.2 if k > 1 else 0, 1.0, mus=0.15, us_same_species=0.3, potentials=rs.uniform(-.3, .3, (n, k)), nspecies=k)
        f = fock.Fermi(n, k)
        ops = {s: [(base.n_op, "boson", [f.num(i, s) for i in range(n)]),
                   (base.c_op + base.cdag_op, "fermion", [f.c(i, s) + f.cd(i, s) for i in range(n)])] for s in range(k)}
        pair = [(base.n_op, base.n_op, "boson", lambda i, s, j, t: f.num(i, s).dot(f.num(j, t))),
                (base.cdag_op, base.c_op, "fermion", lambda i, s, j, t: f.cd(i, s).dot(f.c(j, t)))]
        models = [(base, None)]
        if case["p"] == "num":
            models = [(base, fermions(g, 0, 1.0, ns=np.array(ns), nspecies=k).n_projector) for ns in itertools.product(range(n + 1), repeat=k)]
    else:
        base = spinSystem(g, 0.5, 0.7, 1.1, 0.2, 0.3, -0.1)
        sx, sy, sz, _, _ = fock.spin_mats(0.5)
        ops = {0: [(base.sx, "boson", [fock.embed({i: sx}, n, 2) for i in range(n)]),
                   (base.sz, "boson", [fock.embed({i: sz}, n, 2) for i in range(n)])]}
        pair = [(base.sz, base.sz, "boson", lambda i, s, j, t: fock.embed({i: sz}, n, 2).dot(fock.embed({j: sz}, n, 2)))]
        models = [(base, None)]
    if case["p"] == "iso":
        # sectors of any symmetry: generic complex isometries
        d = 2 ** (n * k) if case["m"][0] == "f" else 2 ** n
        q, _ = np.linalg.qr(rs.uniform(-1, 1, (d, d)) + 1j * rs.uniform(-1, 1, (d, d)))
        models = [(base, sp.csr_matrix(q[:, :r].conj().T)) for r in sorted({1, 2, max(1, d // 2), min(d, 24)})]
    for model, pr in models:
        h = dense(model.createH() if pr is None else model.createH(projector=pr))
        pd = np.eye(h.shape[0]) if pr is None else dense(pr)
        e, v = np.linalg.eigh(h)
        rho = [v.dot(np.diag(weights(e, t)[0])).dot(v.conj().T) for t in temps]
        tr = lambda o: np.array([np.trace(r.dot(pd).dot(o).dot(pd.conj().T)).real for r in rho])
        kw = {} if pr is None else {"projector": pr}
        for s, (op, fmt, refs) in [(s, x) for s in ops for x in ops[s]]:
            for sites in (None, [n - 1], list(range(n))[::-1]):
                got, ss = model.get_thermal_exp_sites(v, e, op, s, temps, sites=sites, format=fmt, **kw)
                ref = list(range(n)) if sites is None else sites
                rec.require(list(ss) == ref, "sites")
                rec.close(got, np.array([tr(refs[i]) for i in ref]), f"thermal averages at sites {ref}")
                rec.state(len(ref))
        for a, b, fmt, ref in pair:
            for s, t in itertools.product(ops, repeat=2):
                got, s1, s2 = model.get_thermal_corr_sites(v, e, s, t, a, b, temps, format=fmt, **kw)
                rec.require({frozenset((int(i), int(j))) for i, j in zip(s1, s2)} == {frozenset((i, j)) for i in range(n) for j in range(i + 1)}
                            and len(s1) == n * (n + 1) // 2, "every pair of sites once")
                rec.close(got, np.array([tr(ref(i, s, j, t)) for i, j in zip(s1, s2)]), f"thermal correlator of species {s}, {t}")
                allp = list(itertools.product(range(n), repeat=2))
                got, _, _ = model.get_thermal_corr_sites(v, e, s, t, a, b, temps, sites1=[x[0] for x in allp], sites2=[x[1] for x in allp],
                                                         format=fmt, **kw)
                rec.close(got, np.array([tr(ref(i, s, j, t)) for i, j in allp]), f"thermal correlator of species {s}, {t}, all pairs")
                rec.state(len(allp))
    rec.outcome(case["c"], case["m"], case["p"])


def ground(case, rec, rs):
    """zero temperature average: trace over the ground space, divided by its dimension"""
    from exact_diag.ed_geometry import Geometry
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    n = case["n"]
    g = Geometry.createSquareGeometry(n, 1, bc1_open=n < 3)
    if case["m"] == "s":
        j = case["j"]
        model = spinSystem(g, j, j, j, hz=case["hz"])
        ops = [model.get_single_site_op(i, 0, o, format="boson") for i in range(n) for o in (model.sz, model.sx)]
    else:
        model = fermions(g, case["u"], 1.0, mus=case["u"] / 2 if case["half"] else 0.)
        ops = [model.get_single_site_op(i, s, model.n_op, format="boson") for i in range(n) for s in (0, 1)]
    h = model.createH()
    e, v = model.diagH(h)
    hd = dense(h)
    en, vn = np.linalg.eigh(hd)
    vn = vn[:, en - en[0] < 1e-8]
    deg = vn.shape[1]
    rec.require(deg == len(en) or en[deg] - en[0] > 1e-4, "the ground space of the reference is not separated")
    w, z = model.get_thermal_weights(e, 0., use_energies_offset=True)
    rec.close(z, deg, "degeneracy of the ground state")
    for op in ops:
        rec.close(model.get_exp_vals_thermal(v, op, e, 0.), np.trace(vn.conj().T.dot(op.dot(vn))).real / deg, "average in the ground space")
        rec.state()
    rec.outcome(case["n"], case["m"], deg)

"""Retarded response functions and optical conductivity have the spectral representation"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng, dense

PROP = "R01"
BOUNDS = {"quick": "every sorted spectrum of 1-4 levels with energies 0,1,2.5 (degenerate levels included at finite temperature) and 6 spectra with narrow gaps, shifted by -2000, -3, 0, 40, 2000; "
                   "bosonic and fermionic; operators with every pattern of real, imaginary and complex matrix elements; temperatures 0, 0.02, 0.4, 3, 500; "
                   "5 frequencies, 2 widths; conductivity of 7 open clusters against the sum rule",
          "thorough": "spectra of up to 5 levels; 10 clusters"}
ASSUMPTIONS = ["zero temperature only with a single ground state", "the weight of each transition is the real part of A_nm B_mn",
               "optical conductivity at frequencies that differ from zero"]
TEMPS = [0., 0.02, 0.4, 3., 500.]
WS = [-2.4, -1., 0.1, 1.1, 2.5]
ETAS = [0.02, 0.5]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        for e in itertools.combinations_with_replacement((0., 1., 2.5), n):
            for pat in ("real", "imag", "complex", "ab"):
                out.append({"kind": "levels", "e": list(e), "pat": pat})
    # narrow gaps, and models with another number of sites and species
    for e in ([0., 0.005], [0., 0.005, 1.], [0., 0.03, 0.07, 0.3], [0., 1., 1.004, 2.5], [0., 0.012, 1., 1.], [-0.3, 0.2, 60., 1300.]):
        for pat in ("real", "imag", "complex", "ab"):
            for m in (["chain3", 1], ["dimer", 2]):
                out.append({"kind": "levels", "e": e, "pat": pat, "m": m})
    for nm in ("dimer", "chain3", "ell3", "split3", "chain4", "tee4", "plaq") + (("tri4", "hex4", "far") if th else ()):
        for ns in (1, 2):
            if fock.nsites(nm) * ns <= (8 if th else 6):
                out.append({"kind": "sum", "c": nm, "ns": ns})
    return out


def cost(c):
    return 10 if c["kind"] == "levels" else 4 ** (fock.nsites(c["c"]) * c["ns"]) / 4 + 50


def lor(w, eta):
    return eta / np.pi / (eta ** 2 + w ** 2)


def response(a, b, e, t, sign, w, eta):
    """pi/Z sum_nm Re(A_nm B_mn) (p_n + sign p_m) delta(w - (E_m - E_n))"""
    n = len(e)
    x = np.asarray(e) - e[0]
    p = np.array([1.] + [0.] * (n - 1)) if t == 0 else np.exp(-x / t) / np.sum(np.exp(-x / t))
    out = 0.
    for i in range(n):
        for j in range(n):
            out += (a[i, j] * b[j, i]).real * (p[i] + sign * p[j]) * lor(w - (x[j] - x[i]), eta)
    return np.pi * out


def run(case, rec):
    from exact_diag.ed_fermions import fermions
    rs = rng(case)
    if case["kind"] == "levels":
        nm, ns = case.get("m", ["chain3", 1])
        model = fermions(fock.cluster(nm), 0, 1.0, nspecies=ns)
        sites = fock.nsites(nm)
        n = len(case["e"])
        a = fock.herm(rs, n)
        if case["pat"] == "real":
            a = a.real.copy()
        if case["pat"] == "imag":
            a = 1j * a.imag
        b = a
        if case["pat"] == "ab":
            a, b = rs.uniform(-1, 1, (2, n, n)) + 1j * rs.uniform(-1, 1, (2, n, n))
        for shift in (-2000., -3., 0., 40., 2000.):
            e = np.array(case["e"]) + shift
            for t in TEMPS:
                if t == 0 and np.sum(np.abs(e - e[0]) < 1e-9) > 1:
                    continue
                for fmt, sign in (("boson", -1), ("fermion", 1)):
                    fn = model.get_response_fn_retarded(a, b, e, t, format=fmt)
                    for w, eta in itertools.product(WS, ETAS):
                        rec.close(fn(w, eta), response(a, b, e, t, sign, w, eta), f"{fmt} response at T={t}, w={w}, eta={eta}")
                        rec.state()
                if case["pat"] == "ab":
                    continue
                # conductivity
                x = e - e[0]
                p = np.array([1.] + [0.] * (n - 1)) if t == 0 else np.exp(-x / t) / np.sum(np.exp(-x / t))
                tot = 0.
                for i in range(n):
                    for j in range(n):
                        if abs(x[i] - x[j]) > 1e-9:
                            tot += abs(a[i, j]) ** 2 * (p[j] - p[i]) / (x[i] - x[j])
                rec.close(model.integrate_conductivity(a, e, t), np.pi / sites * tot, f"integrated conductivity at T={t}")
                fn = model.get_optical_cond_fn(a, e, t)
                for w, eta in itertools.product(WS, ETAS):
                    if t != 0:
                        s = sum(abs(a[i, j]) ** 2 * (p[j] - p[i]) * lor(w - (x[i] - x[j]), eta) / w for i in range(n) for j in range(n))
                    else:
                        s = sum(abs(a[i, 0]) ** 2 * lor(abs(w) - x[i], eta) / x[i] for i in range(n) if x[i] > 1e-9)
                    rec.close(fn(w, eta), np.pi / sites * s, f"conductivity at T={t}, w={w}, eta={eta}")
                    rec.state()
        rec.outcome(case["e"], case["pat"])
        return
    g = fock.cluster(case["c"])
    n, k = g.nsites, case["ns"]
    model = fermions(g, 2.7 if k > 1 else 0, 1.1, mus=0.3, potentials=rs.uniform(-1, 1, (n, k)), us_same_species=0.4, nspecies=k)
    e, v = model.diagH(model.createH())
    for d, dist in (((1, 0), g.xdist_mat), ((0, 1), g.ydist_mat)):
        j = model.get_matrix_elems(v, model.get_current_op(np.array(d)))
        f = fock.Fermi(n, k)
        dd = 0
        for s in range(k):
            for a in range(n):
                for b in range(n):
                    dd = dd + model.ts[a, b, s] * dist[a, b] ** 2 * f.cd(a, s).dot(f.c(b, s))
        dv = np.diag(v.conj().T.dot(dd).dot(v)).real
        for t in (0., 0.4, 3.):
            if t == 0:
                if abs(e[1] - e[0]) < 1e-9:
                    continue
                want = dv[0]
            else:
                p = np.exp(-(e - e[0]) / t)
                want = np.sum(p * dv) / np.sum(p)
            rec.close(model.integrate_conductivity(j, e, t), np.pi / n * want, f"sum rule for the conductivity along {d} at T={t}", 1e-7)
            rec.state(len(e))
    rec.outcome(case["c"], k)

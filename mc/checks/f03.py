"""Thermodynamics and response of the non-interacting gas"""
import numpy as np
from mc.gas import gas, band, levels
from mc.checks.f01 import MUS

PROP = "F03"
BOUNDS = {"quick": "1D lattices of 1..5 sites, 2D lattices of 1x1, 2x2 sites; inverse temperatures 0.3, 1, 4 and 5 chemical potentials; every allowed "
                   "momentum transfer, frequencies 0, 0.35 with broadening 0, 0.2; densities 0.01..0.99 inverted on lattices up to 12 sites; "
                   "response from single particle levels for 1D lattices of 1..12, 2D lattices of 1x1..5x5 sites",
          "thorough": "1D up to 6 sites; 12 densities; single particle levels up to 24 and 7x7 sites"}
ASSUMPTIONS = ["finite temperature", "static response is the thermodynamic one: states of the same energy contribute their limiting value"]
BETAS = [0.3, 1., 4.]
DENS = [0.01, 0.1, 0.3, 0.5, 0.62, 0.9, 0.99]
DENS_T = [0.001, 0.02, 0.05, 0.2, 0.25, 0.45, 0.499, 0.501, 0.6, 0.75, 0.8, 0.999]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, dim in [(n, "1d") for n in range(1, 7 if th else 6)] + [(1, "2d"), (2, "2d")]:
        for b in range(len(BETAS)):
            for m in range(len(MUS)):
                out.append({"kind": "resp", "n": n, "dim": dim, "b": b, "m": m})
    for n, dim in [(1, "1d"), (2, "1d"), (3, "1d"), (7, "1d"), (12, "1d"), (1, "2d"), (2, "2d"), (3, "2d"), (4, "2d")]:
        for b in (0.05, 0.3, 1., 4., 10.):
            out.append({"kind": "mu", "n": n, "dim": dim, "b": b, "th": th})
    for n, dim in [(n, "1d") for n in range(1, 25 if th else 13)] + [(n, "2d") for n in range(1, 8 if th else 6)]:
        for b in range(len(BETAS)):
            out.append({"kind": "big", "n": n, "dim": dim, "b": b})
    out += [{"kind": "big", "n": 81, "dim": "1d", "b": b} for b in range(len(BETAS))]
    for n in (2, 3, 4, 7, 20):
        for dim in ("1d", "2d"):
            out.append({"kind": "dos", "n": n, "dim": dim})
    out.append({"kind": "dos", "n": 300, "dim": "2d"})
    out.append({"kind": "fermi"})
    return out


def cost(c):
    ns = c.get("n", 1) if c.get("dim") == "1d" else c.get("n", 1) ** 2
    return 8. ** min(ns, 6) + 3000 if c["kind"] == "resp" else 5000


def run(case, rec):
    from exact_diag import fermi_gas as fg
    if case["kind"] == "fermi":
        es = np.array([-3., -1., -0.2, 0., 0.4, 1., 2.5])
        for beta in (-0.6, 0., 1e-3, 0.2, 1., 5., 200., 2000., np.inf):
            for mu in (-2., 0., 0.1, 1., 1.7, 3.3):
                if np.isinf(beta) and mu in es:
                    continue
                with np.errstate(all="ignore"):
                    want = np.array([(0. if e > mu else 1.) if np.isinf(beta) else 0.5 * (1 - np.tanh(beta * (e - mu) / 2)) for e in es])
                rec.close(fg.fermi(beta, mu, es), want, f"fermi function, beta {beta}, mu {mu}")
                rec.close(fg.fermi(beta, mu, es.reshape(-1, 1)), want.reshape(-1, 1), "fermi function on a grid")
                rec.close([fg.fermi(beta, mu, e)[0] for e in es], want, "fermi function of a single energy")
                rec.close(fg.fermi(beta, -mu, -es), 1 - want, f"particle hole symmetry, beta {beta}, mu {mu}")
                if np.isinf(beta):
                    on = np.ravel(fg.fermi(beta, es, es))
                    rec.require(np.all((on >= 0) & (on <= 1)), "occupation of a level at the chemical potential at zero temperature")
                if np.isfinite(beta):
                    # derivative of the fermi function with respect to beta (e - mu)
                    dx = -0.25 * (1 - np.tanh(beta * (es - mu) / 2) ** 2)
                    du, de, db = fg.fermi_derivatives(beta, mu, es)
                    rec.close(du, -beta * dx, "derivative with respect to the chemical potential")
                    rec.close(de, beta * dx, "derivative with respect to the energy")
                    rec.close(db, (es - mu) * dx, "derivative with respect to beta")
                    for i, e in enumerate(es):
                        rec.close(fg.fermi_derivatives(beta, mu, e), [-beta * dx[i], beta * dx[i], (e - mu) * dx[i]], "derivatives at a single energy")
                    rec.close(fg.fermi_derivatives(beta, mu, es.reshape(-1, 1))[2], ((es - mu) * dx).reshape(-1, 1), "derivatives on a grid")
                    if 0.2 <= beta <= 5:
                        h = 1e-4
                        f = lambda b, m, e: 0.5 * (1 - np.tanh(b * (e - m) / 2))
                        rec.close(du, (f(beta, mu + h, es) - f(beta, mu - h, es)) / (2 * h), "difference quotient in the chemical potential", tol=1e-6)
                        rec.close(de, (f(beta, mu, es + h) - f(beta, mu, es - h)) / (2 * h), "difference quotient in the energy", tol=1e-6)
                        rec.close(db, (f(beta + h, mu, es) - f(beta - h, mu, es)) / (2 * h), "difference quotient in beta", tol=1e-6)
                rec.state(len(es))
        # broadcasting
        bb = np.array([0.5, np.inf])[:, None]
        rec.close(fg.fermi(bb, 0.1, es[None, :]), np.stack([fg.fermi(0.5, 0.1, es), fg.fermi(np.inf, 0.1, es)]), "fermi function of several temperatures")
        mm = np.array([-2., 0.1, 1.7])
        rec.close(fg.fermi(0.7, mm[:, None], es[None, :]), np.stack([fg.fermi(0.7, m, es) for m in mm]), "fermi function of several chemical potentials")
        rec.close(fg.fermi(np.array([0.7, np.inf, 0.]), mm, 0.4), [fg.fermi(b, m, 0.4)[0] for b, m in zip((0.7, np.inf, 0.), mm)], "fermi function of pairs of temperatures and chemical potentials")
        rec.close(np.array(fg.fermi_derivatives(0.7, mm[:, None], es[None, :])), np.stack([np.array(fg.fermi_derivatives(0.7, m, es)) for m in mm], axis=1), "derivatives for several chemical potentials")
        return
    n, dim = case["n"], case["dim"]
    if case["kind"] == "mu":
        for d in DENS + (DENS_T if case["th"] else []):
            mu = np.ravel(fg.fg_mu(case["b"], d, n, dim))[0]
            rec.require(np.isfinite(mu), f"chemical potential at density {d}")
            es = np.array([e for _, e in levels(n, dim)])
            got = np.mean(0.5 * (1 - np.tanh(case["b"] * (es - mu) / 2)))
            rec.close(got, d, f"density at the chemical potential found for density {d}, beta {case['b']}", tol=1e-8)
            rec.state()
            rec.outcome(round(float(mu), 6))
        dd = np.array(DENS)
        many = fg.fg_mu(case["b"], dd, n, dim)
        rec.require(np.all(np.diff(np.ravel(many)) > 0), "the chemical potential increases with the density")
        bs = np.array([0.3, 1., 2.5])
        one = [np.ravel(fg.fg_mu(b, d, n, dim))[0] for b, d in zip(bs, (0.2, 0.45, 0.8))]
        rec.close(fg.fg_mu(bs, np.array([0.2, 0.45, 0.8]), n, dim), one, "chemical potentials of pairs of temperatures and densities", tol=1e-8)
        one = [np.ravel(fg.fg_mu(b, 0.3, n, dim))[0] for b in bs]
        rec.close(fg.fg_mu(bs, 0.3, n, dim), one, "chemical potentials of several temperatures", tol=1e-8)
        rec.close(fg.fg_mu(np.stack([bs, bs]), 0.3, n, dim), [one, one], "chemical potentials of a grid of temperatures", tol=1e-8)
        rec.close(many, [np.ravel(fg.fg_mu(case["b"], d, n, dim))[0] for d in DENS], "chemical potentials of several densities", tol=1e-8)
        return
    if case["kind"] == "big":
        return big(case, rec, fg, n, dim)
    if case["kind"] == "dos":
        es = np.array([e for _, e in levels(n, dim)])
        if n <= 20:
            for edges in (np.array([-5., 0.05, 5.]), np.array([-4.1, -1.03, -0.52, 0.71, 2.33, 4.1]), np.array([-1.03, 0.03])):
                dos = fg.get_dos(es, edges)
                want = [np.sum((es > a) & (es < b)) / len(es) / (b - a) for a, b in zip(edges[:-1], edges[1:])]
                rec.close(dos, want, f"fraction of states per energy in the bins {edges}")
                rec.close(fg.get_dos(es.reshape(-1, 1), edges), want, "density of states of a grid of energies")
            for lst, w in (([0., 1e-4, 1.], (1e-4, 0.9999, 0.5)), ([[2., 2.], [-1., 2.5]], (0.5, 3., 1.75)), ([3., 3.], (0, 0, 0))):
                rec.close(fg.get_energy_spacing(np.array(lst)), w, f"spacings of the energies {lst}")
            u = np.unique(np.round(es, 11))
            d = np.diff(u)
            rec.close(fg.get_energy_spacing(es), [d.min(), d.max(), d.mean()], "energy spacings", tol=1e-8)
        dos, em = fg.get_dos2(n, dim)
        rec.require(len(dos) == len(em), "one energy per bin")
        span = es.max() - es.min()
        rec.close(np.sum(dos) * span / len(dos), 1., "the density of states is normalised")
        edges = np.linspace(es.min(), es.max(), len(dos) + 1)
        rec.close(em, 0.5 * (edges[1:] + edges[:-1]), "energies of the density of states")
        rec.state(len(es))
        return
    beta, mu = BETAS[case["b"]], MUS[case["m"]]
    g = gas(n, dim)
    lev = levels(n, dim)
    h = 1e-4
    ns = len(g.st)
    dens = [np.trace(g.rho(beta, mu + s * h).dot(g.nop)).real / ns for s in (1, -1)]
    kappa = (dens[0] - dens[1]) / (2 * h)
    rec.close(fg.fg_compressibility(beta, mu, n, dim), kappa, f"compressibility at beta {beta}, mu {mu}", tol=1e-6)
    n2 = np.trace(g.rho(beta, mu).dot(g.nop).dot(g.nop)).real - np.trace(g.rho(beta, mu).dot(g.nop)).real ** 2
    rec.close(fg.fg_compressibility(beta, mu, n, dim), beta * n2 / ns, "compressibility is the number fluctuation")
    # Kubo formula with the exact many body states
    w, v = g.eig(mu)
    p = np.exp(-beta * (w - w.min()))
    p /= p.sum()
    for q, _ in lev:
        nq = sum(np.exp(1j * np.dot(q, s)) * g.f.num(i, 0) for i, s in enumerate(g.st))
        m = np.abs(v.conj().T.dot(nq).dot(v)) ** 2  # |<a|n_q|b>|^2
        de = w[None, :] - w[:, None]  # E_b - E_a
        dp = p[None, :] - p[:, None]  # p_b - p_a
        qq = np.array([q[0], 0.]) if dim == "1d" else np.array(q)
        for om, eta in ((0., 0.), (0., 0.2), (0.35, 0.2), (-0.8, 0.1)):
            if om == 0. and eta == 0.:
                same = np.abs(de) < 1e-8
                x = np.where(same, -beta * np.broadcast_to(p, de.shape), dp / np.where(same, 1., de))
            else:
                x = dp / (om + de + 1j * eta)
            chi = np.sum(m * x) / ns
            if om == 0. and eta == 0.:
                # isothermal response: fluctuations about the mean
                chi += beta * np.abs(np.sum(p * np.diag(v.conj().T.dot(nq).dot(v)))) ** 2 / ns
            got = fg.fg_density_response(beta, mu, qq, om, eta, n, dim)
            rec.close(got, [chi.real, chi.imag], f"density response at momentum {q}, frequency {om}, broadening {eta}, beta {beta}, mu {mu}", tol=1e-8)
            rec.close(fg.fg_magnetic_response(beta, mu, qq, om, eta, n, dim), got, "magnetic response of free particles is the density response")
            rec.state()
            rec.outcome(got[0], got[1])
        if not np.any(q):
            rec.close(fg.fg_density_response(beta, mu, qq, 0., 0., n, dim)[0], -kappa, "long wavelength static response is the compressibility", tol=1e-6)


def big(case, rec, fg, n, dim):
    g = band(n, dim)
    beta = BETAS[case["b"]]
    for mu in MUS:
        f = g.occ(beta, mu)
        kappa = beta * np.mean(f * (1 - f))
        rec.close(fg.fg_compressibility(beta, mu, n, dim), kappa, f"compressibility at beta {beta}, mu {mu}")
        for q in g.ks:
            for om, eta in ((0., 0.), (0., 0.2), (0.35, 0.2), (-0.8, 0.1), (0.3719, 0.)):
                chi = g.chi(beta, mu, q, om, eta)
                forms = [np.array([q[0], 0.]), np.array([q[0]]), q[0], np.array([q[0] - 2 * np.pi, 0.]), np.array([q[0], 1.7])] if dim == "1d" else [np.array(q), q + 2 * np.pi * np.array([1, -1])]
                for qq in forms:
                    got = fg.fg_density_response(beta, mu, qq, om, eta, n, dim)
                    rec.close(got, [chi.real, chi.imag], f"density response at momentum {qq}, frequency {om}, broadening {eta}, beta {beta}, mu {mu}", tol=1e-8)
                rec.state()
        rec.outcome(n, dim, kappa)
        # several temperatures or chemical potentials
        q = g.ks[len(g.ks) // 3]
        for om, eta in ((0., 0.), (0., 0.2), (0.35, 0.2), (-0.8, 0.1)):
            for fn in (fg.fg_density_response, fg.fg_magnetic_response):
                qq = np.array([q[0], 0.]) if dim == "1d" else np.array(q)
                want = [g.chi(b, mu, q, om, eta) for b in BETAS]
                rec.close(fn(np.array(BETAS), mu, qq, om, eta, n, dim), [np.real(want), np.imag(want)], "response at several temperatures", tol=1e-8)
                want = np.array([g.chi(beta, m, q, om, eta) for m in MUS[:4]]).reshape(2, 2)
                rec.close(fn(beta, np.array(MUS[:4]).reshape(2, 2), qq, om, eta, n, dim), [want.real, want.imag], "response for a grid of chemical potentials", tol=1e-8)
                rec.state(2)

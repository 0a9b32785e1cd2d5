"""Imaginary time and frequency Green's functions and linear response transforms"""
import itertools
import numpy as np
from mc.engine import rng

PROP = "K01"
BOUNDS = {"quick": "every spectral function with a single non-zero sample on 8 frequency grids (2..7 points, uniform and not), 8 temperatures, fermionic and bosonic; "
                   "levels -2..2.5, imaginary times over [-beta, beta]; Matsubara cutoffs 1..40; response functions with a single non-zero sample on 8 grids",
          "thorough": "same with 25 temperatures"}
ASSUMPTIONS = ["real frequency zero is excluded where the bosonic function diverges", "beta times the largest frequency below the overflow of exp"]
GRIDS = [[-1.3, 0.7], [-2., -0.5, 1.], [-2.2, -2., -0.4, 0.3, 0.35, 1.1, 3.], [0.1, 0.2, 0.3, 0.4],
         [-0.9, -0.3, 0.3, 0.9], [0.5, 2., 2.5], [-4., -3.5, -1., -0.2, 2.], [-6.123456, -3.000713, -1. / 3, 0.0017, 3.14159265, 6.]]
BETAS = [0.1, 1 / 3, 2 / 3, 1., 10 / 7, 2.5, 22 / 3, 10.]
LEVELS = [-6., -2., -0.5, 0., 0.3, 1., 2.5]


def cases(tier):
    th = tier == "thorough"
    out = []
    for b in BETAS + ([k / 9 for k in range(2, 19)] if th else []):
        out.append({"kind": "mats", "b": b})
        for e in LEVELS:
            out.append({"kind": "level", "b": b, "e": e})
        for g in range(8):
            out.append({"kind": "spec", "b": b, "g": g})
    for g in range(8):
        out.append({"kind": "resp", "g": g})
    return out


def trap(w):
    """weights of the trapezoidal rule"""
    w = np.asarray(w, dtype=float)
    d = np.diff(w)
    out = np.zeros(len(w))
    out[:-1] += d / 2
    out[1:] += d / 2
    return out


def run(case, rec):
    from exact_diag import greens_fns as gf
    rs = rng(case)
    if case["kind"] == "mats":
        b = case["b"]
        for fmt, off in (("fermion", 1), ("boson", 0)):
            for mx in (1, 2.2, 7.3, 30, 40.1):
                want = [(2 * k + off) * np.pi / b for k in range(-2000, 2000)]
                want = [w for w in want if abs(w) < mx]
                if fmt == "boson" and not want:
                    want = [0.]
                got = gf.get_matsubara_frqs(b, mx, fmt)
                rec.close(got, np.sort(want), f"{fmt} frequencies below {mx} at beta {b}")
                rec.state(len(want))
        rec.raises(lambda: gf.get_matsubara_frqs(b, 10, "other"), Exception, "unknown statistics")
        return
    if case["kind"] == "level":
        b, e = case["b"], case["e"]
        taus = np.array([-1., -0.75, -0.5, -0.1, 0.1, 0.3, 0.5, 0.9, 1.]) * b
        f = 1. / (1 + np.exp(b * e))
        want = np.where(taus > 0, -1./(1 + np.exp(-b * e)) * np.exp(-e * taus), f * np.exp(-e * taus))
        got = gf.get_noninteracting_gfn_tau(taus, e, b)
        rec.close(got, want, f"G(tau) of a level at {e}, beta {b}")
        pos = np.array([0.1, 0.25, 0.5, 0.9]) * b
        rec.close(gf.get_noninteracting_gfn_tau(pos - b, e, b), -gf.get_noninteracting_gfn_tau(pos, e, b), "antiperiodicity")
        gw, wn = gf.get_noninteracting_gfn_imagfrq(20, e, b)
        rec.close(wn, gf.get_matsubara_frqs(b, 20), "frequencies")
        rec.close(gw, 1. / (1j * wn - e), f"G(i omega) of a level at {e}, beta {b}")
        rec.outcome(want)
        # both transforms
        n = 400
        t = np.linspace(0, b, n + 1)
        g = -np.exp(-e * t) / (1 + np.exp(-b * e))
        w3 = np.array([-3, -1, 1, 3]) * np.pi / b
        ft = gf.grnfn_imagtime_ft(w3, t, g, b)
        rec.close(ft, 1. / (1j * w3 - e), "transform of G(tau) is G(i omega)", tol=3e-3)
        rec.close(ft, np.array([np.sum(trap(t) * g * np.exp(1j * w * t)) for w in w3]), "transform of G(tau)")
        # points outside of [0, beta] do not contribute
        t2 = np.concatenate(([-0.5 * b, -0.1 * b], t, [1.2 * b]))
        g2 = np.concatenate(([7., -3.], g, [11.]))
        rec.close(gf.grnfn_imagtime_ft(w3, t2, g2, b), ft, "points outside of [0, beta] do not contribute")
        for k in range(5):
            one = np.zeros(5, dtype=complex if k % 2 else float)
            one[k] = 1. - 0.7j if k % 2 else 1.
            t5 = np.array([0., 0.1, 0.35, 0.6, 1.]) * b
            rec.close(gf.grnfn_imagtime_ft(w3, t5, one, b), one[k] * trap(t5)[k] * np.exp(1j * w3 * t5[k]), "transform of a single sample in time")
        for k in range(4):
            one = np.zeros(4, dtype=complex)
            one[k] = 0.3 - 1.1j
            both = np.concatenate((-pos, [0.], pos, [b]))
            for w4 in (w3, np.array([-5, -1, 3, 11]) * np.pi / b, np.array([-4, -2, 0, 2]) * np.pi / b):
                rec.close(gf.grnfn_imagfrq_ft(both, w4, one, b), one[k] * np.exp(-1j * w4[k] * both) / b, "transform of a single sample in frequency")
        rec.close(gf.grnfn_imagfrq_ft(pos[:1], w3[:1], np.array([2. + 0.5j]), b), (2. + 0.5j) * np.exp(-1j * w3[0] * pos[:1]) / b, "transform of a single frequency")
        wm = np.array([(2 * k + 1) * np.pi / b for k in range(-4000, 4000)])
        back = gf.grnfn_imagfrq_ft(pos, wm, 1. / (1j * wm - e), b)
        rec.close(back, -np.exp(-e * pos) / (1 + np.exp(-b * e)), "transform of G(i omega) is G(tau)", tol=2e-3)
        # spectral function: lorentzian of weight 2 pi at the level
        om = np.array([-30., -3., -0.5, 0., 0.2, 1.7, e, 12.])
        for eta in (0.05, 0.8):
            rec.close(gf.get_noninteracting_spectral_fn(om, e, eta), 2 * eta / ((om - e) ** 2 + eta ** 2), "spectral function")
        rec.state(len(taus))
        return
    if case["kind"] == "spec":
        b = case["b"]
        om = np.array(GRIDS[case["g"]])
        wt = trap(om)
        taus = np.array([0., 0.2, 0.5, 1., -0.3, 1.2]) * b
        for fmt, sg in (("fermion", 1.), ("boson", -1.)):
            frqs = gf.get_matsubara_frqs(b, 3 * np.pi / b + 7., fmt)
            kw = gf.get_grnfn_imagfrq_spectralfn_kernel(frqs, om, fmt)
            kt = gf.get_grnfn_imagtime_spectralfn_kernel(taus, b, om, fmt)
            rec.require(kw.shape == (len(frqs), len(om)) and kt.shape == (len(taus), len(om)), "shape of the kernels")
            for k in range(len(om)):
                a = np.zeros(len(om))
                a[k] = 1.7
                want_w = 1.7 * wt[k] / (2 * np.pi) / (1j * frqs - om[k])
                want_t = -1.7 * wt[k] / (2 * np.pi) * np.exp(-om[k] * taus) / (1 + sg * np.exp(-b * om[k]))
                rec.close(kw.dot(a), want_w, f"frequency kernel, {fmt}")
                rec.close(gf.get_grnfn_imagfrq_spectralfn(frqs, om, a), want_w, f"function of imaginary frequency, {fmt}")
                rec.close(kt.dot(a), want_t, f"time kernel, {fmt}")
                rec.close(gf.get_grnfn_imagtime_spectralfn(taus, b, om, a, fmt), want_t, f"function of imaginary time, {fmt}")
                rec.state()
                rec.outcome(want_t)
            a = rs.uniform(0, 2, len(om))
            rec.close(kw.dot(a), gf.get_grnfn_imagfrq_spectralfn(frqs, om, a), "kernel and integral agree (frequency)")
            rec.close(kt.dot(a), gf.get_grnfn_imagtime_spectralfn(taus, b, om, a, fmt), "kernel and integral agree (time)")
            if fmt == "fermion":
                # G(0+) + G(beta-) = -integral of A / 2 pi
                rec.close(kt.dot(a)[0] + kt.dot(a)[3], -np.sum(wt * a) / (2 * np.pi), "jump of G(tau) at tau = 0 is the spectral weight")
        return
    ws = np.array(GRIDS[case["g"]])
    wt = trap(ws)
    ts = np.array([-0.4, 0., 0.3, 2.])
    for k in range(len(ws)):
        chi = np.zeros(len(ws), dtype=complex)
        chi[k] = 0.4 + 0.9j
        rec.close(gf.phi_t(ts, ws, chi), chi[k] * wt[k] * np.exp(-1j * ws[k] * ts) / (2 * np.pi), "response in time of a single sample")
        fld = rs.uniform(-1, 1, len(ws)) + 1j * rs.uniform(-1, 1, len(ws))
        rec.close(gf.obs_kt(ts, ws, chi, fld), fld[k] * chi[k] * wt[k] * np.exp(-1j * ws[k] * ts) / (2 * np.pi), "observable in time of a single sample")
        rec.state()
    for h0, eta in itertools.product((1., -0.3), (0.1, 0.5)):
        rec.close(gf.field_snap_off_w(ws, h0, eta), h0 / (1j * ws + eta), "field switched off suddenly")
    for kk, chi0, d0, d2, gam in itertools.product((0.2, 1.), (1., -2.), (0.5, 2.), (0., 0.3), (0.7, 5., 60., 1e4, np.inf)):
        rate = d0 * kk ** 2 + d2 * kk ** 4
        want = chi0 / (1 - 1j * ws / rate - (0 if np.isinf(gam) else ws ** 2 / (gam * rate)))
        rec.close(gf.chi_hydro(ws, kk, chi0, d0, d2, gam), want, "hydrodynamic susceptibility")
        rec.close(gf.chi_hydro(-ws, kk, chi0, d0, d2, gam), np.conj(want), "susceptibility of a real response")
        rec.outcome(want)

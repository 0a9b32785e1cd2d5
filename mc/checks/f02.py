"""Green's functions of the non-interacting gas"""
import numpy as np
from mc.gas import gas, band, levels
from mc.checks.f01 import seps, MUS

PROP = "F02"
BOUNDS = {"quick": "1D lattices of 1..5 sites, 2D lattices of 1x1, 2x2 sites; inverse temperatures 0, 0.7, 3 and infinity; 5 chemical potentials; times -1.3, -0.2, 0, 0.5, 2; "
                   "every momentum and separation, all five kinds; from single particle levels for 1D lattices of 1..10, 2D lattices of 1x1..4x4 sites",
          "thorough": "1D up to 7 sites; single particle levels up to 20 and 6x6 sites"}
ASSUMPTIONS = ["the time ordered function is compared at non-zero times only, its chemical potential derivative is not implemented"]
BETAS = [0., 0.7, 3., np.inf]
TIMES = [-1.3, -0.2, 0., 0.5, 2.]
KINDS = ["greater", "lesser", "retarded", "advanced", "time-ordered"]


def cases(tier):
    th = tier == "thorough"
    lat = [(n, "1d") for n in range(1, 8 if th else 6)] + [(1, "2d"), (2, "2d")]
    out = [{"n": n, "dim": dim, "b": b, "m": m} for n, dim in lat for b in range(len(BETAS)) for m in range(len(MUS))]
    big = [(n, "1d") for n in range(1, 21 if th else 11)] + [(n, "2d") for n in range(1, 7 if th else 5)]
    return out + [{"n": n, "dim": dim, "b": b, "m": m, "big": 1} for n, dim in big for b in range(len(BETAS)) for m in (1, 3)]


def cost(c):
    ns = c["n"] if c["dim"] == "1d" else c["n"] ** 2
    return 300 * ns if "big" in c else 8. ** ns + 1000


def functions(g, beta, mu, i, t):
    """G(r_i - 0, t) of all kinds"""
    rho = g.rho(beta, mu)
    ct = g.heis(g.f.c(i, 0), mu, t)
    cd = g.f.cd(0, 0)
    gr = -1j * np.trace(rho.dot(ct).dot(cd))
    le = 1j * np.trace(rho.dot(cd).dot(ct))
    return {"greater": gr, "lesser": le, "retarded": (t >= 0) * (gr - le), "advanced": -(t <= 0) * (gr - le),
            "time-ordered": gr if t > 0 else le}


def run(case, rec):
    from exact_diag import fermi_gas as fg
    n, dim = case["n"], case["dim"]
    beta, mu = BETAS[case["b"]], MUS[case["m"]]
    if "big" in case:
        return big(case, rec, fg, n, dim, beta, mu)
    g = gas(n, dim)
    lev = levels(n, dim)
    h = 1e-4
    for t in TIMES:
        ref = [functions(g, beta, mu, i, t) for i in range(len(g.st))]
        der = [[functions(g, beta, mu + s * h, i, t) for s in (1, -1)] for i in range(len(g.st))]
        for r in seps(n, dim):
            i = g.index(r)
            for kind in KINDS:
                if kind == "time-ordered" and t == 0:
                    continue
                got, dgot = fg.fg_realspace_gfn(beta, mu, r, t, n, dim, kind)
                rec.close(got, ref[i][kind], f"{kind} function at separation {r}, time {t}, beta {beta}, mu {mu}")
                rec.outcome(kind, ref[i][kind])
                if kind in ("retarded", "advanced") or kind != "time-ordered" and np.isfinite(beta):
                    want = (der[i][0][kind] - der[i][1][kind]) / (2 * h)
                    rec.close(dgot, want, f"chemical potential derivative of the {kind} function at separation {r}, time {t}", tol=1e-6)
            rec.state()
        for k, e in lev:
            ph = np.array([np.exp(-1j * np.dot(k, s)) for s in g.st])
            kk = np.array(k[0]) if dim == "1d" else np.array(k)
            for kind in KINDS:
                if kind == "time-ordered" and t == 0:
                    continue
                want = np.sum(ph * np.array([x[kind] for x in ref]))
                rec.close(fg.fg_kspace_gfns(beta, mu, kk, t, kind, dim)[0], want, f"{kind} function at momentum {k}, time {t}, beta {beta}, mu {mu}")
        # all momenta at once
        ks = np.array([k[0] for k, _ in lev]) if dim == "1d" else np.array([k for k, _ in lev])
        for kind in KINDS:
            one = [fg.fg_kspace_gfns(beta, mu, ks[i], t, kind, dim)[0] for i in range(len(ks))]
            rec.close(fg.fg_kspace_gfns(beta, mu, ks, t, kind, dim)[0], np.ravel(one), f"{kind} function at several momenta")
            if kind in ("retarded", "advanced") or kind != "time-ordered" and np.isfinite(beta):
                want = [(np.sum(np.exp(-1j * np.dot(np.array(g.st), k)) * np.array([d[0][kind] - d[1][kind] for d in der]))) / (2 * h) for k, _ in lev]
                rec.close(fg.fg_kspace_gfns(beta, mu, ks, t, kind, dim)[1], want, f"chemical potential derivative of the {kind} function at several momenta, time {t}", tol=1e-6)
        if np.isfinite(beta):
            # several temperatures and chemical potentials
            bb, mm = np.array([0.2, 1.1, 2.6, 0.9, 0.4, 3.]), np.array([0.3, -1.2, 0.8, 2.2, -0.1, 0.6])
            r = seps(n, dim)[-1]
            for kind in KINDS:
                one = [fg.fg_realspace_gfn(x, y, r, t, n, dim, kind) for x, y in zip(bb, mm)]
                for sh in ((6,), (2, 3)):
                    rec.close(fg.fg_realspace_gfn(bb.reshape(sh), mm.reshape(sh), r, t, n, dim, kind), np.array(one).T.reshape((2,) + sh), f"{kind} function of pairs of temperatures and chemical potentials")
                one = [fg.fg_realspace_gfn(beta, y, r, t, n, dim, kind) for y in mm]
                rec.close(fg.fg_realspace_gfn(beta, mm, r, t, n, dim, kind), np.array(one).T, f"{kind} function of several chemical potentials")
                rec.state(3)
    rec.raises(lambda: fg.fg_kspace_gfns(beta, mu, ks, 0., "unknown", dim), ValueError, "unknown kind of function")


def big(case, rec, fg, n, dim, beta, mu):
    g = band(n, dim)
    lev = levels(n, dim)
    h = 1e-4
    for t in TIMES:
        for r in seps(n, dim):
            ref = g.gfn(beta, mu, r, t)
            if len(g.st) <= 3:
                full = gas(n, dim)
                other = functions(full, beta, mu, full.index(r), t)
                for kind in KINDS:
                    rec.close(ref[kind], other[kind], "the two reference models agree")
            der = [g.gfn(beta, mu + s * h, r, t) for s in (1, -1)]
            for kind in KINDS:
                if kind == "time-ordered" and t == 0:
                    continue
                got, dgot = fg.fg_realspace_gfn(beta, mu, r, t, n, dim, kind)
                rec.close(got, ref[kind], f"{kind} function at separation {r}, time {t}, beta {beta}, mu {mu}")
                if kind in ("retarded", "advanced") or kind != "time-ordered" and np.isfinite(beta):
                    rec.close(dgot, (der[0][kind] - der[1][kind]) / (2 * h), f"chemical potential derivative of the {kind} function at separation {r}, time {t}", tol=1e-6)
            rec.state()
            rec.outcome(n, dim, ref["greater"])

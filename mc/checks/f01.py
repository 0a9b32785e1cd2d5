"""Density and correlators of the non-interacting gas"""
import itertools
import numpy as np
from mc.gas import gas, band, levels

PROP = "F01"
BOUNDS = {"quick": "1D lattices of 1..5 sites and 2D lattices of 1x1, 2x2 sites; inverse temperatures 0, 0.3, 1, 4, infinity; chemical potentials "
                   "-3.1, -0.7, 0.2, 1.3, 5; every separation (as tuples, lists and arrays; in 1D with any second component); scalar and array arguments; two component observables for every pair of chemical potentials "
                   "up to 4 sites; grids of allowed momenta up to 9x9; the same observables from single particle occupations for 1D lattices of 1..12 and 2D lattices of 1x1..5x5 sites",
          "thorough": "1D up to 7 sites, 2D up to 3x3 sites (one component); occupations up to 30 and 8x8 sites"}
ASSUMPTIONS = ["at zero temperature the chemical potential does not coincide with a level"]
BETAS = [0., 0.3, 1., 4., np.inf]
MUS = [-3.1, -0.7, 0.2, 1.3, 5.]


def cases(tier):
    th = tier == "thorough"
    out = []
    lat = [(n, "1d") for n in range(1, 8 if th else 6)] + [(1, "2d"), (2, "2d")] + ([(3, "2d")] if th else [])
    for n, dim in lat:
        for b in range(len(BETAS)):
            out.append({"kind": "one", "n": n, "dim": dim, "b": b})
            if (n if dim == "1d" else n * n) <= 4:
                for m in range(len(MUS)):
                    out.append({"kind": "two", "n": n, "dim": dim, "b": b, "m": m})
        out.append({"kind": "arrays", "n": n, "dim": dim})
    out.append({"kind": "kv", "n": 14 if th else 9, "dim": "2d"})
    for n, dim in [(n, "1d") for n in range(1, 31 if th else 13)] + [(n, "2d") for n in range(1, 9 if th else 6)]:
        for b in range(len(BETAS)):
            out.append({"kind": "big", "n": n, "dim": dim, "b": b})
    return out


def cost(c):
    ns = c["n"] if c["dim"] == "1d" else c["n"] ** 2
    if c["kind"] == "big":
        return 40 * ns
    return 4. ** ns + 30


def seps(n, dim):
    if dim == "1d":
        return [(r, 0) for r in range(-(n - 1), n)]
    return list(itertools.product(range(-(n - 1), n), repeat=2))


def run(case, rec):
    from exact_diag import fermi_gas as fg
    n, dim = case["n"], case["dim"]
    if case["kind"] == "big":
        return big(case, rec, fg, n, dim)
    if case["kind"] == "kv":
        for nx, ny in itertools.product(range(1, n + 1), repeat=2):
            for mode in ("balanced", "positive"):
                kx, ky, dkx, dky = fg.get_allowed_kvects(nx, ny, mode)
                rec.require(np.shape(kx) == np.shape(ky) == (ny, nx), f"shape of the grid of momenta of a {nx} x {ny} lattice")
                one = [2 * np.pi / m * (np.arange(m) - (m // 2 if mode == "balanced" else 0)) for m in (nx, ny)]
                rec.close(kx, np.tile(one[0][None, :], (ny, 1)), f"kx of a {nx} x {ny} lattice ({mode})")
                rec.close(ky, np.tile(one[1][:, None], (1, nx)), f"ky of a {nx} x {ny} lattice ({mode})")
                rec.close([dkx, dky], [2 * np.pi / nx, 2 * np.pi / ny], "momentum spacings")
                rec.state()
        rec.raises(lambda: fg.get_allowed_kvects(3, 3, "other"), Exception, "unknown range of momenta")
        return
    g = gas(n, dim)
    if case["kind"] == "one":
        beta = BETAS[case["b"]]
        for mu in MUS:
            rho = g.rho(beta, mu)
            n0 = g.f.num(0, 0)
            dens = np.trace(rho.dot(n0)).real
            rec.close(fg.fg_density(beta, mu, n, dim), dens, f"density at beta {beta}, mu {mu}")
            for r in seps(n, dim):
                nj = g.f.num(g.index(r), 0)
                want = np.trace(rho.dot(n0).dot(nj)).real - dens ** 2
                rec.close(fg.fg_corr(beta, mu, r, n, dim), want, f"density correlations at separation {r}, beta {beta}, mu {mu}")
                rec.outcome(want, dens)
            rec.state()
            # occupations of the momentum states
            for k, e in levels(n, dim):
                v = np.array([np.exp(1j * np.dot(k, s)) for s in g.st]) / np.sqrt(len(g.st))
                ck = sum(np.conj(v[i]) * g.f.c(i, 0) for i in range(len(g.st)))
                rec.close(fg.fermi(beta, mu, e), np.trace(rho.dot(ck.conj().T).dot(ck)).real, f"occupation of momentum {k}, beta {beta}, mu {mu}")
        # momenta and density of states
        want = sorted(e for _, e in levels(n, dim))
        for mode in ("balanced", "positive"):
            kx, ky, dkx, dky = fg.get_allowed_kvects(n, n if dim == "2d" else 1, mode)
            got = np.sort(np.ravel(-2 * np.cos(kx) - (2 * np.cos(ky) if dim == "2d" else 0)))
            rec.close(got, want, f"energies of the allowed momenta ({mode})")
            ph = {(round(np.cos(a), 9) + 0., round(np.sin(a), 9) + 0., round(np.cos(b), 9) + 0., round(np.sin(b), 9) + 0.)
                  for a, b in zip(np.ravel(kx), np.ravel(ky))}
            rec.require(len(ph) == kx.size == len(want), "each allowed momentum occurs once")
            lo, hi = (-np.pi, np.pi) if mode == "balanced" else (0, 2 * np.pi)
            rec.require(np.all(kx >= lo - 1e-9) and np.all(kx < hi - 1e-9) and np.all(ky >= lo - 1e-9) and np.all(ky < hi - 1e-9), f"range of the momenta ({mode})")
            rec.close([dkx, dky], [2 * np.pi / n, 2 * np.pi / (n if dim == "2d" else 1)], "momentum spacing")
        return
    if case["kind"] == "two":
        beta, mu1 = BETAS[case["b"]], MUS[case["m"]]
        nd = g.f.dim
        for mu2 in MUS:
            r1, r2 = g.rho(beta, mu1), g.rho(beta, mu2)
            # joint distribution of the occupations of the two species, which are independent
            p1, p2 = np.diag(r1).real, np.diag(r2).real
            o1 = np.array([np.diag(g.f.num(i, 0)) for i in range(len(g.st))])

            def cov(fa, fb):
                """covariance of functions of the occupations of both species"""
                a = fa(o1[:, :, None], o1[:, None, :])
                b = fb(o1[:, :, None], o1[:, None, :])
                p = p1[:, None] * p2[None, :]
                return a, b, p
            for r in seps(n, dim):
                j = g.index(r)
                p = p1[:, None] * p2[None, :]

                def ex(i, fn):
                    return fn(o1[i][:, None], o1[i][None, :])
                s = lambda a, b: a + b - 2 * a * b
                d = lambda a, b: a * b
                z = lambda a, b: a - b
                for fn, name, fun in ((s, "singles", fg.fg_singles_corr), (d, "doubles", fg.fg_doubles_corr), (z, "spin z", fg.fg_sz_corr)):
                    x, y = ex(0, fn), ex(j, fn)
                    want = np.sum(p * x * y) - np.sum(p * x) * np.sum(p * y)
                    rec.close(fun(beta, mu1, mu2, r, n, dim), want, f"{name} correlations at separation {r}, beta {beta}, mu {mu1}, {mu2}")
                    rec.outcome(name, want)
                rec.close(fg.fg_singles(beta, mu1, mu2, n, dim), np.sum(p * ex(0, s)), "density of singles")
                rec.close(fg.fg_doubles(beta, mu1, mu2, n, dim), np.sum(p * ex(0, d)), "density of doubles")
                # 2 Sx = c+_up c_dn + h.c.: <(2Sx)_0 (2Sx)_j>, species factorise
                c0, cj = g.f.c(0, 0), g.f.c(j, 0)
                e = lambda rho, op: np.trace(rho.dot(op))
                want = e(r1, c0.T.dot(cj)) * e(r2, c0.dot(cj.T)) + e(r1, c0.dot(cj.T)) * e(r2, c0.T.dot(cj))
                rec.close(fg.fg_sx_corr(beta, mu1, mu2, r, n, dim), want.real, f"spin x correlations at separation {r}, beta {beta}, mu {mu1}, {mu2}")
            rec.state()
        return
    # array arguments give the values of the single calls
    fns = [lambda b, m: fg.fg_density(b, m, n, dim), lambda b, m: fg.fg_corr(b, m, (1, 0), n, dim), lambda b, m: fg.fg_corr(b, m, (0, 0), n, dim),
           lambda b, m: fg.fg_compressibility(b, m, n, dim), lambda b, m: fg.fg_doubles(b, m, 0.4, n, dim), lambda b, m: fg.fg_singles(b, m, 0.4, n, dim),
           lambda b, m: fg.fg_sx_corr(b, m, m, (1, 0), n, dim), lambda b, m: fg.fg_sx_corr(b, m, 0.4, (1, 0), n, dim),
           lambda b, m: fg.fg_sz_corr(b, m, 0.4, (1, 0), n, dim), lambda b, m: fg.fg_sz_corr(b, 0.4, m, (1, 0), n, dim),
           lambda b, m: fg.fg_singles_corr(b, m, 0.4, (1, 0), n, dim), lambda b, m: fg.fg_singles_corr(b, 0.4, m, (0, 0), n, dim),
           lambda b, m: fg.fg_doubles_corr(b, m, 0.4, (1, 0), n, dim), lambda b, m: fg.fg_doubles_corr(b, 0.4, m, (0, 0), n, dim), lambda b, m: fg.fg_density_response(b, m, np.array([2 * np.pi / n, 0.]), nsites=n, dim=dim)[0]]
    finite = BETAS[:-1]
    for i, f in enumerate(fns):
        single = {(b, m): np.ravel(f(b, m))[0] for b in finite for m in MUS}
        for b in finite:
            rec.close(f(b, np.array(MUS)), [single[b, m] for m in MUS], f"function {i} of several chemical potentials")
        for m in MUS:
            rec.close(f(np.array(finite), m), [single[b, m] for b in finite], f"function {i} of several temperatures")
        rec.close(f(np.array(finite), np.array(MUS[1:])), [single[b, m] for b, m in zip(finite, MUS[1:])], f"function {i} of pairs")
        bb, mm = np.array(finite).reshape(2, 2), np.array(MUS[1:]).reshape(2, 2)
        rec.close(f(bb, mm), [[single[bb[a, c], mm[a, c]] for c in (0, 1)] for a in (0, 1)], f"function {i} of a grid of pairs")
        rec.state(len(single))
    # one dimensional separations are given by the first component, and the defaults are a separation of (1, 0) or (0, 1)
    for b, m in itertools.product(finite, MUS):
        for fn in (lambda *a: fg.fg_corr(b, m, *a, nsites=n, dim=dim), lambda *a: fg.fg_singles_corr(b, m, 0.4, *a, nsites=n, dim=dim),
                   lambda *a: fg.fg_doubles_corr(b, m, 0.4, *a, nsites=n, dim=dim), lambda *a: fg.fg_sz_corr(b, m, 0.4, *a, nsites=n, dim=dim),
                   lambda *a: fg.fg_sx_corr(b, m, 0.4, *a, nsites=n, dim=dim)):
            if dim == "1d":
                for r in range(n):
                    want = fn((r, 0))
                    for y in (1, -2, 5):
                        rec.close(fn((r, y)), want, f"one dimensional separation ({r}, {y})")
                    rec.close(fn(np.array([r, 0])), want, f"separation [{r}, 0] given as an array")
                    rec.close(fn([r, 0]), want, f"separation [{r}, 0] given as a list")
                    rec.state(5)
            elif n > 1:
                rec.close(fn(), fn((1, 0)), "correlations of neighbouring sites by default")
                rec.close(fn((0, 1)), fn((1, 0)), "correlations along both directions")
                rec.state(2)
    rec.raises(lambda: fg.fg_density(np.array([1., 2.]), np.array([1., 2., 3.]), n, dim), Exception, "incompatible numbers of temperatures and chemical potentials")


def big(case, rec, fg, n, dim):
    g = band(n, dim)
    beta = BETAS[case["b"]]
    sp = seps(n, dim)
    mus = [m for m in MUS if not np.isinf(beta) or np.min(np.abs(g.es - m)) > 1e-6]
    for mu in mus:
        dens = np.mean(g.occ(beta, mu))
        if len(g.st) <= 4:
            full = gas(n, dim)
            rho = full.rho(beta, mu)
            for r in sp:
                want = np.trace(rho.dot(full.f.num(0, 0)).dot(full.f.num(full.index(r), 0))).real - dens ** 2
                rec.close(g.cov(beta, mu, r), want, "the two reference models agree")
        rec.close(fg.fg_density(beta, mu, n, dim), dens, f"density at beta {beta}, mu {mu}")
        for r in sp:
            rec.close(fg.fg_corr(beta, mu, r, n, dim), g.cov(beta, mu, r), f"density correlations at separation {r}, beta {beta}, mu {mu}")
            rec.state()
    for mu1, mu2 in ((0.2, 0.2), (-0.7, 1.3), (1.3, -0.7), (-3.1, 0.2)):
        if mu1 not in mus or mu2 not in mus:
            continue
        n1, n2 = np.mean(g.occ(beta, mu1)), np.mean(g.occ(beta, mu2))
        rec.close(fg.fg_singles(beta, mu1, mu2, n, dim), n1 + n2 - 2 * n1 * n2, "density of singles")
        rec.close(fg.fg_doubles(beta, mu1, mu2, n, dim), n1 * n2, "density of doubles")
        for r in sp:
            want = g.two(beta, mu1, mu2, r)
            for w, fun in zip(want, (fg.fg_singles_corr, fg.fg_doubles_corr, fg.fg_sz_corr, fg.fg_sx_corr)):
                rec.close(fun(beta, mu1, mu2, r, n, dim), w, f"{fun.__name__} at separation {r}, beta {beta}, mu {mu1}, {mu2}")
            rec.state()
            rec.outcome(n, dim, want[0])

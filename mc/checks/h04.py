"""Parameters of the wrong shape and unknown options are refused"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "H04"
BOUNDS = {"quick": "every array shape of rank up to 3 with extents 1..n+1 for each model parameter on clusters of n=2, 3 sites (and 1..n^2 for rank 1, 2) "
                   "with 1..3 species; every option argument of the library x 10 wrong words; all pairs of numbers of temperatures and "
                   "chemical potentials up to 4",
          "thorough": "clusters of up to 4 sites, extents up to n+2"}
FPAR = ("ts", "us_interspecies", "us_same_species", "mus", "potentials", "ns")
SPAR = ("jx", "jy", "jz", "hx", "hy", "hz")
WORDS = ("", "x", "Boson", "FERMION", " boson", "fermions", "3d", "1D", "nonsense", "bosonfermion")


def shapes(n, th):
    top = n + (2 if th else 1)
    out = [()]
    for r in (1, 2, 3):
        m = max(top, n * n + 1) if r == 1 else (n * n if r == 2 and n < 4 else top)
        out += list(itertools.product(range(1, m + 1), repeat=r))
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    for nm in ("dimer", "chain3", "ring3t") + (("plaq", "ring4t") if th else ()):
        n = fock.nsites(nm)
        for k in (1, 2, 3) if n < 4 else (1, 2):
            for p in FPAR:
                out.append({"kind": "fermions", "c": nm, "k": k, "p": p, "th": th})
        for p in SPAR:
            out.append({"kind": "spins", "c": nm, "p": p, "th": th})
    for f in sorted(OPTIONS):
        out.append({"kind": "option", "f": f})
    for nb in range(1, 5):
        for nmu in range(1, 5):
            out.append({"kind": "sizes", "b": nb, "m": nmu})
    for nm in ("dimer", "chain3", "ring3", "poly3", "plaq"):
        out.append({"kind": "complex", "c": nm})
    return out


def cost(c):
    return 300 if c["kind"] in ("fermions", "spins") else 20


def verdict(p, sh, n, k):
    """True: documented form, False: fits neither the sites nor the species, None: not specified"""
    size = int(np.prod(sh)) if sh else 1
    if p in ("ts", "us_same_species"):
        if sh in ((), (n, n, k)) or sh == (k,) or (k == 1 and sh == (n, n)):
            return True
        return None if size in (1, k) else False
    if p == "us_interspecies":
        return True if sh in ((), (n,)) else (None if size in (1, n) else False)
    if p == "mus":
        return True if sh in ((), (k,)) else (None if size in (1, k) else False)
    if p == "potentials":
        if sh in ((), (n, k), (k,)) or (k == 1 and sh == (n,)):
            return True
        return None if size in (1, k) else False
    if p == "ns":
        return True if sh == (k,) else (None if size == k else False)
    if p[0] == "j":
        return True if sh in ((n, n), (n,)) else (None if size == n or sh == () else False)
    return True if sh == (n,) else (None if size == n or sh == () else False)


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    kind = case["kind"]
    if kind in ("fermions", "spins"):
        g = fock.cluster(case["c"])
        n, p = g.nsites, case["p"]
        k = case.get("k", 1)
        base = {"us_interspecies": 0, "ts": 1.0} if kind == "fermions" else {}
        for sh in shapes(n, case["th"]):
            ok = verdict(p, sh, n, k)
            if ok is None:
                continue
            if p == "ns":
                val = np.ones(sh, dtype=int)
            else:
                val = np.full(sh, 0. if p == "us_interspecies" and k == 1 else 0.7)
            kw = dict(base)
            kw[p] = val

            def build():
                if kind == "fermions":
                    m = fermions(g, nspecies=k, **kw)
                else:
                    m = spinSystem(g, **kw)
                return m
            if ok:
                h = dense(build().createH())
                rec.close(h, h.conj().T, f"{p} of shape {sh}: hamiltonian is not hermitian")
            else:
                rec.raises(lambda: build().createH(), Exception, f"{p} of shape {sh} is accepted for {n} sites and {k} species")
            rec.state()
        if kind == "spins":
            for val in (None, "1", "x", [0.1] * (n * n + 1), {}, [[0.1] * (n + 1)] * n):
                rec.raises(lambda: spinSystem(g, **{p: val}).createH(), Exception, f"{p} = {val!r} is accepted")
                rec.state()
        rec.outcome(kind, case["c"], p, k)
        return
    if kind == "complex":
        g = fock.cluster(case["c"])
        for k in (1, 2):
            for bad in (1j, 1 + 0.5j, np.array([1j] * k), np.array([1.0] * (k - 1) + [0.3 - 0.2j])):
                rec.raises(lambda: fermions(g, 0, bad, nspecies=k), Exception, f"uniform hopping {bad} is not hermitian, but accepted")
                rec.state()
        return
    if kind == "sizes":
        return sizes(case, rec)
    fn, good = OPTIONS[case["f"]]
    for w in good:
        fn(w)
        rec.state()
    for w in WORDS:
        if w not in good:
            rec.raises(lambda: fn(w), Exception, f"{case['f']}: option {w!r} is accepted")
            rec.state()
    rec.outcome(case["f"])


def sizes(case, rec):
    from exact_diag import fermi_gas as fg
    b = np.linspace(0.4, 1.1, case["b"])
    m = np.linspace(-0.3, 0.8, case["m"])
    ok = case["b"] == case["m"] or 1 in (case["b"], case["m"])
    fns = {"fg_density": lambda: fg.fg_density(b, m, 3, "1d"), "fg_corr": lambda: fg.fg_corr(b, m, [1, 0], 3, "2d"),
           "fg_realspace_gfn": lambda: fg.fg_realspace_gfn(b, m, [1, 0], 0., 3, "2d"),
           "fg_mu": lambda: fg.fg_mu(b, 0.5 + 0.3 * m, 3, "1d"),
           "fg_density_response": lambda: fg.fg_density_response(b, m, [0.3], 0.2, 0.1, 3, "1d"),
           "fg_singles": lambda: fg.fg_singles(b, m, m, 3, "2d"), "fg_doubles": lambda: fg.fg_doubles(b, m, m, 3, "2d"),
           "fg_singles_corr": lambda: fg.fg_singles_corr(b, m, m, [1, 0], 3, "2d"),
           "fg_doubles_corr": lambda: fg.fg_doubles_corr(b, m, m, [1, 0], 3, "2d"),
           "fg_sz_corr": lambda: fg.fg_sz_corr(b, m, m, [1, 0], 3, "2d"), "fg_sx_corr": lambda: fg.fg_sx_corr(b, m, m, [1, 0], 3, "2d")}
    for name, f in fns.items():
        if ok:
            out = f()
            for o in out if isinstance(out, tuple) else (out,):
                rec.require(np.size(o) == max(case["b"], case["m"]) and np.all(np.isfinite(np.asarray(o))),
                            f"{name} with {case['b']} temperatures and {case['m']} chemical potentials: {np.shape(o)}")
        else:
            rec.raises(f, Exception, f"{name} accepts {case['b']} temperatures and {case['m']} chemical potentials")
        rec.state()
    rec.outcome(case["b"], case["m"])


def _m():
    from exact_diag.ed_fermions import fermions
    return fermions(fock.cluster("dimer"), 1., 1.)


def _eig():
    m = _m()
    h = m.createH()
    e, v = m.diagH(h)
    return m, h, e, v


def _resp(w):
    m, h, e, v = _eig()
    a = rng(["resp"]).uniform(-1, 1, (len(e), len(e)))
    return m.get_response_fn_retarded(a, a, e, 1., format=w)


def _gas(name, *a):
    def f(w):
        from exact_diag import fermi_gas as fg
        return getattr(fg, name)(*(x if x is not WORDS else w for x in a))
    return f


def _grn(name, **k):
    def f(w):
        from exact_diag import greens_fns as gf
        return getattr(gf, name)(**{a: (x if x is not WORDS else w) for a, x in k.items()})
    return f


def _thermal(name, w):
    m, h, e, v = _eig()
    return {"exp_sites": lambda: m.get_exp_vals_sites(v, m.n_op, 0, format=w),
            "corr_sites": lambda: m.get_corr_sites(v, 0, 0, m.n_op, m.n_op, format=w, sites1=[0], sites2=[1]),
            "thermal_exp_sites": lambda: m.get_thermal_exp_sites(v, e, m.n_op, 0, [1.], format=w),
            "thermal_corr_sites": lambda: m.get_thermal_corr_sites(v, e, 0, 0, m.n_op, m.n_op, [1.], sites1=[0], sites2=[1], format=w)}[name]()


def _geo(fn):
    def f(w):
        from exact_diag import ed_geometry as eg
        return fn(eg, w)
    return f


BF = ("boson", "fermion")
DIM = ("1d", "2d")
W = np.linspace(-1, 1, 5)
OPTIONS = {
    "get_single_site_op": (lambda w: _m().get_single_site_op(0, 0, _m().c_op, format=w), BF),
    "get_two_site_op": (lambda w: _m().get_two_site_op(0, 0, 1, 0, _m().cdag_op, _m().c_op, format=w), BF),
    "get_two_site_op, descending": (lambda w: _m().get_two_site_op(1, 1, 1, 0, _m().cdag_op, _m().c_op, format=w), BF),
    "get_sum_op": (lambda w: _m().get_sum_op(_m().n_op, 0, format=w), BF),
    "get_sum_op_q": (lambda w: _m().get_sum_op_q(0, [0.1, 0.2], _m().n_op, format=w), BF),
    "get_exp_vals_sites": (lambda w: _thermal("exp_sites", w), BF),
    "get_corr_sites": (lambda w: _thermal("corr_sites", w), BF),
    "get_thermal_exp_sites": (lambda w: _thermal("thermal_exp_sites", w), BF),
    "get_thermal_corr_sites": (lambda w: _thermal("thermal_corr_sites", w), BF),
    "get_response_fn_retarded": (_resp, BF),
    "reduce_vectors": (_geo(lambda eg, w: eg.reduce_vectors([2, 0], [0, 3], [1.], [1.], mode=w)), ("positive", "centered")),
    "get_sorting_permutation": (_geo(lambda eg, w: fock.cluster("plaq").get_sorting_permutation(w)),
                                ("top_alternating", "top_left", "bottom_right")),
    "get_allowed_kvects": (_gas("get_allowed_kvects", 3, 2, WORDS), ("balanced", "positive")),
    "get_dos2": (_gas("get_dos2", 10, WORDS), DIM),
    "fg_density": (_gas("fg_density", 1., 0.2, 3, WORDS), DIM),
    "fg_mu": (_gas("fg_mu", 1., 0.4, 3, WORDS), DIM),
    "fg_compressibility": (_gas("fg_compressibility", 1., 0.4, 3, WORDS), DIM),
    "fg_corr": (_gas("fg_corr", 1., 0.2, [1, 0], 3, WORDS), DIM),
    "fg_realspace_gfn": (_gas("fg_realspace_gfn", 1., 0.2, [1, 0], 0., 3, WORDS), DIM),
    "fg_density_response": (_gas("fg_density_response", 1., 0.2, [0.3, 0.1], 0.1, 0.2, 3, WORDS), DIM),
    "fg_singles": (_gas("fg_singles", 1., 0.2, 0.1, 3, WORDS), DIM),
    "fg_doubles": (_gas("fg_doubles", 1., 0.2, 0.1, 3, WORDS), DIM),
    "fg_singles_corr": (_gas("fg_singles_corr", 1., 0.2, 0.1, [1, 0], 3, WORDS), DIM),
    "fg_doubles_corr": (_gas("fg_doubles_corr", 1., 0.2, 0.1, [1, 0], 3, WORDS), DIM),
    "fg_sz_corr": (_gas("fg_sz_corr", 1., 0.2, 0.1, [1, 0], 3, WORDS), DIM),
    "fg_sx_corr": (_gas("fg_sx_corr", 1., 0.2, 0.1, [1, 0], 3, WORDS), DIM),
    "fg_kspace_gfns, dim 1": (_gas("fg_kspace_gfns", 1., 0.2, [0.3], 0., "greater", WORDS), ("1d",)),
    "fg_kspace_gfns, dim 2": (_gas("fg_kspace_gfns", 1., 0.2, [0.3, 0.2], 0., "greater", WORDS), ("2d",)),
    "fg_kspace_gfns, type": (_gas("fg_kspace_gfns", 1., 0.2, [0.3, 0.2], 0., WORDS, "2d"),
                             ("greater", "lesser", "retarded", "advanced", "time-ordered")),
    "fg_realspace_gfn, type": (lambda w: __import__("exact_diag.fermi_gas", fromlist=["x"]).fg_realspace_gfn(1., 0.2, (1, 0), 0.3, 3, "2d", type=w),
                               ("greater", "lesser", "retarded", "advanced", "time-ordered")),
    "fg_magnetic_response": (_gas("fg_magnetic_response", 1., 0.2, [0.3, 0.1], 0.1, 0.2, 3, WORDS), DIM),
    "get_matsubara_frqs": (_grn("get_matsubara_frqs", beta=1., max_frq=3, format=WORDS), BF),
    "get_grnfn_imagtime_spectralfn": (_grn("get_grnfn_imagtime_spectralfn", taus=np.array([0.1, 0.5]), beta=1., omegas=W + 0.1,
                                           spectral_fn=np.ones(5), format=WORDS), BF),
    "get_grnfn_imagtime_spectralfn_kernel": (_grn("get_grnfn_imagtime_spectralfn_kernel", taus=np.array([0.1, 0.5]), beta=1.,
                                                  omegas=W + 0.1, format=WORDS), BF),
    "get_noninteracting_gfn_tau": (_grn("get_noninteracting_gfn_tau", taus=np.array([0.1]), epsilon_k=0.3, beta=1., format=WORDS), ("fermion",)),
    "get_noninteracting_gfn_imagfrq": (_grn("get_noninteracting_gfn_imagfrq", max_frq_index=3, epsilon_k=0.3, beta=1., format=WORDS), ("fermion",)),
}

"""Hubbard Hamiltonian and its terms, for all forms in which parameters can be given"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng, dense

PROP = "H01"
BOUNDS = {"quick": "13 clusters (1-5 sites, open, periodic, twisted) x 1-3 species (up to 8 modes) x every combination of the forms "
                   "of hopping (5), interspecies (3), same species interaction (4), chemical potential (3), potential (4) up to 3 "
                   "modes and for the dimer, each form alone and one sixth of the combinations of all terms above; up to 6 modes "
                   "also with negative, integer, list, tiny (1e-6), huge (1e5) and partly zero values; "
                   "every matrix element; arrays of up to 14 wrong shapes for each parameter",
          "thorough": "22 clusters up to 6 sites, up to 10 modes, every combination up to 6 modes"}
ASSUMPTIONS = ["hopping matrices given explicitly are hermitian, interaction matrices symmetric",
               "parameter values are one generic choice per form; the Hamiltonian is linear in them"]
TS = ["zero", "scalar", "species", "matrix", "complex"]
US = ["zero", "scalar", "sites"]
SAME = ["zero", "scalar", "species", "matrix"]
MUS = ["zero", "scalar", "species"]
POTS = ["zero", "scalar", "species", "matrix"]
# in which way the numbers are given: other signs, integers, lists, extreme magnitudes, some of them zero
VALS = ["neg", "int", "list", "tiny", "huge", "holes"]


def give(x, val):
    """the numbers x in another form"""
    a = np.asarray(x)
    if val == "neg":
        return -x
    if val == "tiny":
        return 1e-6 * x
    if val == "huge":
        return 1e5 * x
    if val == "int":
        r = np.round(3 * a)
        if np.iscomplexobj(r):
            return r
        return int(r) if a.ndim == 0 else r.astype(int)
    if val == "holes" and a.ndim:
        b = np.array(a)
        b[tuple([0] * a.ndim)] = 0
        if a.ndim > 1 and a.shape[0] == a.shape[1] > 1:
            b[0, 1] = b[1, 0] = 0
        return b
    return x


def as_list(x, val):
    return x.tolist() if val == "list" and isinstance(x, np.ndarray) else x


def cases(tier):
    th = tier == "thorough"
    names = ["site", "dimer", "far", "chain3", "ell3", "split3", "ring3", "ring3t", "poly3", "chain4", "ring4t", "tee4", "tilt5"]
    if th:
        names += ["plaq", "poly4", "tri4", "ring5", "ring5t", "poly5", "ring6", "lad6", "hex4"]
    out = []
    for nm in names:
        n = fock.nsites(nm)
        for ns in (1, 2, 3, 4):
            if n * ns > (10 if th else 8) or (ns == 4 and not th):
                continue
            big = n * ns > (6 if th else 3) and (th or nm != "dimer" or n * ns > 4)
            for f in itertools.product(TS, US, SAME, MUS, POTS):
                if ns == 1 and f[1] != "zero":
                    continue
                if n == 1 and (f[0] in ("matrix", "complex") or f[2] == "matrix"):
                    continue
                if big and sum(x != "zero" for x in f) > 1:
                    # all terms together: every pair of forms of two terms occurs
                    k = [a.index(x) for a, x in zip((TS, US, SAME, MUS, POTS), f)]
                    if sum(x == "zero" for x in f) > (ns == 1) or (k[0] + k[1] + k[2]) % 3 or (k[0] + k[3] + k[4]) % 2:
                        continue
                out.append({"c": nm, "nspecies": ns, "f": list(f)})
                if not big or sum(x != "zero" for x in f) == 1 or n * ns > 6:
                    continue
                out += [{"c": nm, "nspecies": ns, "f": list(f), "val": v} for v in VALS]
            if n * ns <= 6:
                for k, forms in enumerate((TS, US, SAME, MUS, POTS)):
                    for x in forms[1:]:
                        if (k == 1 and ns == 1) or (n == 1 and k in (0, 2) and x in ("matrix", "complex")):
                            continue
                        f = ["zero"] * 5
                        f[k] = x
                        out += [{"c": nm, "nspecies": ns, "f": f, "val": v} for v in VALS]
                    if ns == 1 and n > 1 and k == 0:
                        out.append({"c": nm, "nspecies": 1, "f": ["complex", "zero", "zero", "scalar", "zero"]})
    out += [{"c": nm, "nspecies": ns, "f": ["zero"] * 5, "val": "reject"} for nm in ("chain3", "chain4") for ns in (1, 2)]
    return out


def reject(g, ns, rec):
    """arrays that fit none of the forms are refused"""
    from exact_diag.ed_fermions import fermions
    n = g.nsites
    shapes = [(n,), (n - 1,), (n + 1,), (ns + 1,), (n, n), (n, n, ns), (n, ns), (ns, n), (n, n, ns + 1), (n + 1, n + 1, ns), (n, ns + 1), (n + 1, ns),
              (ns + n,), (n - 1, n, ns)]
    good = {"ts": lambda sh, sz: sz in (1, ns) or sh == (n, n, ns) or (sh == (n, n) and ns == 1),
            "us_interspecies": lambda sh, sz: sz in (1, n),
            "us_same_species": lambda sh, sz: sz in (1, ns) or sh == (n, n, ns) or (sh == (n, n) and ns == 1),
            "mus": lambda sh, sz: sz in (1, ns),
            "potentials": lambda sh, sz: sz in (1, ns) or sh == (n, ns) or (sh == (n,) and ns == 1)}
    for name, ok in good.items():
        for sh in shapes:
            if ok(sh, int(np.prod(sh))):
                continue
            for fill in (0.7 * np.ones(sh), 0.1 + np.arange(np.prod(sh), dtype=float).reshape(sh)):
                kw = {"us_interspecies": 0, "ts": 1.0, "nspecies": ns}
                kw[name] = fill
                rec.raises(lambda: fermions(g, **kw), Exception, f"{name} of shape {sh} for {n} sites and {ns} species")
                rec.state()
    for bad in ([1] * (ns + 1), [1] * (ns - 1), [[1] * (ns + 1)]):
        rec.raises(lambda: fermions(g, 0, 1.0, ns=np.array(bad), nspecies=ns), Exception, f"particle numbers {bad} for {ns} species")


def cost(c):
    return 4 ** (fock.nsites(c["c"]) * c["nspecies"]) + 300


def sym(rs, n):
    a = rs.uniform(-1, 1, (n, n))
    return a + a.T


def params(case, g, rs):
    """arguments for the implementation, and the full arrays they stand for"""
    n, ns = g.nsites, case["nspecies"]
    ft, fu, fs, fm, fp = case["f"]
    val = case.get("val")
    bond = np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat)
    adj = np.asarray(g.adjacency_mat)
    if ft == "zero":
        t, tr = 0, np.zeros((n, n, ns))
    elif ft == "scalar":
        t = give(-1.3, val)
        tr = np.repeat((t * bond)[:, :, None], ns, 2)
    elif ft == "species":
        t = give(rs.uniform(0.3, 2, ns), val)
        tr = np.stack([x * bond for x in t], 2)
    elif ft == "matrix":
        tr = np.stack([give(sym(rs, n), val) for _ in range(ns)], 2)
        t = tr[:, :, 0] if ns == 1 and n > 1 else tr
    else:
        tr = np.stack([give(fock.herm(rs, n), val) for _ in range(ns)], 2)
        t = tr[:, :, 0] if ns == 1 and n > 1 and fm != "zero" else tr
    if fu == "zero":
        u, ur = 0, np.zeros(n)
    elif fu == "scalar":
        u = give(3.7, val)
        ur = u * np.ones(n)
    else:
        u = ur = give(rs.uniform(-3, 3, n), val)
    if fs == "zero":
        s, sr = 0, np.zeros((n, n, ns))
    elif fs == "scalar":
        s = give(0.9, val)
        sr = np.repeat((s * adj)[:, :, None], ns, 2)
    elif fs == "species" or n == 1:
        s = give(rs.uniform(-2, 2, ns), val)
        sr = np.stack([x * adj for x in s], 2)
    else:
        sr = np.stack([give(sym(rs, n), val) for _ in range(ns)], 2)
        s = sr[:, :, 0] if ns == 1 else sr
    if fm == "zero":
        m, mr = 0, np.zeros(ns)
    elif fm == "scalar":
        m = give(0.77, val)
        mr = m * np.ones(ns)
    else:
        m = mr = give(rs.uniform(-2, 2, ns), val)
    if fp == "zero":
        v, vr = 0, np.zeros((n, ns))
    elif fp == "scalar":
        v = give(-0.6, val)
        vr = v * np.ones((n, ns))
    elif fp == "species":
        v = give(rs.uniform(-2, 2, ns), val)
        vr = np.repeat(v[None, :], n, 0)
    else:
        vr = give(rs.uniform(-2, 2, (n, ns)), val)
        v = vr[:, 0] if ns == 1 and n > 1 else vr
    return tuple(as_list(x, val) for x in (t, u, s, m, v)), (tr, ur, sr, mr, vr)


def run(case, rec):
    from exact_diag.ed_fermions import fermions
    g = fock.cluster(case["c"])
    n, ns = g.nsites, case["nspecies"]
    rs = rng(case)
    if case.get("val") == "reject":
        return reject(g, ns, rec)
    (t, u, s, m, v), (tr, ur, sr, mr, vr) = params(case, g, rs)
    tol = 1e-13 if case.get("val") == "tiny" else 1e-9
    model = fermions(g, u, t, mus=m, potentials=v, us_same_species=s, nspecies=ns)
    f = fock.Fermi(n, ns)
    h = dense(model.createH())
    rec.close(h, fock.fermi_h(f, tr, ur, sr, mr, vr), "Hamiltonian", tol)
    rec.close(h, h.conj().T, "Hamiltonian is hermitian", tol)
    for k in range(ns):
        nt = f.ntot(k)
        rec.close(h.dot(nt), nt.dot(h), f"number of species {k} is conserved", tol)
    rec.state(f.dim)
    rec.trans(f.dim)
    # single terms
    z1, z2, z3, zn, zv = np.zeros((n, n, ns)), np.zeros(n), np.zeros((n, n, ns)), np.zeros(ns), np.zeros((n, ns))
    rec.close(model.get_kinetic_op(direction_vect=None), fock.fermi_h(f, tr, z2, z3, zn, zv), "kinetic term", tol)
    for d, dist in (((1, 0), g.xdist_mat), ((0, 1), g.ydist_mat)):
        w = np.abs(np.asarray(dist))[:, :, None] * tr
        rec.close(model.get_kinetic_op(direction_vect=np.array(d)), fock.fermi_h(f, w, z2, z3, zn, zv), f"kinetic term along {d}", tol)
    if ns > 1:
        rec.close(model.get_u_interspecies_op(ur), fock.fermi_h(f, z1, ur, z3, zn, zv), "interspecies interaction", tol)
        rec.close(model.get_u_interspecies_op(1.7), fock.fermi_h(f, z1, 1.7 * np.ones(n), z3, zn, zv), "uniform interaction", tol)
    rec.close(model.get_u_samespecies_op(sr), fock.fermi_h(f, z1, z2, sr, zn, zv), "same species interaction", tol)
    rec.close(model.get_chemical_pot_op(mr), fock.fermi_h(f, z1, z2, z3, mr, zv), "chemical potential", tol)
    rec.close(model.get_potential_op(vr), fock.fermi_h(f, z1, z2, z3, zn, vr), "potential", tol)
    rec.outcome(case["c"], ns, np.round(np.linalg.eigvalsh(h), 6))

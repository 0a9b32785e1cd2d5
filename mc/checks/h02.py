"""Spin Hamiltonian, for all forms in which parameters can be given"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng, dense
from mc.checks.h01 import give

PROP = "H02"
BOUNDS = {"quick": "12 clusters (1-5 sites) x spins 1/2, 1, 3/2, 2 (up to 256 states) x every combination of forms of the three "
                   "couplings (zero, number, matrix, list of bonds) and of the fields (zero, number, per site), with and "
                   "without Rydberg detuning; van der Waals couplings with 8 cutoffs; "
                   "up to 27 states also negative, integer, tiny (1e-6), huge (1e5) and partly zero values; every matrix element",
          "thorough": "15 clusters, up to 729 states"}
ASSUMPTIONS = ["couplings are real and symmetric", "parameter values are one generic choice per form; the Hamiltonian is linear in them"]
J = ["zero", "number", "matrix", "bonds"]
H = ["zero", "number", "sites"]
VALS = ["neg", "int", "tiny", "huge", "holes"]


def cases(tier):
    th = tier == "thorough"
    names = ["site", "dimer", "far", "chain3", "ell3", "ring3", "anti3", "poly3", "split3", "chain4", "plaq", "ring5"]
    if th:
        names += ["tri4", "tee4", "ring6"]
    out = []
    for nm in names:
        n = fock.nsites(nm)
        out.append({"kind": "c6", "c": nm})
        for s in (0.5, 1.0, 1.5, 2.0):
            d = (2 * s + 1) ** n
            if d > (729 if th else 256):
                continue
            for j in itertools.product(J, repeat=3):
                if "bonds" in j and n < 3:
                    continue
                for h in itertools.product(H, repeat=3):
                    k = sum(x != "zero" for x in j) + sum(x != "zero" for x in h)
                    if (d > (30 if th else 8) or not (th or nm in ("site", "dimer", "ell3"))) and k not in (1, 6):
                        continue
                    if d > (80 if th else 8) and k == 6 and len(set(j)) + len(set(h)) > (4 if th else 3):
                        continue
                    out.append({"kind": "h", "c": nm, "s": s, "j": list(j), "h": list(h), "ryd": False})
                    if d <= (80 if th else 27) and (k == 1 or (k == 6 and len(set(j)) + len(set(h)) <= 3)):
                        out += [dict(out[-1], val=v) for v in VALS]
            if s == 0.5:
                for jz in J:
                    if jz == "bonds" and n < 3:
                        continue
                    for h in itertools.product(H, repeat=3):
                        out.append({"kind": "h", "c": nm, "s": s, "j": ["zero", "zero", jz], "h": list(h), "ryd": True})
                        if sum(x != "zero" for x in h) in (0, 3) and jz != "zero":
                            out += [dict(out[-1], val=v) for v in VALS]
    return out


def cost(c):
    return 100 + ((2 * c["s"] + 1) ** (2 * fock.nsites(c["c"])) if c["kind"] == "h" else 0)


def coupling(form, g, rs, val):
    n = g.nsites
    if form == "zero":
        return 0.0, np.zeros((n, n))
    if form == "number":
        x = give(float(rs.uniform(-2, 2)), val)
        return x, x * np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat).real
    if form == "matrix":
        a = rs.uniform(-1, 1, (n, n))
        a = give(a + a.T, val)
        return a, a
    x = give(rs.uniform(-2, 2, n), val)
    a = np.zeros((n, n))
    for i in range(n):
        k = (i + 1) % n
        a[i, k] = a[k, i] = x[i]
    return x, a


def field(form, n, rs, val):
    if form == "zero":
        return 0.0, np.zeros(n)
    if form == "number":
        x = give(float(rs.uniform(-2, 2)), val)
        return x, x * np.ones(n)
    x = give(rs.uniform(-2, 2, n), val)
    return x, x


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    g = fock.cluster(case["c"])
    n = g.nsites
    rs = rng(case)
    if case["kind"] == "c6":
        model = spinSystem(g)
        dist = np.hypot(g.xdist_mat, g.ydist_mat)
        for cut in (None, 0.5, 1., 1.2, 2., 2.1, 3., 10.):
            for c6 in (1.0, -2.5):
                got = model.get_interaction_mat_c6(c6) if cut is None else model.get_interaction_mat_c6(c6, cutoff_dist=cut)
                want = np.array([[c6 / dist[i, k] ** 6 if i != k and dist[i, k] <= (cut or 1.5) else 0. for k in range(n)]
                                 for i in range(n)])
                rec.close(got, want, f"van der Waals couplings with cutoff {cut}")
                rec.state(n * n)
        rec.outcome("c6", n)
        return
    s = case["s"]
    val = case.get("val")
    tol = 1e-13 if val == "tiny" else 1e-9
    jp, jr = zip(*[coupling(f, g, rs, val) for f in case["j"]])
    hp, hr = zip(*[field(f, n, rs, val) for f in case["h"]])
    model = spinSystem(g, *jp, *hp, use_ryd_detunes=case["ryd"], spin=s)
    h = dense(model.createH())
    dim = h.shape[0]
    rec.require(model.nstates == dim == (2 * s + 1) ** n, "number of states")
    if not case["ryd"]:
        want = fock.spin_h(n, s, *jr, *hr)
    else:
        # interactions between excited atoms only, up to a constant
        want = fock.spin_h(n, s, *[np.zeros((n, n))] * 3, *hr)
        nr = np.diag([1., 0.])
        for a in range(n):
            for b in range(a):
                want = want + 2 * jr[2][a, b] * fock.embed({a: nr, b: nr}, n, 2)
        for a in range(n):
            # a coupling of a site to itself only acts as a detuning
            want = want + jr[2][a, a] * fock.embed({a: nr}, n, 2)
        off = np.mean(np.diag(h - want))
        want = want + off * np.eye(dim)
    rec.close(h, want, "Hamiltonian", tol)
    rec.close(h, h.conj().T, "Hamiltonian is hermitian", tol)
    rec.state(dim)
    rec.trans(dim)
    rec.outcome(case["c"], s, np.round(np.linalg.eigvalsh(h), 6))

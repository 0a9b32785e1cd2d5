"""Diagonalisation"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "E01"
BOUNDS = {"quick": "every real symmetric 3x3 matrix with entries -1,0,1 and every hermitian 2x2 matrix with entries from "
                   "{-1,0,1,2} and off-diagonal {0,1,-1,i,-i,1+i}; Hamiltonians of 10 clusters (fermions, spins) up to 256 states; "
                   "partial diagonalisation with every number of eigenvalues 1..6",
          "thorough": "every hermitian 3x3 matrix with diagonal 0,1,2 and off-diagonal from {0,1,-1,i,-i}, Hamiltonians up to 1024 states"}
VALS = ["0", "1", "-1", "1j", "-1j", "1+1j"]


def cases(tier):
    th = tier == "thorough"
    out = [{"kind": "two", "a": a} for a in range(-1, 3)]
    out += [{"kind": "three", "d": list(d), "cplx": th} for d in itertools.product((-1, 0, 1) if not th else (0, 1, 2), repeat=3)]
    for nm in ("site", "dimer", "far", "chain3", "ring3t", "poly4", "ring4t", "plaq", "tee4", "ring5t") + (("tilt5",) if th else ()):
        for m in ("f1", "f2", "s2"):
            d = {"f1": 2, "f2": 4, "s2": 2}[m] ** fock.nsites(nm)
            if d <= (1024 if th else 256) and not (m == "s2" and nm.endswith("t")) and nm != "tilt5" or (th and m == "f1"):
                out.append({"kind": "model", "c": nm, "m": m})
    return out


def cost(c):
    return {"two": 200, "three": 200 if not c.get("cplx") else 800}.get(c["kind"]) or 4 ** (fock.nsites(c["c"]) * (2 if c["m"] == "f2" else 1)) / 10 + 50


def check(model, h, rec, what):
    n = h.shape[0]
    e, v = model.diagH(sp.csr_matrix(h))
    e, v = np.asarray(e), np.asarray(v)
    rec.require(e.shape == (n,) and v.shape == (n, n), f"{what}: all {n} eigenvalues and vectors")
    rec.require(not np.iscomplexobj(e), f"{what}: eigenvalues are real")
    rec.require(bool(np.all(np.diff(e) >= -1e-12)), f"{what}: eigenvalues are sorted")
    rec.close(v.conj().T.dot(v), np.eye(n), f"{what}: eigenvectors are orthonormal")
    rec.close(h.dot(v), v * e, f"{what}: eigenvectors")
    rec.state(n)
    return e, v


def partial(model, h, e, rec, ks):
    n = h.shape[0]
    for k in ks:
        if k < n - 1:
            ep, vp = model.diagH(sp.csr_matrix(h), neigs=k, use_sparse=True)
            ep, vp = np.asarray(ep), np.asarray(vp)
            rec.require(ep.shape == (k,) and vp.shape == (n, k), f"{k} eigenvalues were asked for")
            rec.require(bool(np.all(np.diff(ep) >= -1e-9)), "eigenvalues are sorted")
            rec.close(h.dot(vp), vp * ep, "eigenvectors of the partial diagonalisation", 1e-6)
            rec.require(max(np.min(np.abs(e - x)) for x in ep) < 1e-6, "eigenvalues are in the spectrum")


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    if case["kind"] == "model":
        g = fock.cluster(case["c"])
        rs = rng(case)
        if case["m"][0] == "f":
            model = fermions(g, 2.2 if case["m"] == "f2" else 0, 1.0, mus=0.1, potentials=rs.uniform(-1, 1, (g.nsites, int(case["m"][1]))),
                             nspecies=int(case["m"][1]))
        else:
            model = spinSystem(g, 0.5, 0.7, 1.1, 0.2, 0.3, -0.1)
        h = dense(model.createH())
        e, _ = check(model, h, rec, "Hamiltonian")
        rec.close(np.sum(e), np.trace(h), "trace")
        rec.close(np.sum(e ** 2), np.sum(np.abs(h) ** 2), "trace of the square")
        partial(model, h, e, rec, range(1, 7))
        rec.outcome(case["c"], case["m"], np.round(e, 6))
        return
    model = spinSystem(fock.cluster("dimer"))
    if case["kind"] == "two":
        for b in range(-1, 3):
            for o in VALS:
                z = complex(o.replace("+1j", "+1j"))
                h = np.array([[case["a"], z], [np.conj(z), b]])
                for hh in ([h] if z.imag else [h, h.real]):
                    e, _ = check(model, hh, rec, str(hh.tolist()))
                    r = np.sqrt((case["a"] - b) ** 2 / 4 + abs(z) ** 2)
                    rec.close(e, [(case["a"] + b) / 2 - r, (case["a"] + b) / 2 + r], "closed form of the eigenvalues")
                    rec.outcome(np.round(e, 6))
        return
    offs = [0, 1, -1] + ([1j, -1j] if case["cplx"] else [])
    for o in itertools.product(offs, repeat=3):
        h = np.diag(np.array(case["d"], dtype=complex if case["cplx"] else float))
        for (i, j), z in zip(((0, 1), (0, 2), (1, 2)), o):
            h[i, j] = z
            h[j, i] = np.conj(z)
        e, _ = check(model, h, rec, str(h.tolist()))
        for k in (1, 2, 3):
            rec.close(np.sum(e ** k), np.trace(np.linalg.matrix_power(h, k)).real, f"trace of power {k}")
        rec.outcome(np.round(e, 6))

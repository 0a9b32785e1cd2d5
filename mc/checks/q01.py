"""Time evolution after a quench"""
import itertools
import numpy as np
import scipy.linalg
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "Q01"
BOUNDS = {"quick": "9 models (2-256 states) and generic matrices of 1-3 states; every basis state (up to 16) and generic superpositions as initial state; every set of times "
                   "from {0, 0.3, -1.7, 12} up to size 3; 1-3 initial states; every lowest-energy subspace of 1..4 and of all states",
          "thorough": "16 models"}
TIMES = [0., 0.3, -1.7, 12.]


def cases(tier):
    out = []
    names = ["dimer", "far", "chain3", "ring3t", "poly4"] + (["plaq", "ring4t", "tee4", "ring5t"] if tier == "thorough" else [])
    for nm in names:
        for m in ("f1", "f2", "s2"):
            if m == "s2" and nm.endswith("t"):
                continue
            if {"f1": 2, "f2": 4, "s2": 2}[m] ** fock.nsites(nm) <= 256:
                for k in (1, 2, 3):
                    out.append({"c": nm, "m": m, "k": k})
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            out.append({"c": "dimer", "m": "mat%d" % n, "k": k})
    return out


def cost(c):
    return 4 ** (fock.nsites(c["c"]) * (2 if c["m"] == "f2" else 1)) + 1000


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    g = fock.cluster(case["c"])
    rs = rng(case)
    hm = None
    if case["m"][0] == "m":
        # a block of a symmetry sector can have a single state
        model = spinSystem(g)
        n = int(case["m"][3:])
        hm = rs.uniform(-1, 1, (n, n)) + 1j * rs.uniform(-1, 1, (n, n))
        hm = hm + hm.conj().T
    elif case["m"][0] == "f":
        model = fermions(g, 2.2 if case["m"] == "f2" else 0, 1.0, mus=0.1, potentials=rs.uniform(-1, 1, (g.nsites, int(case["m"][1]))),
                         nspecies=int(case["m"][1]))
    else:
        model = spinSystem(g, 0.5, 0.7, 1.1, 0.2, 0.3, -0.1)
    h = dense(model.createH()) if hm is None else hm
    d = h.shape[0]
    e, v = model.diagH(model.createH() if hm is None else sp.csr_matrix(hm))
    us = {t: scipy.linalg.expm(-1j * h * t) for t in TIMES}
    inits = []
    if case["k"] == 1:
        inits = [np.eye(d)[:, k].copy() for k in range(min(d, 16))]
    psi = rs.uniform(-1, 1, (d, case["k"])) + 1j * rs.uniform(-1, 1, (d, case["k"]))
    psi /= np.linalg.norm(psi, axis=0)
    inits.append(psi)
    sets = [list(c) for r in (1, 2, 3) for c in itertools.combinations(TIMES, r)] + [[12., 0.3], [0.3, 0.3]]
    for p in inits:
        p2 = p.reshape(d, -1)
        for ts in sets:
            tt, ev = model.quench_time_evolve(p, v, e, np.array(ts))
            rec.close(tt, ts, "times are returned")
            want = np.stack([us[t].dot(p2) for t in ts], 1)
            dims = (d,) + ((len(ts),) if len(ts) > 1 or p2.shape[1] == 1 else ()) + ((p2.shape[1],) if p2.shape[1] > 1 else ())
            rec.require(np.shape(ev) == dims, f"shape of the states is {np.shape(ev)}, expected {dims}")
            rec.close(ev, want, f"state at times {ts}", 1e-8)
            rec.state(len(ts))
        for t in TIMES + [0, 12]:
            tt, ev = model.quench_time_evolve(p, v, e, t)
            rec.close(ev, us[t].dot(p2), f"state at time {t}", 1e-8)
            rec.close(np.sum(np.abs(np.asarray(ev).reshape(d, -1)) ** 2, axis=0), np.sum(np.abs(p2) ** 2, axis=0), "norm is conserved", 1e-8)
    # evolution in a subspace of eigenstates: the part of the state in the subspace evolves
    for k in range(1, min(4, d - 1) + 1):
        vk = v[:, :k]
        proj = vk.dot(vk.conj().T)
        _, ev = model.quench_time_evolve(psi, vk, e[:k], np.array(TIMES))
        rec.close(ev, np.stack([us[t].dot(proj).dot(psi) for t in TIMES], 1), f"evolution in {k} eigenstates", 1e-8)
        rec.state(len(TIMES))
    rec.outcome(case["c"], case["m"], case["k"])

"""Projectors on sectors of a diagonal operator, and particle number sectors"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense

PROP = "S05"
BOUNDS = {"quick": "every choice of particle numbers -1..n+1 or unrestricted per species, 1-3 species, up to 6 modes; every basis "
                   "state; every subset of eigenvalues of magnetisation (integer, half integer and scaled) and pair counting operators of up to 5 spins; every "
                   "assignment of 3 values (4 sets of values, also close ones) to a 4 dimensional diagonal operator",
          "thorough": "up to 8 modes, 4 species, 6 spins, every assignment of 3 values to a 6 dimensional diagonal operator"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5", 6: "lad6"}


def cases(tier):
    th = tier == "thorough"
    out = []
    for ns in range(1, 4 + th):
        for n in range(1, 7):
            if n * ns <= (8 if th else 6):
                for sel in itertools.product([None] + list(range(-1, n + 2)), repeat=ns):
                    out.append({"kind": "ns", "n": n, "nspecies": ns, "ns": list(sel)})
    for n in range(1, 6 + th):
        out.append({"kind": "spin", "n": n})
    out.append({"kind": "diag", "d": 6 if th else 4})
    return out


def cost(c):
    return 4 ** (c["n"] * c["nspecies"]) + 50 if c["kind"] == "ns" else 3000


def selects(p, want, dim, rec, what):
    """p selects the basis states of the set `want`, each once"""
    p = dense(p)
    want = sorted(want)
    rec.require(p.ndim == 2 and p.shape == (len(want), dim), f"{what}: shape {p.shape}, expected {(len(want), dim)}")
    if len(want):
        rec.close(np.sort(np.abs(p), axis=1)[:, :-1], np.zeros((len(want), dim - 1)), f"{what}: one basis state per row")
        rec.close(p.max(axis=1), np.ones(len(want)), f"{what}: unit weight")
        rec.require(sorted(np.argmax(p, axis=1).tolist()) == want, f"{what}: selected states")
    return p


def run(case, rec):
    if case["kind"] == "ns":
        from exact_diag.ed_fermions import fermions
        n, nsp, sel = case["n"], case["nspecies"], case["ns"]
        model = fermions(fock.cluster(NAMES[n]), 0, 1, ns=np.array(sel), nspecies=nsp)
        N = n * nsp
        want = []
        for k in range(2 ** N):
            o = fock.occ(k, N)
            if all(s is None or sum(o[n * i: n * i + n]) == s for i, s in enumerate(sel)):
                want.append(k)
            rec.state()
        p = selects(model.n_projector, want, 2 ** N, rec, f"sector {sel}")
        if want:
            lab, _ = model.get_state_vects(projector=model.n_projector)
            lab = np.asarray(lab)
            for a, k in enumerate(np.argmax(p, axis=1)):
                rec.require(list(np.round(lab[a]).astype(int)) == fock.occ(int(k), N), f"label of state {a} of the sector")
            # particle numbers in the sector, and weight of states in the sector
            rs = rng(case)
            v = rs.uniform(-1, 1, (2 ** N, 2)) + 1j * rs.uniform(-1, 1, (2 ** N, 2))
            w = np.sum(np.abs(v[want]) ** 2, axis=0)
            rec.close(model.get_subspace_overlaps(v, [model.n_projector]), w, "weight of states in the sector")
        rec.outcome(n, nsp, len(want))
    elif case["kind"] == "spin":
        from exact_diag.ed_spins import spinSystem
        n = case["n"]
        model = spinSystem(fock.cluster(NAMES[n]))
        up = model.get_sum_op(model.nr)
        labels = [sum(1 - x for x in fock.digits(k, n, 2)) for k in range(2 ** n)]
        groups = {}
        for k, v in enumerate(labels):
            groups.setdefault(v, []).append(k)
            rec.state()
        projs, vals = model.get_subspace_projs(up)
        rec.require(sorted(int(round(v)) for v in vals) == sorted(groups), f"eigenvalues {vals}")
        for p, v in zip(projs, vals):
            selects(p, groups[int(round(v))], 2 ** n, rec, f"{v} spins up")
        rs = rng(case)
        st = rs.uniform(-1, 1, (2 ** n, 3)) + 1j * rs.uniform(-1, 1, (2 ** n, 3))
        ov = np.asarray(model.get_subspace_overlaps(st, projs))
        rec.close(ov, np.array([np.sum(np.abs(st[groups[int(round(v))]]) ** 2, axis=0) for v in vals]), "weights of the sectors")
        rec.close(model.get_subspace_overlaps(st[:, 0], projs), np.array([np.sum(np.abs(st[groups[int(round(v))], 0]) ** 2) for v in vals]),
                  "weights of a single state")
        for r in range(0, n + 2):
            for sub in itertools.combinations(range(0, n + 2), r):
                projs, vals = model.get_subspace_projs(up, eig_vals=list(sub))
                rec.require(len(projs) == len(sub) == len(vals), "one projector per eigenvalue")
                for p, v in zip(projs, sub):
                    selects(p, groups.get(v, []), 2 ** n, rec, f"{v} spins up")
        # half integer, scaled and non-uniform labels
        for name, op, lab in [("magnetisation", sp.csr_matrix(model.get_sum_op(model.sz)), np.array(labels) - n / 2.),
                              ("scaled magnetisation", sp.csr_matrix(-0.25 * model.get_sum_op(model.sz)), -0.25 * (np.array(labels) - n / 2.)),
                              ("squared magnetisation", sp.csr_matrix(model.get_sum_op(model.sz)).dot(sp.csr_matrix(model.get_sum_op(model.sz))),
                               (np.array(labels) - n / 2.) ** 2)]:
            projs, vals = model.get_subspace_projs(op)
            rec.require(len(vals) == len(projs), "one projector per eigenvalue")
            rec.close(np.sort(np.asarray(vals)), np.unique(lab), f"eigenvalues of the {name}")
            for p, v in zip(projs, vals):
                selects(p, [k for k in range(2 ** n) if abs(lab[k] - v) < 1e-9], 2 ** n, rec, f"{name} {v}")
            for v in np.unique(lab):
                p, v2 = model.get_subspace_projs(op, eig_vals=v)
                selects(p[0], [k for k in range(2 ** n) if abs(lab[k] - v) < 1e-9], 2 ** n, rec, f"{name} {v} requested")
            rec.state(2 ** n)
        p, v = model.get_subspace_projs(up, eig_vals=1)
        selects(p[0], groups[1], 2 ** n, rec, "one spin up")
        rec.outcome("spin", n)
    else:
        from exact_diag.ed_spins import spinSystem
        model = spinSystem(fock.cluster("dimer"))
        d = case["d"]
        for a in itertools.chain(itertools.product([-1, 0, 2], repeat=d), itertools.product([-0.5, 0.25, 0.5], repeat=d),
                                 itertools.product([-1e-3, 0., 1e-4], repeat=d), itertools.product([100., 100.0005, -100.], repeat=d)):
            op = sp.csr_matrix(np.diag(np.array(a, dtype=float)))
            projs, vals = model.get_subspace_projs(op)
            rec.require(sorted(float(v) for v in vals) == sorted(float(x) for x in set(a)), f"eigenvalues of {a}")
            for p, v in zip(projs, vals):
                selects(p, [k for k in range(d) if a[k] == float(v)], d, rec, f"eigenvalue {v} of {a}")
            rec.state(d)
            rec.outcome(a)

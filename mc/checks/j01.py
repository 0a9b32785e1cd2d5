"""Current operators"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng, dense

PROP = "J01"
BOUNDS = {"quick": "17 clusters (open, periodic with at least 3 sites around, twisted), 1-3 species up to 8 modes; hopping by number, per species, "
                   "real and complex matrix; 6 directions; every matrix element",
          "thorough": "21 clusters, up to 10 modes"}
OPEN = ["site", "dimer", "far", "chain3", "ell3", "split3", "poly3", "chain4", "plaq", "tee4", "tri4"]
PER = ["ring3", "ring3t", "ring5", "ring5t", "tilt5", "lad6"]
DIRS = [(1, 0), (0, 1), (1, 1), (1, -2), (0.6, 0.8), (-1, 0)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for nm in OPEN + PER + (["poly4", "poly5", "hex4", "ring6"] if th else []):
        for ns in (1, 2, 3):
            if fock.nsites(nm) * ns <= (10 if th else 8):
                for f in ("number", "species", "matrix", "complex"):
                    if f in ("matrix", "complex") and (nm not in OPEN or nm == "site"):
                        continue
                    out.append({"c": nm, "ns": ns, "f": f, "open": nm in OPEN or nm in ("poly4", "poly5", "hex4")})
    return out


def cost(c):
    return 4 ** (fock.nsites(c["c"]) * c["ns"]) + 300


def run(case, rec):
    from exact_diag.ed_fermions import fermions
    g = fock.cluster(case["c"])
    n, ns = g.nsites, case["ns"]
    rs = rng(case)
    bond = np.asarray(g.adjacency_mat) * np.asarray(g.phase_mat)
    if case["f"] == "number":
        t = 0.9
        tr = np.repeat((t * bond)[:, :, None], ns, 2)
    elif case["f"] == "species":
        t = rs.uniform(0.2, 2, ns)
        tr = np.stack([x * bond for x in t], 2)
    elif case["f"] == "matrix":
        tr = np.stack([fock.herm(rs, n).real for _ in range(ns)], 2)
        t = tr
    else:
        tr = np.stack([fock.herm(rs, n) for _ in range(ns)], 2)
        t = tr
    model = fermions(g, 1.3 if ns > 1 else 0, t, mus=0.4, potentials=rs.uniform(-1, 1, (n, ns)), us_same_species=0.5, nspecies=ns)
    f = fock.Fermi(n, ns)
    h = dense(model.createH())
    links = []
    for s in range(ns):
        for i in range(n):
            for j in range(n):
                if i != j and tr[i, j, s] != 0:
                    links.append((g.xdist_mat[i, j], g.ydist_mat[i, j], 1j * tr[i, j, s], f.cd(i, s).dot(f.c(j, s))))
    xop = sum(g.xlocs[i] * f.num(i, s) for i in range(n) for s in range(ns))
    yop = sum(g.ylocs[i] * f.num(i, s) for i in range(n) for s in range(ns))
    for d in DIRS:
        for form in (np.array(d), np.array(d)[:, None], list(d)):
            j = dense(model.get_current_op(form))
            want = np.zeros((f.dim, f.dim), dtype=complex)
            for dx, dy, amp, m in links:
                want += (dx * d[0] + dy * d[1]) * amp * m
            rec.close(j, want, f"current along {d}")
        rec.close(j, j.conj().T, "current is hermitian")
        if case["open"]:
            p = d[0] * xop + d[1] * yop
            rec.close(j, 1j * (h.dot(p) - p.dot(h)), f"current along {d} is the rate of change of the centre of charge")
        rec.state(f.dim)
    j = dense(model.get_current_op())
    j1 = dense(model.get_current_op(np.array([1, 0])))
    rec.close(j, j1, "the default direction is x")
    rec.outcome(case["c"], ns, case["f"])

"""Twisted boundary conditions: the phase of a closed walk is fixed by its winding numbers"""
import numpy as np
from mc import geo

PROP = "G03"
PHASES = ((0., 0.), (0.7, 0.), (0., 1.1), (0.7, 1.1), (-2.3, np.pi), (2 * np.pi / 3, -0.4), (1e-3, 0.), (-2e-4, 1e-4))
BOUNDS = {"quick": "lattice clusters up to 4x4, tilted squares, general periodicity vectors (up to 9 sites), 56 strongly oblique ones; 8 pairs of "
                   "twist angles (down to 1e-4); universal cover explored to winding numbers -2..2, all pairs of sites as steps",
          "thorough": "the same with larger clusters and all periodicity vectors"}


def cases(tier):
    return geo.specs(tier, PHASES, small=True)


def cost(c):
    return 1 + geo.spec_size(c) ** 2


def run(case, rec):
    m = geo.Model(case)
    g = geo.build(case)
    n = g.nsites
    M = np.asarray(g.phase_mat)
    rec.require(M.shape == (n, n), "shape of phase matrix")
    rec.close(np.abs(M), np.ones((n, n)), "phase factors have modulus one")
    rec.close(M, M.conj().T, "phase matrix is Hermitian")
    pinv = np.linalg.inv(np.array(m.p).T)
    # winding of a step j -> i: r_i - r_j + (displacement - (r_i - r_j)), in units of the periodicity vectors
    wind = np.zeros((n, n, 2), dtype=int)
    for i in range(n):
        for j in range(n):
            d = np.array([g.xdist_mat[i, j], g.ydist_mat[i, j]])
            bare = np.array([g.xlocs[i] - g.xlocs[j], g.ylocs[i] - g.ylocs[j]])
            w = pinv.dot(d - bare)
            rec.require(np.max(np.abs(w - np.round(w))) < 1e-7, "displacement differs by periodicity vectors")
            wind[i, j] = np.round(w).astype(int)
            for k in (0, 1):
                rec.require(not m.open[k] or wind[i, j, k] == 0, "no winding in open directions")
    # explicit state search in the universal cover: states are (site, winding numbers)
    phase = {(0, 0, 0): 1.0 + 0j}
    todo = [(0, 0, 0)]
    bound = max(2, int(np.max(np.abs(wind))) if m.skew else 2)
    while todo:
        s = todo.pop()
        rec.state()
        j = s[0]
        for i in range(n):
            t = (i, s[1] + wind[i, j, 0], s[2] + wind[i, j, 1])
            if abs(t[1]) > bound or abs(t[2]) > bound:
                continue
            p = phase[s] * M[i, j]
            if t in phase:
                rec.require(abs(p - phase[t]) < 1e-8,
                            lambda: f"two walks to site {i} with winding {t[1:]} have phases {p} and {phase[t]}")
            else:
                rec.trans()
                phase[t] = p
                todo.append(t)
    f = [0. if m.open[k] else m.phases[k] for k in (0, 1)]
    for (i, w1, w2), p in phase.items():
        rec.trans()
        if (i, 0, 0) in phase:
            want = phase[(i, 0, 0)] * np.exp(1j * (w1 * f[0] + w2 * f[1]))
            rec.require(abs(p - want) < 1e-8, lambda: f"walk with winding ({w1}, {w2}) around the cluster has phase "
                                                      f"{p / phase[(i, 0, 0)]}, expected {want / phase[(i, 0, 0)]}")
    rec.outcome(M)

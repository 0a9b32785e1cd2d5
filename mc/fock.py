"""Reference models of the state spaces: occupation number states of fermions, and product states of spins.

Operators are built state by state from their definition, with exact signs; nothing is shared with the implementation."""
import itertools
import numpy as np

S3 = np.sqrt(3.0)


# ---------------- fermions ----------------
def occ(k, n):
    """occupations of basis state k of n modes. Mode 0 is the most significant one"""
    return [(k >> (n - 1 - m)) & 1 for m in range(n)]


def index(o):
    k = 0
    for x in o:
        k = 2 * k + x
    return k


def c_ref(m, n):
    """annihilation operator. A basis state is the product of creation operators on the vacuum, higher modes to the left"""
    out = np.zeros((2 ** n, 2 ** n))
    for k in range(2 ** n):
        o = occ(k, n)
        if o[m]:
            sign = (-1) ** sum(o[m + 1:])
            o[m] = 0
            out[index(o), k] = sign
    return out


def mode(site, species, nsites):
    return nsites * species + site


class Fermi:
    def __init__(self, nsites, nspecies):
        self.nsites, self.nspecies = nsites, nspecies
        self.n = nsites * nspecies
        self.dim = 2 ** self.n
        self._c = [c_ref(m, self.n) for m in range(self.n)]

    def c(self, site, species):
        return self._c[mode(site, species, self.nsites)]

    def cd(self, site, species):
        return self.c(site, species).T

    def num(self, site, species):
        return self.cd(site, species).dot(self.c(site, species))

    def ntot(self, species):
        return sum(self.num(i, species) for i in range(self.nsites))


def fermi_h(f, ts, u, us, mus, pots):
    """H = -sum ts_ij c+_i c_j + sum u_i n_i0 n_i1 + sum_{i>=j} us_ij n_i n_j - sum mu n + sum v n"""
    h = np.zeros((f.dim, f.dim), dtype=complex)
    for s in range(f.nspecies):
        for i in range(f.nsites):
            h += (pots[i, s] - mus[s]) * f.num(i, s)
            for j in range(f.nsites):
                if i != j and ts[i, j, s] != 0:
                    h -= ts[i, j, s] * f.cd(i, s).dot(f.c(j, s))
                if i >= j and us[i, j, s] != 0:
                    h += us[i, j, s] * f.num(i, s).dot(f.num(j, s))
    if f.nspecies >= 2:
        for i in range(f.nsites):
            h += u[i] * f.num(i, 0).dot(f.num(i, 1))
    return h


# ---------------- spins ----------------
def digits(k, n, d):
    out = []
    for _ in range(n):
        out.append(k % d)
        k //= d
    return out[::-1]


def spin_mats(s):
    """Sx, Sy, Sz, S+, S- in the basis m = s, s-1, ..., -s"""
    d = int(round(2 * s)) + 1
    ms = [s - k for k in range(d)]
    sp_ = np.zeros((d, d))
    for a in range(d):
        for b in range(d):
            if abs(ms[a] - ms[b] - 1) < 1e-9:
                sp_[a, b] = np.sqrt(s * (s + 1) - ms[b] * (ms[b] + 1))
    sm = sp_.T
    return 0.5 * (sp_ + sm), -0.5j * (sp_ - sm), np.diag(ms), sp_, sm


def embed(ops, n, d):
    """product of single site operators {site: matrix}, matrix element by matrix element of the product states"""
    out = np.ones((1, 1))
    for i in range(n):
        out = np.einsum("ab,cd->acbd", out, ops.get(i, np.eye(d))).reshape(out.shape[0] * d, out.shape[1] * d)
    return out


def spin_h(n, s, jx, jy, jz, hx, hy, hz):
    d = int(round(2 * s)) + 1
    mats = spin_mats(s)[:3]
    h = np.zeros((d ** n, d ** n), dtype=complex)
    for m, j, f in zip(mats, (jx, jy, jz), (hx, hy, hz)):
        for a in range(n):
            if f[a] != 0:
                h -= f[a] * embed({a: m}, n, d)
            for b in range(a):
                if j[a, b] != 0:
                    h += 2 * j[a, b] * embed({a: m, b: m}, n, d)
    return h


# ---------------- permutations ----------------
def cycles_of(p):
    """cycles (each site followed by its image), fixed points included"""
    seen, out = set(), []
    for i in range(len(p)):
        if i not in seen:
            c = [i]
            seen.add(i)
            while p[c[-1]] != i:
                c.append(p[c[-1]])
                seen.add(c[-1])
            out.append(c)
    return out


def herm(rs, n):
    a = rs.uniform(-1, 1, (n, n)) + 1j * rs.uniform(-1, 1, (n, n))
    return a + a.conj().T


# ---------------- clusters used for models ----------------
CLUSTERS = {
    "site": {"pts": [[0, 0]]},
    "dimer": {"pts": [[0, 0], [1, 0]]},
    "far": {"pts": [[0, 0], [3, 1]]},
    "chain3": {"pts": [[0, 0], [1, 0], [2, 0]]},
    "ell3": {"pts": [[0, 0], [0, 1], [1, 1]]},
    "split3": {"pts": [[0, 0], [2, 0], [2, 1]]},
    "ring3": {"sq": [3, 1], "open": [0, 1]},
    "anti3": {"sq": [3, 1], "open": [0, 1], "ph": [3 * np.pi, 0.]},
    "ring3t": {"sq": [3, 1], "open": [0, 1], "ph": [0.9, 0.0]},
    "poly3": {"poly": 3},
    "chain4": {"sq": [4, 1], "open": [1, 1]},
    "ring4": {"sq": [4, 1], "open": [0, 1]},
    "ring4t": {"sq": [4, 1], "open": [0, 1], "ph": [1.3, 0.0]},
    "plaq": {"sq": [2, 2], "open": [1, 1]},
    "tee4": {"pts": [[0, 0], [1, 0], [2, 0], [1, 1]]},
    "poly4": {"poly": 4},
    "tri4": {"tri": [2, 2], "open": [1, 1]},
    "ring5": {"sq": [1, 5], "open": [1, 0], "ph": [0.0, 0.0]},
    "ring5t": {"sq": [1, 5], "open": [1, 0], "ph": [0.0, 2.1]},
    "poly5": {"poly": 5},
    "poly6": {"poly": 6},
    "poly7": {"poly": 7},
    "poly8": {"poly": 8},
    "tilt5": {"tilt": [2, 1], "open": [0, 0], "ph": [0.4, 1.1]},
    "ring6": {"sq": [6, 1], "open": [0, 1]},
    "lad6": {"sq": [3, 2], "open": [0, 1], "ph": [0.7, 0.0]},
    "hex4": {"hex": [1, 1], "open": [1, 1]},
}


def cluster(name):
    from exact_diag.ed_geometry import Geometry
    c = CLUSTERS[name]
    if "pts" in c:
        xs, ys = zip(*c["pts"])
        return Geometry.createNonPeriodicGeometry(np.array(xs, dtype=float), np.array(ys, dtype=float))
    if "poly" in c:
        return Geometry.createRegularPolygonGeometry(c["poly"])
    ph = c.get("ph", [0., 0.])
    o = [bool(x) for x in c["open"]]
    for key, fn in (("sq", Geometry.createSquareGeometry), ("tri", Geometry.createTriangleGeometry),
                    ("tilt", Geometry.createTiltedSquareGeometry), ("hex", Geometry.createHexagonalGeometry)):
        if key in c:
            return fn(c[key][0], c[key][1], ph[0], ph[1], o[0], o[1])


def nsites(name):
    c = CLUSTERS[name]
    if "pts" in c:
        return len(c["pts"])
    if "poly" in c:
        return c["poly"]
    if "tilt" in c:
        return c["tilt"][0] ** 2 + c["tilt"][1] ** 2
    if "hex" in c:
        return 4 * c["hex"][0] * c["hex"][1]
    return int(np.prod(c.get("sq", c.get("tri"))))

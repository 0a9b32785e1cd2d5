"""Reference model of the tight-binding gas on a periodic lattice: exact enumeration of the Fock space."""
import numpy as np
from functools import lru_cache
from mc import fock


def levels(n, dim):
    """momenta (as tuples) and band energies"""
    ks = [2 * np.pi * j / n for j in range(n)]
    if dim == "1d":
        return [((k,), -2 * np.cos(k)) for k in ks]
    return [((kx, ky), -2 * (np.cos(kx) + np.cos(ky))) for kx in ks for ky in ks]


def sites(n, dim):
    return [(x,) for x in range(n)] if dim == "1d" else [(x, y) for x in range(n) for y in range(n)]


def hop(n, dim):
    """single particle Hamiltonian in real space, from the band"""
    st = sites(n, dim)
    h = np.zeros((len(st), len(st)), dtype=complex)
    for k, e in levels(n, dim):
        v = np.array([np.exp(1j * np.dot(k, s)) for s in st]) / np.sqrt(len(st))
        h += e * np.outer(v, v.conj())
    return h


class Gas:
    """one species, grand canonical density matrix in the full Fock space"""

    def __init__(self, n, dim):
        self.st = sites(n, dim)
        self.n, self.dim = n, dim
        self.f = fock.Fermi(len(self.st), 1)
        h = hop(n, dim)
        self.h = np.zeros((self.f.dim, self.f.dim), dtype=complex)
        for i in range(len(self.st)):
            for j in range(len(self.st)):
                if abs(h[i, j]) > 1e-13:
                    self.h += h[i, j] * self.f.cd(i, 0).dot(self.f.c(j, 0))
        self.nop = self.f.ntot(0)
        self._eig = {}

    def eig(self, mu):
        if mu not in self._eig:
            self._eig = {mu: np.linalg.eigh(self.h - mu * self.nop)}
        return self._eig[mu]

    def rho(self, beta, mu):
        w, v = self.eig(mu)
        x = w - w.min()
        p = (x < 1e-9).astype(float) if np.isinf(beta) else np.exp(-beta * x)
        p = p / p.sum()
        return (v * p).dot(v.conj().T)

    def heis(self, op, mu, t):
        w, v = self.eig(mu)
        u = (v * np.exp(1j * w * t)).dot(v.conj().T)
        return u.dot(op).dot(u.conj().T)

    def index(self, r):
        return self.st.index(tuple(int(x) % self.n for x in r[:1 if self.dim == "1d" else 2]))


@lru_cache(8)
def gas(n, dim):
    return Gas(n, dim)


class Band:
    """Second, cheaper reference for larger lattices: occupations of the single particle levels and Wick's theorem. The checks
    compare it with the Fock space model wherever both are affordable."""

    def __init__(self, n, dim):
        self.n, self.dim = n, dim
        self.st = sites(n, dim)
        lev = levels(n, dim)
        self.ks = np.array([k for k, _ in lev])
        self.es = np.array([e for _, e in lev])

    def occ(self, beta, mu):
        x = self.es - mu
        if np.isinf(beta):
            return (x < 0).astype(float)
        return 0.5 * (1 - np.tanh(beta * x / 2))

    def phases(self, r):
        return np.exp(1j * self.ks.dot(np.array(r[:self.ks.shape[1]], dtype=float)))

    def rho1(self, beta, mu, r):
        """<c+_0 c_r>"""
        return np.mean(self.occ(beta, mu) * self.phases(r))

    def same(self, r):
        return all(int(x) % self.n == 0 for x in r[:self.ks.shape[1]])

    def cov(self, beta, mu, r):
        """<n_0 n_r> - <n>^2"""
        x = self.rho1(beta, mu, r)
        return (np.mean(self.occ(beta, mu)) if self.same(r) else 0.) - abs(x) ** 2

    def two(self, beta, mu1, mu2, r):
        """singles, doubles, spin z, spin x correlations"""
        a, b = self.cov(beta, mu1, r), self.cov(beta, mu2, r)
        n1, n2 = np.mean(self.occ(beta, mu1)), np.mean(self.occ(beta, mu2))
        d = (a + n1 ** 2) * (b + n2 ** 2) - n1 ** 2 * n2 ** 2
        s = a + b + 4 * d - 4 * a * n2 - 4 * b * n1
        x1, x2 = self.rho1(beta, mu1, r), self.rho1(beta, mu2, r)
        dl = 1. if self.same(r) else 0.
        x = x1 * (dl - np.conj(x2)) + (dl - x1) * np.conj(x2)
        return s, d, a + b, x.real

    def gfn(self, beta, mu, r, t):
        """greater and lesser function, retarded combination"""
        f = self.occ(beta, mu)
        u = np.exp(-1j * (self.es - mu) * t) * self.phases(r)
        gr, le = -1j * np.mean((1 - f) * u), 1j * np.mean(f * u)
        return {"greater": gr, "lesser": le, "retarded": (t >= 0) * (gr - le), "advanced": -(t <= 0) * (gr - le),
                "time-ordered": gr if t > 0 else le}

    def chi(self, beta, mu, q, om, eta):
        """Lindhard function at an allowed momentum transfer"""
        q = np.array(q[:self.ks.shape[1]], dtype=float)
        e2 = -2 * np.sum(np.cos(self.ks + q[None, :]), axis=1)
        f1 = self.occ(beta, mu)
        f2 = 0.5 * (1 - np.tanh(beta * (e2 - mu) / 2))
        de = e2 - self.es
        if om == 0 and eta == 0:
            same = np.abs(de) < 1e-8
            x = np.where(same, -beta * f1 * (1 - f1), (f2 - f1) / np.where(same, 1., de))
        else:
            x = (f1 - f2) / (om - de + 1j * eta)
        return np.mean(x)


@lru_cache(32)
def band(n, dim):
    return Band(n, dim)

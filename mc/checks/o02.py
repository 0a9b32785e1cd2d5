"""Spin operators and special states in the product basis"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng, dense

PROP = "O02"
BOUNDS = {"quick": "spins 1/2..5/2 on one site; spin 1/2 up to 6 sites, spin 1 up to 4, spin 3/2 and 2 up to 3 sites: every "
                   "site and ordered pair of sites, spin components and generic matrices; all subsets of pairs for the "
                   "pair counting operator up to 4 sites; all special states up to 8 sites",
          "thorough": "spin 1/2 up to 8 sites, spin 1 up to 5, spin 3/2 and 2 up to 4"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5", 6: "lad6"}


def cases(tier):
    out = [{"what": "algebra", "spin": k / 2} for k in range(1, 6 if tier == "quick" else 9)]
    lim = {0.5: 6, 1.0: 4, 1.5: 3, 2.0: 3} if tier == "quick" else {0.5: 6, 1.0: 5, 1.5: 4, 2.0: 4}
    for s, m in lim.items():
        for n in range(1, m + 1):
            out.append({"what": "ops", "spin": s, "n": n})
    for n in range(1, 9 if tier == "quick" else 11):
        out.append({"what": "special", "n": n})
    for n in range(2, 5):
        out.append({"what": "pairs", "n": n})
    return out


def cost(c):
    if c["what"] == "ops":
        return int(2 * c["spin"] + 1) ** (2 * c["n"]) * c["n"] ** 2
    return 200


def model(n, spin=0.5, **kw):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_geometry import Geometry
    g = fock.cluster(NAMES[n]) if n in NAMES else Geometry.createSquareGeometry(n, 1, 0, 0, True, True)
    return spinSystem(g, spin=spin, **kw)


def run(case, rec):
    if case["what"] == "algebra":
        s = case["spin"]
        m = model(1, s)
        d = int(2 * s + 1)
        rec.require(m.nstates == d, "number of states of a spin")
        sx, sy, sz, spl, smi = [dense(o) for o in (m.sx, m.sy, m.sz, m.splus, m.sminus)]
        for got, want, name in zip((sx, sy, sz, spl, smi), fock.spin_mats(s), ("Sx", "Sy", "Sz", "S+", "S-")):
            rec.close(got, want, f"{name} of spin {s}")
            rec.state(d)
        rec.close(m.get_splus(s), spl, "S+")
        rec.close(m.get_sminus(s), smi, "S-")
        for a, b, c in ((sx, sy, sz), (sy, sz, sx), (sz, sx, sy)):
            rec.close(a.dot(b) - b.dot(a), 1j * c, "spin commutation relations")
        rec.close(sx.dot(sx) + sy.dot(sy) + sz.dot(sz), s * (s + 1) * np.eye(d), "S^2 = s(s+1)")
        rec.outcome(s)
    elif case["what"] == "ops":
        s, n = case["spin"], case["n"]
        m = model(n, s)
        d = int(2 * s + 1)
        rec.require(m.nstates == d ** n, "number of states")
        rs = rng(case)
        ops = list(fock.spin_mats(s)) + [rs.uniform(-1, 1, (d, d)) + 1j * rs.uniform(-1, 1, (d, d))]
        for i in range(n):
            for a in ops:
                rec.close(m.get_single_site_op(i, 0, a, format="boson"), fock.embed({i: a}, n, d), f"operator at site {i}")
                rec.state(d ** n)
            for j in range(n):
                pairs = itertools.product(ops, repeat=2) if d ** n <= 81 else [(ops[3], ops[4]), (ops[5], ops[1]), (ops[2], ops[5])]
                for a, b in pairs:
                    want = fock.embed({i: a, j: b}, n, d) if i != j else fock.embed({i: a.dot(b)}, n, d)
                    rec.close(m.get_two_site_op(i, 0, j, 0, a, b, format="boson"), want, f"operators at sites {i}, {j}")
        for a in ops:
            rec.close(m.get_sum_op(a), sum(fock.embed({i: a}, n, d) for i in range(n)), "sum of operators")
            rec.close(m.get_allsite_op(a), fock.embed({i: a for i in range(n)}, n, d), "product over all sites")
            for q in ([0, 0], [0.7, 0], [0, 2.2], [-1.1, np.pi]):
                ph = np.exp(1j * (q[0] * m.geometry.xlocs + q[1] * m.geometry.ylocs))
                rec.close(m.get_sum_op_q(0, q, a, format="boson"),
                          sum(ph[i] * fock.embed({i: a}, n, d) for i in range(n)), f"sum at wavevector {q}")
        # flipping all spins: m -> -m on every site
        flip = dense(m.get_swap_up_down_op())
        want = fock.embed({i: np.eye(d)[::-1] for i in range(n)}, n, d)
        rec.close(flip, want, "operator flipping all spins")
        # the total spin: SU(2) algebra
        if d ** n <= 256:
            tx, ty, tz = [dense(m.get_sum_op(o)) for o in fock.spin_mats(s)[:3]]
            rec.close(tx.dot(ty) - ty.dot(tx), 1j * tz, "total spin algebra")
        rec.outcome(s, n)
    elif case["what"] == "special":
        n = case["n"]
        m = model(n)
        N = 2 ** n
        up = lambda k: [1 - x for x in fock.digits(k, n, 2)]
        labels = dense(m.get_state_vects())
        par = dense(m.get_state_parity()).ravel()
        for k in range(N):
            rec.state()
            rec.require(list(np.round(labels[k]).astype(int)) == up(k), f"labels of basis state {k}")
            rec.require(int(par[k]) == sum(up(k)) % 2, f"parity of basis state {k}")
        for lr in (False, True):
            for nx, ny in itertools.product((1, 2, 3, 4, 5), (1, 2, 3)):
                st, desc = m.find_special_states(nx, ny, lr)
                st = dense(st)
                rec.require(st.shape == (N, 7), "shape of special states")
                e = dict(zip(desc, st.T))
                alt = [i % 2 for i in range(n)]
                unit = lambda o: np.eye(N)[fock.index([1 - x for x in o])]
                want = {"AllUp": unit([1] * n), "AllDn": unit([0] * n),
                        "AllPlus": np.ones(N) / np.sqrt(N),
                        "AllMinus": np.array([(-1) ** (n - sum(up(k))) for k in range(N)]) / np.sqrt(N),
                        "SymmExc": sum(unit([int(i == j) for i in range(n)]) for j in range(n)) / np.sqrt(n)}
                for name, w in want.items():
                    rec.close(e[name], w, f"{name} state")
                a, b = unit(alt), unit([1 - x for x in alt])
                if n > 1 and (nx % 2 or not lr):
                    ok = (np.allclose(e["AFM1"], a) and np.allclose(e["AFM2"], b)) or \
                         (np.allclose(e["AFM1"], b) and np.allclose(e["AFM2"], a))
                    rec.require(ok, "antiferromagnetic states are the two alternating states")
        rec.outcome(n)
    else:
        n = case["n"]
        m = model(n)
        xs, ys = np.meshgrid(range(n), range(n))
        i_, j_ = xs[xs > ys], ys[xs > ys]
        for sub in itertools.product((0, 1), repeat=len(i_)):
            if not any(sub):
                continue
            rec.state()
            got = dense(m.get_npairs_op(np.array(sub)))
            for k in range(2 ** n):
                o = [1 - x for x in fock.digits(k, n, 2)]
                want = sum(o[a] * o[b] for a, b, t in zip(i_, j_, sub) if t)
                rec.require(abs(got[k, k] - want) < 1e-9, f"number of pairs {sub} in {o}")
            rec.close(got, np.diag(np.diag(got)), "pair counting operator is diagonal")
            rec.outcome(got)

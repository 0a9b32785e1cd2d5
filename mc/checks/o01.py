"""Fermion operators in the occupation number basis"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng

PROP = "O01"
BOUNDS = {"quick": "all (sites, species) with at most 6 modes, 1-3 species: every basis state, every ordered pair of modes (7 and 8 modes: every single mode), "
                   "operators c, c+, Majorana and n; sums over sites with and without wavevector",
          "thorough": "the same up to 8 modes, up to 4 species"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5", 6: "lad6", 7: "poly7", 8: "poly8"}


def cases(tier):
    nm = 6 if tier == "quick" else 8
    out = []
    for sp in range(1, 4 if tier == "quick" else 5):
        for n in range(1, 7):
            if n * sp <= nm:
                out.append({"n": n, "nspecies": sp, "what": "basic"})
                for m in range(n * sp):
                    out.append({"n": n, "nspecies": sp, "what": "pairs", "m": m})
    for n, sp in ((7, 1), (8, 1), (4, 2)):
        if n * sp > nm or n > 6:
            out.append({"n": n, "nspecies": sp, "what": "basic"})
    out.append({"n": 1, "nspecies": 1, "what": "sizes"})
    out.sort(key=lambda c: c["n"] * c["nspecies"])
    return out


def cost(c):
    return 4 ** (c["n"] * c["nspecies"])


def sizes(rec):
    """dimension of the space for larger clusters"""
    from exact_diag.ed_fermions import fermions
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_geometry import Geometry
    for n in range(1, 31):
        g = Geometry.createSquareGeometry(n, 1, 0, 0, bc1_open=True, bc2_open=True)
        for ns in (1, 2, 3):
            if n * ns <= 20:
                rec.require(fermions(g, 0, 1, nspecies=ns).nstates == 2 ** (n * ns), f"dimension for {n} sites, {ns} species")
                rec.state()
        for s in (0.5, 1.0, 1.5):
            if n <= 16:
                rec.require(spinSystem(g, spin=s).nstates == round(2 * s + 1) ** n, f"dimension for {n} spins {s}")
                rec.state()


def run(case, rec):
    from exact_diag.ed_fermions import fermions
    n, ns = case["n"], case["nspecies"]
    if case["what"] == "sizes":
        return sizes(rec)
    g = fock.cluster(NAMES[n])
    model = fermions(g, 0, 1, nspecies=ns)
    f = fock.Fermi(n, ns)
    N = n * ns
    rec.require(model.nstates == f.dim, "number of states")
    modes = [(i, s) for s in range(ns) for i in range(n)]
    maj = model.c_op + model.cdag_op
    maj2 = 1j * (model.cdag_op - model.c_op)
    odd = [("c", model.c_op, lambda i, s: f.c(i, s)), ("cdag", model.cdag_op, lambda i, s: f.cd(i, s)),
           ("x", maj, lambda i, s: f.c(i, s) + f.cd(i, s)), ("y", maj2, lambda i, s: 1j * (f.cd(i, s) - f.c(i, s)))]
    if case["what"] == "basic":
        labels, text = model.get_state_vects()
        rec.require(text.split() == ["%d%s" % (i, "abcdefgh"[s]) for s in range(ns) for i in range(n)], f"names of the modes: {text}")
        labels = np.asarray(labels)
        rec.require(labels.shape == (f.dim, N), "shape of state labels")
        for k in range(f.dim):
            rec.state()
            rec.require(list(np.round(labels[k]).astype(int)) == fock.occ(k, N), f"label of basis state {k} is {labels[k]}")
        for i, s in modes:
            m = model.spinful2spinlessIndex(i, n, s)
            rec.require(m == fock.mode(i, s, n), f"mode of site {i}, species {s}")
            b = model.spinless2spinfullIndex(m, n)
            rec.require((int(b[0]), int(b[1])) == (i, s), f"site and species of mode {m}")
            for name, op, ref in odd:
                rec.close(model.get_single_site_op(i, s, op), ref(i, s), f"{name} at site {i}, species {s}")
                rec.trans(f.dim)
            for fmt_op, ref in ((model.n_op, f.num(i, s)), (np.eye(2), np.eye(f.dim)),
                                (np.diag([0.3, -1.7]), 0.3 * np.eye(f.dim) - 2.0 * f.num(i, s))):
                rec.close(model.get_single_site_op(i, s, fmt_op, format="boson"), ref, f"density operator at {i}, {s}")
                rec.trans(f.dim)
        for s in range(ns):
            rec.close(model.get_sum_op(model.n_op, s, format="boson"), f.ntot(s), f"number of species {s}")
            for name, op, ref in odd:
                rec.close(model.get_sum_op(op, s), sum(ref(i, s) for i in range(n)), f"sum of {name}")
            for q in ([0, 0], [0.4, 0], [0, -1.1], [2 * np.pi / 3, np.pi]):
                ph = np.exp(1j * (q[0] * g.xlocs + q[1] * g.ylocs))
                rec.close(model.get_sum_op_q(s, q, model.n_op, format="boson"),
                          sum(ph[i] * f.num(i, s) for i in range(n)), f"density at wavevector {q}")
                rec.close(model.get_sum_op_q(s, q, model.cdag_op), sum(ph[i] * f.cd(i, s) for i in range(n)),
                          f"creation operator at wavevector {q}")
        if N <= 6:
            # the same sites elsewhere in the plane: the wavevector refers to the absolute positions
            from exact_diag.ed_geometry import Geometry
            far = Geometry.createNonPeriodicGeometry(g.xlocs + 1.3, g.ylocs - 2.6)
            model2 = fermions(far, 0, 1, nspecies=ns)
            for s in range(ns):
                for q in ([0.4, 0], [0.7, -1.1]):
                    ph = np.exp(1j * (q[0] * far.xlocs + q[1] * far.ylocs))
                    rec.close(model2.get_sum_op_q(s, q, model2.n_op, format="boson"), sum(ph[i] * f.num(i, s) for i in range(n)),
                              f"density at wavevector {q} for sites away from the origin")
        rec.outcome(N, ns)
        return
    i, s = modes[case["m"]]
    for j, t in modes:
        rec.state(f.dim)
        for (na, a, ra), (nb, b, rb) in itertools.product(odd, repeat=2):
            got = model.get_two_site_op(i, s, j, t, a, b, format="fermion")
            rec.close(got, ra(i, s).dot(rb(j, t)), f"{na}({i},{s}) {nb}({j},{t})")
            rec.trans(f.dim)
        rec.close(model.get_two_site_op(i, s, j, t, model.n_op, model.n_op, format="boson"),
                  f.num(i, s).dot(f.num(j, t)), f"n({i},{s}) n({j},{t})")
        d1, d2 = np.diag([0.2, 1.3]), np.diag([-0.7, 0.4])
        rec.close(model.get_two_site_op(i, s, j, t, d1, d2, format="boson"),
                  (0.2 * np.eye(f.dim) + 1.1 * f.num(i, s)).dot(-0.7 * np.eye(f.dim) + 1.1 * f.num(j, t)), "diagonal operators")
        # canonical anticommutation relations of the implemented operators
        ci = model.get_single_site_op(i, s, model.c_op).toarray()
        cj = model.get_single_site_op(j, t, model.c_op).toarray()
        rec.close(ci.dot(cj) + cj.dot(ci), np.zeros((f.dim, f.dim)), "{c, c} = 0")
        rec.close(ci.dot(cj.T) + cj.T.dot(ci), np.eye(f.dim) * ((i, s) == (j, t)), "{c, c+} = delta")
        rec.outcome(i, s, j, t)

"""Symmetry operators move particles and spins between sites as the permutation says"""
import itertools
import numpy as np
from mc import fock
from mc.engine import rng

PROP = "S02"
BOUNDS = {"quick": "every permutation of up to 4 sites and every product of two permutations of up to 3 sites, fermions with "
                   "1-3 species (up to 8 modes) and spins 1/2, 1, 3/2 (up to 4 sites): every basis state; every swap of a pair; spinless "
                   "fermions and spin 1/2: every permutation of 5 sites, and of 6 and 7 sites all shifts, reflections and "
                   "every cycle type in both directions",
          "thorough": "permutations of up to 5 sites (up to 10 modes, spin 1/2 and 1), the families of longer permutations up to 8 sites, products of two permutations up to 4 sites"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5"}


def cases(tier):
    nm, nn = (8, 4) if tier == "quick" else (10, 5)
    out = []
    for n in range(1, nn + 1):
        for p in itertools.permutations(range(n)):
            for ns in (1, 2, 3):
                if n * ns <= nm:
                    out.append({"m": "fermion", "n": n, "k": ns, "p": list(p)})
            for s in (0.5, 1.0, 1.5):
                if int(2 * s + 1) ** n <= (256 if tier == "quick" else 300):
                    out.append({"m": "spin", "n": n, "k": s, "p": list(p)})
    for n in range(5, 8 if tier == "quick" else 9):
        for p in (itertools.permutations(range(n)) if n == 5 else longer(n)):
            for m, k in (("fermion", 1), ("spin", 0.5)):
                c = {"m": m, "n": n, "k": k, "p": list(p)}
                if c not in out[-400:]:
                    out.append(c)
    return out


def longer(n):
    """permutations of more sites: all powers of the shift, all reflections, one of each cycle type in a scrambled labelling"""
    seen = set()
    for k in range(1, n):
        seen.add(tuple((i + k) % n for i in range(n)))
        seen.add(tuple((k - i) % n for i in range(n)))
    lab = [(3 * i + 1) % n for i in range(n)] if n % 3 else [(5 * i + 2) % n for i in range(n)]
    lab[0], lab[2] = lab[2], lab[0]
    for parts in partitions(n):
        for back in (0, 1):
            p, at = list(range(n)), 0
            for c in parts:
                cyc = lab[at:at + c][::-1 if back else 1]
                for a, b in zip(cyc, cyc[1:] + cyc[:1]):
                    p[a] = b
                at += c
            seen.add(tuple(p))
    return sorted(seen)


def partitions(n, top=None):
    if n == 0:
        yield []
    for c in range(min(n, top or n), 0, -1):
        for rest in partitions(n - c, c):
            yield [c] + rest


def cost(c):
    return (4 ** (c["n"] * c["k"]) if c["m"] == "fermion" else (2 * c["k"] + 1) ** (2 * c["n"])) + 100


def fermi_ref(f, p):
    """operator that maps the product of creation operators to the product of the creation operators of the images"""
    vac = np.zeros(f.dim)
    vac[0] = 1
    out = np.zeros((f.dim, f.dim))
    for k in range(f.dim):
        o = fock.occ(k, f.n)
        v = vac
        # basis state = product of creation operators with the highest mode to the left, so apply the lowest first
        for m in range(f.n):
            if o[m]:
                s, i = divmod(m, f.nsites)
                v = f.cd(p[i], s).dot(v)
        out[:, k] = v
    return out


def spin_ref(n, d, p):
    out = np.zeros((d ** n, d ** n))
    for k in range(d ** n):
        a = fock.digits(k, n, d)
        b = [0] * n
        for i in range(n):
            b[p[i]] = a[i]
        j = 0
        for x in b:
            j = j * d + x
        out[j, k] = 1
    return out


def run(case, rec):
    n, p = case["n"], case["p"]
    if n in NAMES:
        g = fock.cluster(NAMES[n])
    else:
        from exact_diag.ed_geometry import Geometry
        g = Geometry.createRegularPolygonGeometry(n)
    if case["m"] == "fermion":
        from exact_diag.ed_fermions import fermions
        model = fermions(g, 0, 0, nspecies=case["k"])
        f = fock.Fermi(n, case["k"])
        ref = lambda q: fermi_ref(f, q)
        dim = f.dim
    else:
        from exact_diag.ed_spins import spinSystem
        model = spinSystem(g, spin=case["k"])
        d = int(2 * case["k"] + 1)
        ref = lambda q: spin_ref(n, d, q)
        dim = d ** n
    rs = rng(case)
    want = ref(p)
    cyc = fock.cycles_of(p)
    # any list of cycles of the permutation gives the same operator: rotated, reordered, without the fixed points
    forms = [cyc, cyc[::-1], [c for c in cyc if len(c) > 1], [c[1:] + c[:1] for c in cyc]]
    for form in forms:
        t = model.get_xform_op(form)
        rec.close(t, want, f"operator of the permutation with cycles {form}")
        rec.state(dim)
    t = np.asarray(t.toarray())
    rec.close(t.conj().T.dot(t), np.eye(dim), "operator is unitary")
    if case["m"] == "fermion":
        for s in range(case["k"]):
            for i in range(n):
                cd = model.get_single_site_op(i, s, model.cdag_op).toarray()
                cd2 = model.get_single_site_op(p[i], s, model.cdag_op).toarray()
                rec.close(t.dot(cd).dot(t.conj().T), cd2, f"creation operator of site {i} is moved to {p[i]}")
    else:
        ops = [model.sx, model.sy, model.sz]
        for i in range(n):
            for op in ops:
                a = model.get_single_site_op(i, 0, op, format="boson").toarray()
                b = model.get_single_site_op(p[i], 0, op, format="boson").toarray()
                rec.close(t.dot(a).dot(t.conj().T), b, f"spin operator of site {i} is moved to {p[i]}")
    if n <= (3 if dim > 64 or n == 3 else 4):
        for q in itertools.permutations(range(n)):
            u = model.get_xform_op(fock.cycles_of(list(q))).toarray()
            pq = [p[q[i]] for i in range(n)]
            rec.close(t.dot(u), ref(pq), f"product of the operators of {p} and {q}")
            rec.state(dim)
    # swaps
    moved = [i for i in range(n) if p[i] != i]
    if len(moved) == 2:
        i, j = moved
        if case["m"] == "spin":
            rec.close(model.get_swap_op(i, j), want, f"swap of {i} and {j}")
            rec.close(model.get_swap_op(j, i), want, f"swap of {j} and {i}")
        else:
            tot = np.eye(dim)
            for s in range(case["k"]):
                a = model.get_swap_op(i, j, s).toarray()
                rec.close(model.get_swap_op(j, i, s), a, "swap is symmetric")
                for s2 in range(case["k"]):
                    for k in range(n):
                        src = f.cd(k, s2)
                        dst = f.cd(p[k] if s2 == s else k, s2)
                        rec.close(a.dot(src).dot(a.conj().T), dst, f"swap of {i} and {j} moves species {s} only")
                tot = tot.dot(a)
            rec.close(tot, want, "product of the swaps of all species")
    rec.outcome(case["m"], p)

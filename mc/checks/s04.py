"""Dihedral and space group projectors split the state space into the irreducible representations"""
import itertools
import numpy as np
from mc import fock
from mc.checks.s03 import complete, make, dim

PROP = "S04"
BOUNDS = {"quick": "D2..D7: every pair of permutations of up to 4 sites that generates the group or a quotient of it, and the "
                   "regular polygons (all choices of the reflection axis), fermions with 1 and 2 species and spins 1/2 and 1 "
                   "up to 256 states; all 72 elements of the space group of the 3x3 torus for spin 1/2 and spinless fermions; "
                   "D_n also in every sector of given particle number",
          "thorough": "every pair of permutations of up to 5 sites, polygons up to 729 states"}
NAMES = {1: "site", 2: "far", 3: "ell3", 4: "tee4", 5: "poly5"}


def compose(p, q):
    return tuple(p[i] for i in q)


def power(p, k):
    out = tuple(range(len(p)))
    for _ in range(k):
        out = compose(p, out)
    return out


def pairs(N, n):
    e = tuple(range(N))
    for r in itertools.permutations(range(N)):
        if power(r, n) != e:
            continue
        for s in itertools.permutations(range(N)):
            if compose(s, s) == e and compose(s, compose(r, s)) == power(r, n - 1):
                yield list(r), list(s)


def cases(tier):
    th = tier == "thorough"
    out = []
    for N in range(1, 5 + th):
        for n in range(2, 8):
            for r, s in pairs(N, n):
                for m in ("f1", "s2") + (("f2",) if N <= 3 else ()):
                    out.append({"kind": "D", "n": n, "N": N, "r": r, "s": s, "m": m})
    for n in range(3, 8):
        for a in range(n):
            for step in range(1, n):
                if np.gcd(step, n) == 1:
                    for m in ("f1", "f2", "s2", "s3"):
                        if dim(m, n) <= (729 if th else 256):
                            out.append({"kind": "D", "n": n, "N": n, "r": [(i + step) % n for i in range(n)],
                                        "s": [(a - i) % n for i in range(n)], "m": m})
    # rectangle 2x3: D2 and inversion
    out.append({"kind": "D", "n": 2, "N": 6, "r": [5, 4, 3, 2, 1, 0], "s": [1, 0, 3, 2, 5, 4], "m": "s2"})
    out.append({"kind": "D", "n": 2, "N": 6, "r": [5, 4, 3, 2, 1, 0], "s": [1, 0, 3, 2, 5, 4], "m": "f1"})
    out += [{"kind": "reject", "n": n, "m": "f1", "N": n} for n in range(3, 6)]
    out += [{"kind": "rejectC", "n": n, "m": m, "N": n} for n in range(2, 6) for m in ("f1", "s2")]
    out += [{"kind": "space", "m": m, "N": 9, "n": 0} for m in ("s2", "f1")]
    return out


def cost(c):
    return dim(c["m"], c["N"]) ** 2.2 * (20 if c["kind"] == "space" else 1) + 500


def chars(n):
    """irreducible characters of D_n: list of functions (is reflection, power of rotation) -> character, with the dimension"""
    out = [(1, lambda refl, k: 1.0), (1, lambda refl, k: -1.0 if refl else 1.0)]
    if n % 2 == 0:
        out.append((1, lambda refl, k: (-1.0) ** k))
        out.append((1, lambda refl, k: (-1.0) ** k * (-1 if refl else 1)))
    for j in range(1, (n + 1) // 2 if n % 2 else n // 2):
        out.append((2, lambda refl, k, j=j: 0.0 if refl else 2 * np.cos(2 * np.pi * j * k / n)))
    return out


# order of the representations where it is documented, as indices into chars(n)
DOCUMENTED = {2: [0, 1, 2, 3], 3: [0, 1, 2], 4: [0, 1, 2, 3, 4], 5: [0, 1, 3, 2], 6: [0, 1, 2, 3, 5, 4], 7: [0, 1, 2, 3, 4]}


def run(case, rec):
    from exact_diag import ed_symmetry as sy
    from exact_diag.ed_geometry import Geometry
    if case["kind"] == "space":
        return space(case, rec)
    if case["kind"].startswith("reject"):
        return reject(case, rec)
    n, N = case["n"], case["N"]
    d = dim(case["m"], N)
    g = fock.cluster(NAMES[N]) if N in NAMES else Geometry.createRegularPolygonGeometry(N)
    model = make(case["m"], g)
    r = model.get_xform_op(fock.cycles_of(case["r"]))
    s = model.get_xform_op(fock.cycles_of(case["s"]))
    fn = [None, None, sy.getD2Projectors, sy.getD3Projectors, sy.getD4Projectors, sy.getD5Projectors, sy.getD6Projectors,
          sy.getD7Projectors][n]
    projs = fn(r, s)
    table = chars(n)
    rec.require(len(projs) == len(table), f"D{n} has {len(table)} representations")
    mats = complete(projs, d, rec)
    rot = [np.eye(d)]
    for _ in range(n - 1):
        rot.append(r.toarray().dot(rot[-1]))
    els = [((False, k), rot[k]) for k in range(n)] + [((True, k), rot[k].dot(s.toarray())) for k in range(n)]
    want = []
    for dd, chi in table:
        want.append(sum(dd / (2 * n) * chi(*e) * m for e, m in els))
        rec.state(d)
    got = [p.conj().T.dot(p) for p in mats]
    if n in DOCUMENTED:
        for i, j in enumerate(DOCUMENTED[n]):
            rec.close(got[i], want[j], f"sector {i} of D{n} is representation {j}")
    else:
        left = list(range(len(want)))
        for i in range(len(got)):
            hit = [j for j in left if np.max(np.abs(got[i] - want[j])) < 1e-9]
            rec.require(len(hit) > 0, f"sector {i} of D{n} is not one of the irreducible representations")
            left.remove(hit[0])
    rec.outcome(n, case["m"], [p.shape[0] for p in mats])
    # in the sectors of given particle number or magnetisation, where some representations occur once or not at all
    if case["m"] in ("f1", "s2"):
        counts = np.array([sum(fock.occ(k, N)) for k in range(d)])
        for m in range(N + 1):
            idx = np.where(counts == m)[0]
            mats = complete(fn(r[idx][:, idx], s[idx][:, idx]), len(idx), rec)
            rec.require(len(mats) == len(table), f"D{n} has {len(table)} representations")
            for i, j in enumerate(DOCUMENTED[n]):
                rec.close(mats[i].conj().T.dot(mats[i]), want[j][np.ix_(idx, idx)], f"sector {i} of D{n} with {m} particles")


# expectation value of (reflection, rotated reflection, half turn, quarter turn, shift, diagonal shift) in each sector
SPACE = [[1, 1, 1, 1, 1, 1], [-1, -1, 1, 1, 1, 1], [1, -1, 1, -1, 1, 1], [-1, 1, 1, -1, 1, 1], [0, 0, -1, 0, 1, 1],
         [0, -.5, 0, 0, -.5, .25], [-.5, 0, 0, 0, .25, -.5], [.5, 0, 0, 0, .25, -.5], [0, .5, 0, 0, -.5, .25]]


def space(case, rec):
    from exact_diag import ed_symmetry as sy
    from exact_diag.ed_geometry import Geometry
    g = Geometry.createSquareGeometry(3, 3, 0., 0., False, False)
    model = make(case["m"], g)
    d = dim(case["m"], 9)
    fns = [sy.getRotFn(4), sy.getReflFn(np.array([0, 1])), sy.getTranslFn(np.array([1, 0])), sy.getTranslFn(np.array([0, 1]))]
    gens = [model.get_xform_op(sy.findSiteCycles(f, g)[0]) for f in fns]
    projs = sy.getC4V_and_3byb3(*gens)
    rec.require(len(projs) == 9, "nine irreducible representations")
    mats = complete(projs, d, rec)
    R, F, X, Y = [x.toarray() for x in gens]
    for p, w in zip(mats, SPACE):
        if p.shape[0]:
            v = [np.trace(p.dot(a).dot(p.conj().T)) / p.shape[0] for a in (F, R.dot(F), R.dot(R), R, X, X.dot(Y))]
            rec.close(v, w, "characters of the sectors, in their order", 1e-8)
    # the group of site permutations, from the model
    pts = [(int(round(x)), int(round(y))) for x, y in zip(g.xlocs, g.ylocs)]
    ind = {(x % 3, y % 3): i for i, (x, y) in enumerate(pts)}
    perm = lambda f: tuple(ind[tuple(v % 3 for v in f(x, y))] for x, y in pts)
    elems = {tuple(range(9))}
    gp = [perm(lambda x, y: (-y, x)), perm(lambda x, y: (-x, y)), perm(lambda x, y: (x + 1, y)), perm(lambda x, y: (x, y + 1))]
    frontier = list(elems)
    while frontier:
        new = []
        for e in frontier:
            for h in gp:
                c = compose(h, e)
                rec.trans()
                if c not in elems:
                    elems.add(c)
                    new.append(c)
        frontier = new
    rec.require(len(elems) == 72, "order of the space group")
    ops = {e: model.get_xform_op(fock.cycles_of(list(e))).toarray() for e in elems}
    inv = {e: next(h for h in elems if compose(h, e) == tuple(range(9))) for e in elems}
    classes, seen = [], set()
    for e in sorted(elems):
        if e not in seen:
            c = {compose(h, compose(e, inv[h])) for h in elems}
            seen |= c
            classes.append(c)
    rec.require(len(classes) == 9, "number of conjugacy classes")
    labels = set()
    for i, p in enumerate(mats):
        lab = []
        for c in classes:
            m = sum(ops[e] for e in c)
            mp = m.dot(p.conj().T)
            if p.shape[0] == 0:
                continue
            val = (p.dot(mp)).trace() / p.shape[0]
            rec.close(mp, val * p.conj().T, f"class sum acts on sector {i} as a number", 1e-8)
            lab.append(round(float(np.real(val)), 5) + 0.0)
            rec.state(d)
        if p.shape[0]:
            rec.require(tuple(lab) not in labels, f"sector {i} is the same representation as another one")
            labels.add(tuple(lab))
    # representations present, by characters of the permutation representation: one sector for each
    rec.require(len(labels) == sum(p.shape[0] > 0 for p in mats), "distinct representations")
    rec.outcome(case["m"], [p.shape[0] for p in mats])


def reject(case, rec):
    """a character table of D_n with one wrong entry is refused"""
    from exact_diag import ed_symmetry as sy
    n = case["n"]
    if case["kind"] == "rejectC":
        # cyclic groups, whose characters are complex
        model = make(case["m"], fock.cluster("poly%d" % n if n > 2 else "dimer"))
        r = model.get_xform_op([list(range(n))])
        ops = [[r ** k if k else r ** n] for k in range(n)]
        table = np.exp(-2j * np.pi * np.outer(range(n), range(n)) / n)
        complete(sy.get_symmetry_projectors(table, ops), dim(case["m"], n), rec)
        return damage(table, ops, rec)
    model = make("f1", fock.cluster("poly%d" % n))
    r = model.get_xform_op([list(range(n))])
    s = model.get_xform_op(fock.cycles_of([(-i) % n for i in range(n)]))
    e = r ** n
    els = {(False, k): r ** k if k else e for k in range(n)}
    els.update({(True, k): els[(False, k)] * s for k in range(n)})
    classes = [[(False, 0)]]
    classes += [sorted({(False, k), (False, n - k)}) for k in range(1, n // 2 + 1)]
    classes += [[(True, k) for k in range(n)]] if n % 2 else [[(True, k) for k in range(0, n, 2)], [(True, k) for k in range(1, n, 2)]]
    table = np.array([[chi(*c[0]) for c in classes] for _, chi in chars(n)])
    ops = [[els[x] for x in c] for c in classes]
    mats = complete(sy.get_symmetry_projectors(table, ops), 2 ** n, rec)
    for i, (dd, chi) in enumerate(chars(n)):
        want = sum(dd / (2 * n) * chi(*x) * m.toarray() for x, m in els.items())
        rec.close(mats[i].conj().T.dot(mats[i]), want, f"sector of representation {i}")
    damage(table, ops, rec)
    rec.outcome("reject", n)


def damage(table, ops, rec):
    from exact_diag import ed_symmetry as sy
    for i in range(table.shape[0]):
        for j in range(table.shape[1]):
            for dv in (1, -1, 2, 0.1, -0.2, 0.01, 0.3j, -0.05j):
                bad = table.astype(complex) if isinstance(dv, complex) else table.copy()
                bad[i, j] += dv
                if abs(abs(bad[i, j]) - abs(table[i, j])) < 1e-9 and np.count_nonzero(table[i]) == 1:
                    continue
                rec.raises(lambda: sy.get_symmetry_projectors(bad, ops), Exception, f"wrong character {i}, {j} was accepted")
                rec.state()

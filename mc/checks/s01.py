"""Coordinate symmetries act on the sites as they act on the positions"""
import itertools
import numpy as np
from mc import geo, fock

PROP = "S01"
BOUNDS = {"quick": "all small lattice clusters (up to 9 sites, all boundary conditions), polygons 3..8, point sets of up to 4 "
                   "points in a 3x3 box; rotations of order 2,3,4,6 (and n for polygons), reflections along 6 axes, inversion, "
                   "8 translations, each about up to 4 centres; all permutations of up to 5 sites as transformations",
          "thorough": "all clusters of the thorough tier of G01 up to 16 sites; point sets of up to 5 points; permutations of "
                      "up to 6 sites"}
S3 = np.sqrt(3.0)
AXES = [[1, 0], [0, 1], [1, 1], [1, -1], [1, S3], [S3, -1]]


def cases(tier):
    out = [{"kind": "fn"}]
    for n in range(1, 6 if tier == "quick" else 7):
        out.append({"kind": "perm", "n": n})
    out += [{"kind": "polygon", "nsides": n} for n in range(3, 9 if tier == "quick" else 12)]
    box = [(x, y) for x in range(3) for y in range(3)]
    for k in range(1, 5 if tier == "quick" else 6):
        for c in itertools.combinations(box, k):
            if min(p[0] for p in c) == 0 and min(p[1] for p in c) == 0:
                out.append({"kind": "points", "pts": [list(p) for p in c]})
    return out + geo.specs(tier, small=(tier == "quick"))


def cost(c):
    if c["kind"] == "perm":
        return 10 if c["n"] < 6 else 400
    return 1 + (geo.spec_size(c) if c["kind"] not in ("polygon", "points", "fn") else 4)


def ref_fn(t):
    k = t["t"]
    c = complex(*t.get("c", [0, 0]))
    if k == "rot":
        ph = np.exp(2j * np.pi / t["n"])
        return lambda z: c + (z - c) * ph
    if k == "refl":
        u = complex(*t["v"])
        u2 = (u / abs(u)) ** 2
        return lambda z: c + u2 * np.conj(z - c)
    if k == "inv":
        return lambda z: 2 * c - z
    return lambda z: z + complex(*t["v"])


def impl_fn(t):
    from exact_diag import ed_symmetry as sy
    k = t["t"]
    c = t.get("c", [0, 0])
    if k == "rot":
        return sy.getRotFn(t["n"], cx=c[0], cy=c[1])
    if k == "refl":
        return sy.getReflFn(np.array(t["v"]), cx=c[0], cy=c[1])
    if k == "inv":
        return sy.getInversionFn(cx=c[0], cy=c[1])
    return sy.getTranslFn(np.array(t["v"]))


def transformations(centres, orders, shifts):
    out = []
    for c in centres:
        c = [float(c[0]), float(c[1])]
        out += [{"t": "rot", "n": n, "c": c} for n in orders]
        out += [{"t": "refl", "v": v, "c": c} for v in AXES]
        out.append({"t": "inv", "c": c})
    out += [{"t": "trans", "v": [float(v[0]), float(v[1])]} for v in shifts]
    return out


def site_map(xs, ys, f, periods):
    """image of each site, or None where the image is not a site"""
    z = np.asarray(xs) + 1j * np.asarray(ys)
    out = []
    for i in range(len(z)):
        d = f(z[i]) - z
        if len(periods) == 2:
            m = np.linalg.solve(np.array(periods).T, np.array([d.real, d.imag]))
            ok = np.max(np.abs(m - np.round(m)), axis=0) < 1e-7
        elif len(periods) == 1:
            p = complex(*periods[0])
            m = d / p
            ok = (np.abs(m.imag) < 1e-7) & (np.abs(m.real - np.round(m.real)) < 1e-7)
        else:
            ok = np.abs(d) < 1e-7
        w = np.where(ok)[0]
        out.append(int(w[0]) if len(w) else None)
    return out


def check_cycles(fn, g, pi, rec, what):
    from exact_diag import ed_symmetry as sy
    n = g.nsites
    if None in pi or len(set(pi)) != n:
        rec.raises(lambda: sy.findSiteCycles(fn, g), Exception, f"{what}: sites are not mapped to each other by {pi}, but cycles were returned")
        return False
    ref = int(np.lcm.reduce([len(c) for c in fock.cycles_of(pi)]))
    try:
        cycles, order = sy.findSiteCycles(fn, g)
    except Exception:
        # transformations that need more applications than there are sites may be refused; no isometry of the cluster does
        if ref > n + 1:
            return False
        raise
    succ = {}
    for c in cycles:
        for a, b in zip(c, list(c[1:]) + [c[0]]):
            rec.require(a not in succ, f"{what}: site {a} is in the cycles {cycles} twice")
            succ[int(a)] = int(b)
    rec.require(succ == dict(enumerate(pi)), f"{what}: cycles {cycles}, but sites are mapped by {pi}")
    rec.require(order == ref, f"{what}: {order} transformations to come back, expected {ref}")
    a, b = sy.getTransformedSites(fn, list(range(n)), g)
    rec.require(list(map(int, a)) == list(range(n)) and list(map(int, b)) == pi, f"{what}: transformed sites {b}, expected {pi}")
    rec.state(n)
    return True


def run(case, rec):
    from exact_diag.ed_geometry import Geometry
    kind = case["kind"]
    if kind == "fn":
        pts = np.array(list(itertools.product([-2.3, 0., 1., 2.5], repeat=2)))
        z = pts[:, 0] + 1j * pts[:, 1]
        for t in transformations([(0, 0), (1, 0), (0.5, -1.5), (-2.2, 3)], [1, 2, 3, 4, 5, 6, 7, 8, 12],
                                 [(0, 0), (1, 0), (0.5, -3), (-1, 2)]):
            got = np.asarray(impl_fn(t)(pts[:, 0], pts[:, 1]))
            w = ref_fn(t)(z)
            rec.close(got, np.array([w.real, w.imag]), f"image of positions under {t}")
            rec.state(len(z))
        rec.outcome(0)
        return
    if kind == "perm":
        # any permutation, as a transformation of positions on a line
        n = case["n"]
        g = Geometry.createNonPeriodicGeometry(np.arange(n, dtype=float), np.zeros(n))
        for p in itertools.permutations(range(n)):
            def fn(xs, ys, p=p):
                return np.array([np.array(p, dtype=float)[np.round(xs).astype(int)], ys])
            check_cycles(fn, g, list(p), rec, f"permutation {p}")
        rec.outcome(n)
        return
    orders = [2, 3, 4, 6]
    shifts = [(1, 0), (0, 1), (-1, 0), (1, 1), (2, -1), (0.5, S3 / 2), (1.5, S3 / 2), (0.5, 0)]
    if kind == "polygon":
        g = Geometry.createRegularPolygonGeometry(case["nsides"])
        orders = sorted(set(orders + [case["nsides"]]))
        periods = []
    elif kind == "points":
        xs, ys = zip(*case["pts"])
        g = Geometry.createNonPeriodicGeometry(np.array(xs, dtype=float), np.array(ys, dtype=float))
        periods = []
    else:
        g = geo.build(case)
        m = geo.Model(case)
        periods = [p for p, o in zip(m.p, m.open) if not o]
    xs, ys = np.asarray(g.xlocs), np.asarray(g.ylocs)
    com = [xs.mean(), ys.mean()]
    centres = []
    for c in ([0., 0.], com, [xs[0], ys[0]], [(xs[0] + xs[-1]) / 2, (ys[0] + ys[-1]) / 2]):
        if not any(np.allclose(c, d) for d in centres):
            centres.append(c)
    cx, cy = g.get_center_of_mass()
    rec.close([float(np.squeeze(cx)), float(np.squeeze(cy))], com, "centre of mass")
    hits = []
    for t in transformations(centres, orders, shifts):
        pi = site_map(xs, ys, ref_fn(t), periods)
        if check_cycles(impl_fn(t), g, pi, rec, str(t)):
            hits.append(tuple(pi))
    rec.outcome(hits)

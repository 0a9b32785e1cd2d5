"""Relabelling the sites of a cluster: all histories of permutations, sorting and comparisons"""
import copy
import itertools
import numpy as np
from mc import geo

PROP = "G05"
BOUNDS = {"quick": "33 clusters (open, periodic, twisted, with given adjacency and phases) of up to 5 (a few of 6 to 11) sites: every "
                   "permutation (all pairs of successive permutations for up to 4 sites); every non-permutation with "
                   "entries -1..n for up to 3 sites; every sorting mode from every labelling; equality of all pairs, of all lattices of a family varying one or two parameters, and of clusters with every given adjacency of 4 sites",
          "thorough": "the same with all pairs of permutations for 5 sites and all triples for 3 sites"}
FIELDS = ("xdist_mat", "ydist_mat", "adjacency_mat", "phase_mat")


def clusters():
    out = []
    for pts in ([[0, 0]], [[0, 0], [1, 0]], [[0, 0], [0, 1], [1, 1]], [[0, 0], [2, 0], [1, 0]], [[0, 0], [1, 0], [1, 1], [0, 1]],
                [[0, 0], [1, 0], [2, 0], [1, 1]], [[0, 3], [1, 0], [1, 1], [-2, 1]], [[0, 0], [1, 0], [1, 1], [1, 2], [2, 2]],
                [[-1, 0], [0, 0], [1, 0], [0, 1], [0, -1]]):
        out.append({"kind": "points", "pts": pts})
    out.append({"kind": "given", "n": 3})
    out.append({"kind": "given", "n": 4})
    for s in ([2, 2], [3, 1], [4, 1], [5, 1], [1, 3]):
        for ph in ([0., 0.], [0.7, 0.3]):
            out.append({"kind": "square", "n": s, "phases": ph, "open": [int(s[0] == 1), int(s[1] == 1)]})
    out.append({"kind": "tilted", "n": [2, 1], "phases": [0.5, 0.9], "open": [0, 0]})
    out.append({"kind": "triangle", "n": [2, 2], "phases": [0.5, 0.9], "open": [0, 1]})
    # coordinates which are not integers, and longer clusters
    for pts in ([[0, 0], [0.4, 0.3], [1, -0.2], [0.2, 0.3]], [[0.5, 2.6], [0, 3.46], [1.7, 2.6], [-1, 3.2]], [[0, -0.4], [1, 0.4], [2, -0.4], [3, 0.3], [0, 1.6]],
                [[0.5, -1.6], [0, -1.2], [1, -0.9]], [[i, 0] for i in range(11)], [[i, 0] for i in range(5)] + [[1, 1], [4, 1], [4, 2]]):
        out.append({"kind": "points", "pts": pts})
    out.append({"kind": "hexagon", "n": [1, 2], "phases": [0., 0.], "open": [1, 1]})
    out.append({"kind": "triangle", "n": [2, 3], "phases": [0.5, 0.], "open": [1, 0]})
    return out


def perms(n):
    """every permutation of up to 5 sites; identity, shifts, reversals and all transpositions beyond"""
    if n <= 5:
        return list(itertools.permutations(range(n)))
    out = []
    for k in range(n):
        out.append(tuple((i + k) % n for i in range(n)))
        out.append(tuple((k - i) % n for i in range(n)))
    for i in range(n):
        for j in range(i):
            p = list(range(n))
            p[i], p[j] = j, i
            out.append(tuple(p))
    return out


def build(c):
    from exact_diag.ed_geometry import Geometry
    if c["kind"] == "points":
        xs, ys = zip(*c["pts"])
        return Geometry.createNonPeriodicGeometry(np.array(xs), np.array(ys))
    if c["kind"] == "given":
        n = c["n"]
        adj = np.zeros((n, n))
        ph = np.ones((n, n), dtype=complex)
        for i in range(n):
            for j in range(i):
                adj[i, j] = adj[j, i] = (i + j) % 2
                ph[i, j] = np.exp(1j * (0.3 * i + 0.11 * j))
                ph[j, i] = np.conj(ph[i, j])
        return Geometry.createNonPeriodicGeometry(np.arange(n) * 1.5, np.arange(n) ** 2 * 0.7, adj, ph)
    return geo.build(c)


def size(c):
    return len(c["pts"]) if c["kind"] == "points" else (c["n"] if c["kind"] == "given" else geo.spec_size(c))


def cases(tier):
    out = []
    for i, c in enumerate(clusters()):
        out.append({"what": "perm", "c": c, "depth": 2 if size(c) <= (4 if tier == "quick" else 5) else 1})
        if tier == "thorough" and size(c) <= 3:
            out.append({"what": "perm", "c": c, "depth": 3})
        out.append({"what": "sort", "c": c})
        out.append({"what": "equal", "c": c, "i": i})
        if size(c) <= 3:
            out.append({"what": "nonperm", "c": c})
    out.append({"what": "lattices", "c": {"kind": "points", "pts": [[0, 0]]}})
    out.append({"what": "given", "c": {"kind": "points", "pts": [[0, 0]]}})
    out.sort(key=lambda c: size(c["c"]))
    return out


def cost(c):
    n = size(c["c"])
    f = float(np.prod(range(1, n + 1)))
    return f ** c["depth"] if c["what"] == "perm" else f


def snap(g):
    d = {k: np.array(getattr(g, k)) for k in FIELDS}
    d["xlocs"], d["ylocs"] = np.array(g.xlocs), np.array(g.ylocs)
    return d


def relabel(d, p):
    """site p[j] becomes site j"""
    p = list(p)
    out = {k: d[k][np.ix_(p, p)] for k in FIELDS}
    out["xlocs"], out["ylocs"] = d["xlocs"][p], d["ylocs"][p]
    return out


def compare(rec, g, d, msg):
    for k, v in d.items():
        rec.close(getattr(g, k), v, f"{msg}: {k}", tol=1e-12)
    rec.require(g.nsites == len(d["xlocs"]), "number of sites")


def run(case, rec):
    c = case["c"]
    n = size(c)
    if case["what"] == "perm":
        ref = snap(build(c))
        for hist in itertools.product(perms(n), repeat=case["depth"]):
            rec.state()
            g = build(c)
            d = ref
            for k, p in enumerate(hist):
                arg = list(p) if k % 2 == 0 else np.array(p)
                ret = g.permute_sites(arg)
                d = relabel(d, p)
                compare(rec, g, d, f"after permutations {hist[:k + 1]}")
            rec.require(g.validate_instance(), "relabelled cluster is not valid")
            rec.outcome(d["adjacency_mat"], d["xlocs"], d["ylocs"])
    elif case["what"] == "nonperm":
        g = build(c)
        ref = snap(g)
        for k in (n, n - 1, n + 1):
            for p in itertools.product(range(-1, n + 1), repeat=k):
                rec.state()
                if sorted(p) == list(range(n)):
                    continue
                rec.raises(lambda: g.permute_sites(list(p)), (ValueError, IndexError, TypeError), f"permutation {p} is accepted")
                compare(rec, g, ref, f"rejected permutation {p} changes the cluster")
    elif case["what"] == "lattices":
        # lattices are equal exactly if all of their parameters are
        from exact_diag.ed_geometry import Lattice
        base = [(1., 0.), (0., 1.), ((0., 0.),), (4., 0.), (0., 2.), 0.7, 0.3]
        alt = [[(0., 1.), (1., 1.), (2., 0.), (-1., 0.)], [(1., 1.), (0., -1.), (0., 2.), (-1., 1.)],
               [((0.5, 0.),), ((0., 0.), (0.5, 0.)), ((0.5, 0.), (0., 0.)), ((0., 0.5),), ((0., -0.5),)], [(2., 0.), (4., 2.), (0., 0.), (-4., 0.)],
               [(0., 4.), (0., 0.), (2., 2.), (0., -2.)], [0., -0.7, 0.3, 0.7 + 2 * np.pi, 0.701], [0., -0.3, 0.7, 0.3 - 2 * np.pi, 0.299]]
        objs = [tuple(base)]
        for k, vals in enumerate(alt):
            for v in vals:
                p = list(base)
                p[k] = v
                objs.append(tuple(p))
        for a in alt[5]:
            for b in alt[6]:
                objs.append(tuple(base[:5]) + (a, b))
        good = []
        for o in objs:
            try:
                good.append((o, Lattice(o[0], o[1], [list(v) for v in o[2]], o[3], o[4], o[5], o[6])))
            except ValueError:
                continue
        rec.require(len(good) > 30, "lattices are accepted")
        for o, a in good:
            rec.require(not (a == None) and a != None, "lattice compared to nothing")
            for p, b in good:
                same = o == p
                rec.require(bool(a == b) == same and bool(a != b) != same, f"lattices {o} and {p}")
                rec.state()
    elif case["what"] == "given":
        # clusters with given adjacency and phases, equal only if every entry agrees
        from exact_diag.ed_geometry import Geometry
        adjs = []
        for e in itertools.product((0, 1), repeat=6):
            a = np.zeros((4, 4))
            for v, (i, j) in zip(e, itertools.combinations(range(4), 2)):
                a[i, j] = a[j, i] = v
            adjs.append(a)
        phs = []
        for e in itertools.product((0., 0.4, -0.4, 0.401), repeat=2):
            p = np.ones((4, 4), dtype=complex)
            for v, (i, j) in zip(e, ((0, 1), (2, 3))):
                p[i, j], p[j, i] = np.exp(1j * v), np.exp(-1j * v)
            phs.append(p)
        fam = [(a, phs[1]) for a in adjs] + [(adjs[21], p) for p in phs]
        gs = [Geometry.createNonPeriodicGeometry([0, 1, 3, 4.5], [0, 0, 1, 0], a.copy(), p.copy()) for a, p in fam]
        for (a, p), g in zip(fam, gs):
            for (b, q), h in zip(fam, gs):
                same = np.array_equal(a, b) and np.array_equal(p, q)
                rec.require(bool(g == h) == same and bool(g != h) != same, "clusters with given adjacency and phases")
                rec.state()
    elif case["what"] == "sort":
        g0 = build(c)
        ref = snap(g0)
        rec.raises(lambda: g0.get_sorting_permutation("nonsense"), ValueError, "unknown sorting mode is accepted")
        integer = np.allclose(ref["ylocs"], np.round(ref["ylocs"])) and np.allclose(ref["xlocs"], np.round(ref["xlocs"]))
        canon = {}
        for p in perms(n):
            for mode in ("top_alternating", "top_left", "bottom_right", "adjacency"):
                if mode == "top_alternating" and not integer:
                    continue
                rec.state()
                g = build(c)
                g.permute_sites(list(p))
                before = snap(g)
                if mode == "top_alternating":
                    q = np.asarray(g.get_sorting_permutation())
                    rec.close(q, g.get_sorting_permutation(sorting_mode=mode), "default sorting mode")
                else:
                    q = np.asarray(g.get_sorting_permutation(mode))
                compare(rec, g, before, "computing the sorting permutation changes the cluster")
                rec.require(sorted(q.tolist()) == list(range(n)), f"{q} is not a permutation")
                g.permute_sites(q)
                compare(rec, g, relabel(before, q), f"sorting {mode}")
                xs, ys = np.round(g.xlocs).astype(int), np.round(g.ylocs).astype(int)
                if mode == "adjacency":
                    a = np.array(g.adjacency_mat)
                    deg = a.sum(1)
                    keys = []
                    ak = np.eye(n)
                    for _ in range(n):
                        ak = ak.dot(a)
                        keys.append(ak.sum(1))
                    ks = [tuple(k[i] for k in keys) for i in range(n)]
                    rec.require(all(deg[i] <= deg[i + 1] for i in range(n - 1)), "sites sorted by number of adjacent sites")
                    rec.require(ks == sorted(ks), "ties sorted by number of walks")
                    continue
                if not integer:
                    s = -1 if mode == "top_left" else 1
                    rec.require(all(s * (g.ylocs[i + 1] - g.ylocs[i]) > -1e-9 and (g.ylocs[i + 1] != g.ylocs[i] or g.xlocs[i + 1] > g.xlocs[i])
                                    for i in range(n - 1)), f"sites are not in {mode} order: {list(zip(g.xlocs, g.ylocs))}")
                    continue
                top = ref["ylocs"].max()
                key = {"top_left": lambda x, y: (-y, x), "bottom_right": lambda x, y: (y, x),
                       "top_alternating": lambda x, y: (-y, x * (-1) ** (int(round(top)) - y))}[mode]
                ks = [key(x, y) for x, y in zip(xs, ys)]
                rec.require(ks == sorted(ks), f"sites are not in {mode} order: {list(zip(xs, ys))}")
                if mode in canon:
                    compare(rec, g, canon[mode], f"sorted cluster depends on the labels before sorting ({mode})")
                else:
                    canon[mode] = snap(g)
    else:
        from exact_diag.ed_geometry import Geometry
        g = build(c)
        others = clusters()
        for j, o in enumerate(others):
            h = build(o)
            same = j == case["i"]
            rec.state()
            rec.require((g == h) is same or bool(g == h) == same, f"cluster {c} == {o} is {g == h}")
            rec.require(bool(g != h) == (not same), f"cluster {c} != {o} is {g != h}")
        for p in perms(n):
            h = build(c)
            h.permute_sites(list(p))
            d, e = snap(g), snap(h)
            same = all(np.array_equal(d[k], e[k]) for k in d)
            rec.state()
            rec.require(bool(g == h) == same and bool(h == g) == same and bool(g != h) != same, f"equality under permutation {p}")
            same_adj = all(np.array_equal(d[k], e[k]) for k in ("xdist_mat", "ydist_mat", "adjacency_mat"))
            rec.require(bool(g.isequal_adjacency(h)) == same_adj, f"adjacency equality under permutation {p}")
        # one field is changed at a time
        for k in FIELDS + ("xlocs", "ylocs"):
            h = build(c)
            a = np.array(getattr(h, k), dtype=complex if k == "phase_mat" else float)
            a.ravel()[-1] += 1
            setattr(h, k, a)
            rec.require(not (g == h) and g != h, f"clusters with different {k} are equal")
        if c["kind"] == "points" and all(isinstance(x, int) for p in c["pts"] for x in p):
            for sx, sy in itertools.product(range(-2, 3), repeat=2):
                xs, ys = zip(*c["pts"])
                h = Geometry.createNonPeriodicGeometry(np.array(xs) + sx, np.array(ys) + sy)
                rec.require(bool(g == h) == (sx == 0 and sy == 0), "translated cluster")
                rec.require(bool(g.isequal_adjacency(h)), "translated cluster has the same adjacency and distances")
        elif c["kind"] not in ("given", "points"):
            # same sites, other twist angles
            for ph in ([0., 0.], [0.7, 0.3], [0.7, 0.], [0., 0.3], [0.5, 0.9], [-0.7, 0.3], [0.7, -0.3], [-0.5, -0.9], [0.7, 0.301], [0.5, 0.]):
                o = dict(c, phases=ph)
                same = list(ph) == list(c["phases"])
                rec.require(bool(g == build(o)) == same, f"equality of clusters with twist angles {c['phases']} and {ph}")

"""Reference model of clusters of lattices, in integer lattice coordinates, and enumeration of cluster specifications"""
import itertools
import numpy as np
from fractions import Fraction

S3 = np.sqrt(3.0)
LATTICES = {
    # name: (lattice vector 1, lattice vector 2, basis vectors)
    "square": ((1, 0), (0, 1), ((0, 0),)),
    "triangle": ((1, 0), (0.5, S3 / 2), ((0, 0),)),
    "hexagon": ((1.5, S3 / 2), (1.5, -S3 / 2), ((-1, 0), (-0.5, S3 / 2))),
    "sheared": ((1, 0), (1, 1), ((0, 0),)),
    "rect2": ((2, 0), (0, 1), ((0, 0), (1, 0))),
    "lieb": ((2, 0), (0, 2), ((0, 0), (1, 0), (0, 1))),
    "kagome": ((2, 0), (1, S3), ((0, 0), (1, 0), (0.5, S3 / 2))),
}
NAMES = list(LATTICES)
# lattices with distances close to, but different from, one lattice constant
LATTICES["near1"] = ((1, 0), (0, 1.001), ((0, 0),))
LATTICES["near2"] = ((0.999, 0), (0.3, 1.04), ((0, 0), (0.5, 0.52)))
LATTICES["near3"] = ((1.02, 0), (0, 2), ((0, 0), (0, 1)))
LATTICES["rotated"] = ((np.cos(0.3), np.sin(0.3)), (-np.sin(0.3), np.cos(0.3)), ((0, 0),))


def skewed():
    """pairs of strongly oblique periodicity vectors, which span the same cells as short ones"""
    out = []
    for p1, p2 in (((2, 0), (0, 2)), ((3, 0), (0, 1)), ((2, 1), (-1, 2)), ((1, 0), (0, 4))):
        for w in ((3,), (-3,), (2, 2), (-2, 3), (2, -2), (-3, -2), (2, 2, 2), (-2, 2, -2), (1, 1, 1, 1, 1), (-2, -1, -2)):
            a, b = p1, p2
            for k in w:
                a, b = b, (a[0] + k * b[0], a[1] + k * b[1])
            out.append((a, b))
            if len(w) == 2:
                out.append((b, a))
    return out


def spec_params(spec):
    """(lattice name, P1 and P2 in units of the lattice vectors, phases, open) of a specification"""
    kind = spec["kind"]
    a, b = spec["n"]
    if kind == "square":
        return "square", (a, 0), (0, b)
    if kind == "tilted":
        return "square", (a, b), (-b, a)
    if kind == "triangle":
        return "triangle", (a, 0), (0, b)
    if kind == "hexagon":
        # (3, 0) = l1 + l2 and (0, sqrt(3)) = l1 - l2
        return "hexagon", (a, a), (b, -b)
    if kind == "general":
        return spec["latt"], tuple(spec["p1"]), tuple(spec["p2"])
    raise ValueError(kind)


def build(spec):
    """construct the cluster with the implementation"""
    from exact_diag.ed_geometry import Geometry
    kind = spec["kind"]
    ph = spec.get("phases", [0., 0.])
    o1, o2 = [bool(x) for x in spec.get("open", [1, 1])]
    if kind == "general":
        l1, l2, basis = LATTICES[spec["latt"]]
        l1, l2 = np.array(l1, dtype=float), np.array(l2, dtype=float)
        p1 = spec["p1"][0] * l1 + spec["p1"][1] * l2
        p2 = spec["p2"][0] * l1 + spec["p2"][1] * l2
        return Geometry.create_lattice_geom(l1, l2, [np.array(v, dtype=float) for v in basis], p1, p2, ph[0], ph[1], o1, o2)
    fn = {"square": Geometry.createSquareGeometry, "tilted": Geometry.createTiltedSquareGeometry,
          "triangle": Geometry.createTriangleGeometry, "hexagon": Geometry.createHexagonalGeometry}[kind]
    return fn(spec["n"][0], spec["n"][1], ph[0], ph[1], o1, o2)


class Model:
    def __init__(self, spec):
        self.latt, self.P1, self.P2 = spec_params(spec)
        l1, l2, basis = LATTICES[self.latt]
        self.L = np.array([l1, l2], dtype=float).T
        self.basis = np.array(basis, dtype=float)
        self.skew = spec.get("skew", False)
        self.open = [bool(x) for x in spec.get("open", [1, 1])]
        self.phases = spec.get("phases", [0., 0.])
        self.det = self.P1[0] * self.P2[1] - self.P1[1] * self.P2[0]
        self.nsites = abs(self.det) * len(basis)
        self.p = [self.L.dot(self.P1), self.L.dot(self.P2)]

    def lattice_coords(self, x, y):
        """integer coordinates and basis index of a position, or None"""
        for k, b in enumerate(self.basis):
            c = np.linalg.solve(self.L, np.array([x, y]) - b)
            if np.max(np.abs(c - np.round(c))) < 1e-7:
                return int(round(c[0])), int(round(c[1])), k
        return None

    def cell_class(self, c):
        """canonical representative modulo the periodicity vectors, in exact arithmetic"""
        a, b, k = c
        # solve (a, b) = s P1 + t P2
        s = Fraction(a * self.P2[1] - b * self.P2[0], self.det)
        t = Fraction(-a * self.P1[1] + b * self.P1[0], self.det)
        return s - (s.numerator // s.denominator), t - (t.numerator // t.denominator), k

    def fractions_of(self, x, y):
        return np.linalg.solve(np.array(self.p).T, np.array([x, y]))

    def images(self, r=None):
        """all combinations of the periodic periodicity vectors"""
        if r is None:
            r = 6 if max(abs(x) for p in (self.P1, self.P2) for x in p) < 8 and not self.skew else 40
        r1 = range(-r, r + 1) if not self.open[0] else [0]
        r2 = range(-r, r + 1) if not self.open[1] else [0]
        w = np.array(list(itertools.product(r1, r2)))
        return w, w.dot(np.array(self.p))


def specs(tier, phases=((0., 0.),), small=False):
    """all cluster specifications within the bound, simplest first"""
    opens = [[1, 1], [0, 1], [1, 0], [0, 0]]
    thorough = tier == "thorough"
    out = []
    nmax = (7 if thorough else 5) if not small else (5 if thorough else 4)
    for kind, nm in (("square", nmax), ("triangle", nmax - 1), ("hexagon", 3 if thorough and not small else 2)):
        for a, b in itertools.product(range(1, nm + 1), repeat=2):
            for o in opens:
                if (a == 1 and not o[0]) or (b == 1 and not o[1]):
                    continue
                out.append({"kind": kind, "n": [a, b], "open": o})
    tm = 4 if thorough and not small else 3
    for a, b in itertools.product(range(-tm, tm + 1), repeat=2):
        if a * a + b * b in (0, 1) or a * a + b * b > (18 if not small else 10):
            continue
        for o in opens:
            out.append({"kind": "tilted", "n": [a, b], "open": o})
    gm = 3 if thorough and not small else 2
    for a, b in ((1, 3), (3, 1), (2, 3), (3, 2)):
        for o in opens:
            if not small and not thorough and not ((a == 1 and not o[0]) or (b == 1 and not o[1])):
                out.append({"kind": "hexagon", "n": [a, b], "open": o})
    for latt in ("near1", "near2", "near3", "rotated"):
        for p1, p2 in (((3, 0), (0, 3)), ((2, 0), (0, 2)), ((2, 1), (-1, 2)), ((3, 0), (0, 1)), ((1, 0), (0, 3)), ((2, 0), (1, 2)), ((1, 1), (-1, 1))):
            for o in opens:
                out.append({"kind": "general", "n": [0, 0], "latt": latt, "p1": list(p1), "p2": list(p2), "open": o})
    sk = skewed()
    for latt in ("square", "triangle") + (("hexagon", "kagome") if thorough else ()):
        for p1, p2 in sk:
            for o in opens:
                out.append({"kind": "general", "n": [0, 0], "latt": latt, "p1": list(p1), "p2": list(p2), "open": o, "skew": 1})
    for latt in NAMES:
        nb = len(LATTICES[latt][2])
        for p1 in itertools.product(range(-gm, gm + 1), repeat=2):
            for p2 in itertools.product(range(-gm, gm + 1), repeat=2):
                det = abs(p1[0] * p2[1] - p1[1] * p2[0])
                if det == 0 or det * nb > (16 if not small else 9):
                    continue
                if small and not thorough and (p1[0] + 2 * p1[1] + 3 * p2[0] + 5 * p2[1]) % 3:
                    continue
                for o in opens:
                    out.append({"kind": "general", "n": [0, 0], "latt": latt, "p1": list(p1), "p2": list(p2), "open": o})
    res = []
    for s in out:
        for ph in phases:
            t = dict(s)
            t["phases"] = list(ph)
            res.append(t)
    res.sort(key=lambda s: (spec_size(s), s["kind"] == "general"))
    return res


def spec_size(s):
    latt, p1, p2 = spec_params(s)
    return abs(p1[0] * p2[1] - p1[1] * p2[0]) * len(LATTICES[latt][2])

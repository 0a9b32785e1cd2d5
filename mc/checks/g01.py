"""Every lattice cluster contains each lattice site exactly once"""
from mc import geo

PROP = "G01"
BOUNDS = {"quick": "square/triangular up to 5x5/4x4, hexagonal up to 2x3 cells, tilted squares with edge components up to "
                   "3, and every pair of periodicity vectors with components in -2..2 on 7 lattices, 56 strongly oblique pairs, 4 more lattices; all 4 boundary "
                   "conditions each",
          "thorough": "square/triangular up to 7x7/6x6, hexagonal 3x3, tilted components up to 4, every pair of "
                      "periodicity vectors with components in -3..3 on 7 lattices (up to 16 sites)"}
ASSUMPTIONS = ["the lattice coordinates of a site are recovered to 1e-7"]


def cases(tier):
    return geo.specs(tier, phases=((0., 0.),))


def cost(c):
    return 1 + geo.spec_size(c) ** 2


def run(case, rec):
    m = geo.Model(case)
    g = geo.build(case)
    rec.require(int(g.nsites) == m.nsites, f"cluster has {g.nsites} sites, expected {m.nsites}")
    rec.require(len(g.xlocs) == m.nsites and len(g.ylocs) == m.nsites, "number of coordinates")
    seen = {}
    for i, (x, y) in enumerate(zip(g.xlocs, g.ylocs)):
        rec.state()
        c = m.lattice_coords(x, y)
        rec.require(c is not None, f"site {i} at ({x}, {y}) is not a lattice site")
        cl = m.cell_class(c)
        rec.require(cl not in seen, f"sites {seen.get(cl)} and {i} are the same site of the periodic lattice")
        seen[cl] = i
        f = m.fractions_of(x, y)
        rec.require(min(f) > -1e-9 and max(f) < 1 - 1e-9,
                    f"site {i} at ({x}, {y}) is outside of the cell spanned by the periodicity vectors: {f}")
        rec.outcome(cl)

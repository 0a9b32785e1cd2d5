"""Polyominoes: the reference model of the clusters of the square lattice. Cells are integer pairs, nothing is shared
with the implementation."""
import itertools
from functools import lru_cache

STEPS = ((1, 0), (-1, 0), (0, 1), (0, -1))
D4 = [lambda x, y: (x, y), lambda x, y: (-y, x), lambda x, y: (-x, -y), lambda x, y: (y, -x),
      lambda x, y: (-x, y), lambda x, y: (x, -y), lambda x, y: (y, x), lambda x, y: (-y, -x)]


def norm(cells):
    """canonical form up to translations"""
    x0 = min(c[0] for c in cells)
    y0 = min(c[1] for c in cells)
    return tuple(sorted((x - x0, y - y0) for x, y in cells))


def orbit(cells):
    """all distinct images under the point group, up to translations"""
    return {norm([g(*c) for c in cells]) for g in D4}


def free(cells):
    """canonical form up to translations and the point group"""
    return min(orbit(cells))


@lru_cache(None)
def fixed(n):
    """all fixed polyominoes of n cells"""
    if n == 1:
        return (((0, 0),),)
    out = set()
    for p in fixed(n - 1):
        s = set(p)
        for (x, y) in p:
            for dx, dy in STEPS:
                c = (x + dx, y + dy)
                if c not in s:
                    out.add(norm(list(p) + [c]))
    return tuple(sorted(out))


def grow(shapes):
    out = set()
    for p in shapes:
        for (x, y) in p:
            for dx, dy in STEPS:
                c = (x + dx, y + dy)
                if c not in p:
                    out.add(norm(list(p) + [c]))
    return out


def connected(cells):
    cells = set(cells)
    todo = [next(iter(cells))]
    seen = set(todo)
    while todo:
        x, y = todo.pop()
        for dx, dy in STEPS:
            c = (x + dx, y + dy)
            if c in cells and c not in seen:
                seen.add(c)
                todo.append(c)
    return len(seen) == len(cells)


def subsets(cells):
    """all connected non-empty subsets of the cells, by brute force"""
    cells = sorted(cells)
    for k in range(1, len(cells) + 1):
        for s in itertools.combinations(cells, k):
            if connected(s):
                yield s


def cells_of(geom):
    """integer cells of a Geometry"""
    out = []
    for x, y in zip(geom.xlocs, geom.ylocs):
        rx, ry = int(round(float(x))), int(round(float(y)))
        assert abs(rx - x) < 1e-9 and abs(ry - y) < 1e-9
        out.append((rx, ry))
    return out


def geom(cells):
    from exact_diag.ed_geometry import Geometry
    return Geometry.createNonPeriodicGeometry([c[0] for c in cells], [c[1] for c in cells])


HOLES = {"ring8": [(x, y) for x in range(3) for y in range(3) if (x, y) != (1, 1)],
         "square9": [(x, y) for x in range(3) for y in range(3)],
         "ladder8": [(x, y) for x in range(4) for y in range(2)],
         "hole7": [(x, y) for x in range(3) for y in range(3) if (x, y) not in ((1, 1), (2, 2))]}

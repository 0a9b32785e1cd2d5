"""Euler resummation"""
from fractions import Fraction
from math import comb
import numpy as np
from mc.engine import rng

PROP = "N04"
BOUNDS = {"quick": "every series of up to 8 orders that has a single non-zero term (they span all series), 7 parameters, real and complex values with 0..2 extra dimensions; "
                   "geometric series with 9 ratios",
          "thorough": "up to 14 orders"}
YS = [Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(3), Fraction(0), Fraction(5, 3)]


def cases(tier):
    out = []
    for n in range(1, 15 if tier == "thorough" else 9):
        for y in range(len(YS)):
            out.append({"n": n, "y": y})
    return out


def run(case, rec):
    from exact_diag import ed_nlce
    n, y = case["n"], YS[case["y"]]
    rs = rng(case)
    coef = np.array([[float(comb(i, j) * y ** (j + 1) / (1 + y) ** (i + 1)) for j in range(n)] for i in range(n)])
    args = [float(y)] + ([int(y)] if y.denominator == 1 else [])
    for ya in args:
        for j in range(n):
            for sh in ((), (1,), (2,), (2, 3), (3, 1), ("c",), (2, "c")):
                cplx, sh = sh[-1:] == ("c",), tuple(x for x in sh if x != "c")
                a = np.zeros((n,) + sh, dtype=complex if cplx else float)
                a[j] = rs.uniform(0.5, 2, sh) + (1j * rs.uniform(0.5, 2, sh) if cplx else 0)
                a0 = a.copy()
                tot, orders = ed_nlce.euler_resum(a, ya)
                want = np.tensordot(coef, a0, axes=(1, 0))
                rec.close(orders, want, f"terms of the resummed series with a single term of order {j}, y = {y}", tol=1e-12)
                rec.require(np.shape(orders) == a.shape and np.shape(tot) == sh, f"shapes for values of shape {sh}")
                rec.close(tot, want.sum(0), f"sum of the resummed series with a single term of order {j}, y = {y}", tol=1e-12)
                rec.require(np.array_equal(a, a0), "the argument is not modified")
                rec.state()
        for r in (-2, -1, -0.5, -0.1, 0, 0.3, 0.9, 1, 1.5):
            a = 0.7 * float(r) ** np.arange(n)
            tot, orders = ed_nlce.euler_resum(a, ya)
            yf = float(y)
            want = 0.7 * yf / (1 + yf) * ((1 + yf * r) / (1 + yf)) ** np.arange(n)
            rec.close(orders, want, f"terms of the resummed geometric series of ratio {r}, y = {y}", tol=1e-12)
            rec.close(tot, want.sum(), f"resummed geometric series of ratio {r}, y = {y}", tol=1e-12)
            rec.outcome(want)
            rec.state()

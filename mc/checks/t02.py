"""Thermal averages do not depend on how the spectrum is split into sectors"""
import itertools
import numpy as np
import scipy.sparse as sp
from mc import fock
from mc.engine import rng, dense
from mc.checks.t01 import weights

PROP = "T02"
BOUNDS = {"quick": "every assignment of up to 4 levels with energies 0,1,2 to up to 3 sectors, shifted by -500, 0, 7; temperatures 0, 0.2, 1, 30, "
                   "alone and together; observables with 0 and 1 extra dimensions, real and complex, as arrays and lists; particle number and momentum sectors of 8 models, also at zero temperature and with a strongly coupled, degenerate ground state",
          "thorough": "up to 5 levels with energies 0..2 in up to 4 sectors; 13 models"}
TEMPS = [0., 0.2, 1., 30.]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        for e in itertools.combinations_with_replacement(range(3), n):
            # set partitions into labelled sectors, without empty sectors
            for a in itertools.product(range(4 if th else 3), repeat=n):
                if set(a) == set(range(max(a) + 1)):
                    out.append({"kind": "levels", "e": list(e), "a": list(a)})
    for nm in ("dimer", "poly3", "ring4") + (("ring5", "plaq") if th else ()):
        for m in ("f1", "f2", "s2"):
            if {"f1": 2, "f2": 4, "s2": 2}[m] ** fock.nsites(nm) <= 256:
                out.append({"kind": "model", "c": nm, "m": m})
    for nm in ("poly3", "ring4", "poly5") + (("poly6", "poly7") if th else ()):
        out.append({"kind": "model", "c": nm, "m": "s2", "j": 20.})
    for n in (1, 2, 3):
        out.append({"kind": "trace", "n": n})
    return out


def cost(c):
    return 10 if c["kind"] != "model" else 4 ** (fock.nsites(c["c"]) * (2 if c["m"] == "f2" else 1)) + 50


def run(case, rec):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    from exact_diag import ed_symmetry as sy
    rs = rng(case)
    if case["kind"] == "trace":
        model = spinSystem(fock.cluster("dimer"))
        n = case["n"]
        for d in itertools.product((-1., 0., 2.), repeat=n):
            for z in (0, 1, 1j, 0.5 - 0.5j):
                h = np.diag(np.array(d, dtype=complex))
                if n > 1:
                    h[0, 1], h[1, 0] = z, np.conj(z)
                w, v = np.linalg.eigh(h)
                for b in (0, 0.3, 2., -1.):
                    want = np.sum(np.exp(-b * w))
                    rec.close(model.get_partition_fn_hamiltonian(sp.csr_matrix(h), b), want, f"Tr exp(-{b} H)")
                    rec.close(model.get_partition_fn_hamiltonian(h, b), want, f"Tr exp(-{b} H) of a dense matrix")
                    rec.state()
        return
    if case["kind"] == "levels":
        model = spinSystem(fock.cluster("dimer"))
        obs = rs.uniform(-1, 1, (len(case["e"]), 3))
        k = max(case["a"]) + 1
        for shift in (-500., 0., 7.):
            e = np.array(case["e"], dtype=float) + shift
            a = np.array(case["a"])
            secs = [e[a == s] for s in range(k)]
            zs, sec_avg, want = [], [], []
            for t in TEMPS:
                x = e - e.min()
                w = (x < 1e-9).astype(float) if t == 0 else np.exp(-x / t)
                z = np.array([np.sum(w[a == s]) for s in range(k)])
                rec.close(model.get_partition_fn_sectors(secs, t), z, f"partition functions of the sectors at temperature {t}")
                zs.append(z)
                sec_avg.append([weights(secs[s], t)[0].dot(obs[a == s]) for s in range(k)])
                want.append(weights(e, t)[0].dot(obs))
                rec.close(model.thermal_avg_combine_sectors(np.array(sec_avg[-1]), secs, t), want[-1], f"combined average at temperature {t}")
                rec.close(model.thermal_avg_combine_sectors(np.array(sec_avg[-1])[:, 0], secs, t), want[-1][0], f"combined average at temperature {t}")
                rec.state(k)
            rec.close(model.get_partition_fn_sectors(secs, np.array(TEMPS)), zs, "partition functions at several temperatures")
            sa = np.array(sec_avg).transpose(1, 0, 2)
            rec.close(model.thermal_avg_combine_sectors(sa, secs, np.array(TEMPS)), want, "combined averages at several temperatures")
            rec.close(model.thermal_avg_combine_sectors([list(x) for x in sa], secs, list(TEMPS)), want, "combined averages given as lists")
            rec.close(model.thermal_avg_combine_sectors(list(sa[:, 1, :]), secs, TEMPS[1]), want[1], "combined averages of a list of sectors")
            rec.close(model.thermal_avg_combine_sectors(sa * (0.6 - 0.8j), secs, np.array(TEMPS)), np.array(want) * (0.6 - 0.8j), "combined averages of complex values")
            rec.close(model.thermal_avg_combine_sectors(sa[:, 2, :] * 1j, secs, TEMPS[2]), want[2] * 1j, "combined averages of complex values")
            rec.close(model.thermal_avg_combine_sectors(sa[:, :, 0], secs, np.array(TEMPS)), np.array(want)[:, 0], "combined averages, one observable")
            rec.close(model.thermal_avg_combine_sectors(sa[:, :, 0] * 1j, secs, np.array(TEMPS)), np.array(want)[:, 0] * 1j, "combined averages, one complex observable")
            # the order of the levels in a sector does not matter
            secs2 = [x[::-1] for x in secs]
            rec.close(model.get_partition_fn_sectors(secs2, np.array(TEMPS)), zs, "partition functions of unsorted sectors")
            rec.close(model.thermal_avg_combine_sectors(sa, secs2, np.array(TEMPS)), want, "combined averages of unsorted sectors")
            # a sector without weight at zero temperature may have no average
            low = np.array(sec_avg[0])
            low[np.asarray(zs[0]) == 0] = np.nan
            rec.close(model.thermal_avg_combine_sectors(low, secs, 0.), want[0], "combined average with undefined averages of empty sectors")
        rec.outcome(case["e"], case["a"])
        return
    g = fock.cluster(case["c"])
    n = g.nsites
    k = int(case["m"][1])
    temps = np.array([0., 0.15, 1., 9.])
    splits = []
    if case["m"][0] == "f":
        model = fermions(g, 2.2 if k > 1 else 0, 1.0, mus=0.15, us_same_species=0.3, nspecies=k)
        splits.append([fermions(g, 0, 1.0, ns=np.array(ns), nspecies=k).n_projector for ns in itertools.product(range(n + 1), repeat=k)])
    else:
        model = spinSystem(g, case["j"], case["j"], case["j"]) if "j" in case else spinSystem(g, 0.5, 0.7, 1.1, 0.2, 0.3, -0.1)
    if case["c"] != "dimer":
        cx, cy = [float(np.squeeze(c)) for c in g.get_center_of_mass()]
        fn = sy.getRotFn(n, cx=cx, cy=cy) if case["c"].startswith("poly") else (
            sy.getTranslFn(np.array([1, 0])) if case["c"].startswith("ring4") else
            (sy.getTranslFn(np.array([0, 1])) if case["c"] == "ring5" else sy.getRotFn(4, cx=cx, cy=cy)))
        cyc, order = sy.findSiteCycles(fn, g)
        splits.append([p for p in sy.getZnProjectors(model.get_xform_op(cyc), order)[0] if p.shape[0]])
    h = dense(model.createH())
    e, v = np.linalg.eigh(h)
    # an observable that conserves the symmetries: the energy, and its square
    op2 = h.dot(h)
    want = np.array([[np.sum(weights(e, t)[0] * e), np.sum(weights(e, t)[0] * e ** 2)] for t in temps])
    for projs in splits:
        evs, avg = [], []
        for p in projs:
            hs = model.createH(projector=p)
            es, vs = model.diagH(hs)
            pd = dense(p)
            evs.append(es)
            avg.append(np.array([model.get_exp_vals_thermal(vs, hs, es, temps),
                                 model.get_exp_vals_thermal(vs, sp.csr_matrix(pd.dot(op2).dot(pd.conj().T)), es, temps)]).T)
            rec.state(len(es))
        got = model.thermal_avg_combine_sectors(np.array(avg), evs, temps)
        rec.close(got, want, "energy and its square from the sectors", 1e-8)
        z = np.asarray(model.get_partition_fn_sectors(evs, temps))
        rec.close(z.sum(axis=1), [weights(e, t)[1] for t in temps], "total partition function", 1e-8)
    rec.outcome(case["c"], case["m"])

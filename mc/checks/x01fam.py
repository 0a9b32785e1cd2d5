"""Families of queries of X01: one function each, with every argument varied on its own.

FAMS(object name) gives {family: (function(object, **arguments), {argument: [values]}, arguments to leave out if default)};
the first values are the base, the other queries differ from the base in one argument.
"""
import numpy as np
import scipy.sparse as sp
from mc import poly


def gen(n, k=1, seed=7):
    rs = np.random.RandomState(seed)
    return rs.uniform(-1, 1, (n, k)) + 1j * rs.uniform(-1, 1, (n, k))


def herm(n, seed):
    a = gen(n, n, seed)
    return a + a.conj().T


def iso(d, k, seed):
    """k rows of a unitary matrix"""
    return sp.csr_matrix(np.linalg.qr(gen(d, d, seed))[0][:k])


PRINT = {"print_results": [False, True]}
T = np.array([0.5, 2.])


def model(d, nspecies, fermi):
    h1, h2 = herm(d, 3), herm(d, 4)
    (e1, v1), (e2, v2) = np.linalg.eigh(h1), np.linalg.eigh(h2)
    s1, s2 = sp.csr_matrix(h1), sp.csr_matrix(h2)
    p1, p2 = iso(d, d // 2, 5), iso(d, d // 2, 6)
    nb = 2 if fermi else int(round(d ** (1. / {8: 3, 9: 2}[d])))
    o1 = np.diag(np.arange(nb)).astype(float)
    o2 = np.diag(np.arange(nb)).astype(float) * 0.5 + 1
    o3 = np.diag(np.ones(nb - 1), 1)
    fmt = {"format": ["boson", "fermion"] if fermi else ["boson"]}
    spec = {"species": [0, 1] if nspecies > 1 else [0]}
    ste = [v1[:, :2].copy(), v2[:, :2].copy()]
    a1, a2 = v1.conj().T.dot(h2).dot(v1), v1.conj().T.dot(np.diag(np.arange(d))).dot(v1)
    q = [np.array([0.3, 0.2]), np.array([0.3, -0.5]), np.array([1., 0.2])]

    def resp(m, w=0.3, eta=0.1, **k):
        return m.get_response_fn_retarded(**k)(w, eta)
    out = {
        "createH": (lambda m, **k: m.createH(**k), {"projector": [None, p1, p2], **PRINT}),
        "diagH": (lambda m, **k: m.diagH(**k)[0], {"haml": [s1, s2], "neigs": [2, 1], "use_sparse": [True, False], **PRINT}),
        "quench": (lambda m, **k: m.quench_time_evolve(**k), {"initial_states": [gen(d, 2), gen(d, 2, 8)], "eig_vects": [v1, v2], "eig_energies": [e1, e2],
                                                            "times": [np.array([0.1, 0.4]), np.array([0.1, 0.5]), np.array([0.2, 0.4])], **PRINT}),
        "single": (lambda m, **k: m.get_single_site_op(**k), {"site_index": [0, 1], "species_index": spec["species"], "op": [o1, o2, o3], **fmt}),
        "two": (lambda m, **k: m.get_two_site_op(**k), {"site1": [0, 1], "species1": spec["species"], "site2": [1, 0], "species2": spec["species"], "op1": [o1, o2],
                                                       "op2": [o1, o2], "format": ["boson"]}),
        "sum q": (lambda m, **k: m.get_sum_op_q(**k), {**spec, "q_vector": q, "op": [o1, o2], **fmt, **PRINT}),
        "exp": (lambda m, **k: m.get_exp_vals(**k), {"states": [gen(d, 2), gen(d, 2, 8)], "full_op": [s1, s2], **PRINT}),
        "overlaps": (lambda m, **k: m.get_overlaps(**k), {"states1": [gen(d, 2), gen(d, 2, 8)], "states2": [gen(d, 2, 9), gen(d, 2, 10)], **PRINT}),
        "norms": (lambda m, **k: m.get_norms(**k), {"states": [gen(d, 2), gen(d, 2, 8)], **PRINT}),
        "exp sites": (lambda m, **k: m.get_exp_vals_sites(**k), {"states": [gen(d, 2), gen(d, 2, 8)], "site_op": [o1, o2], **spec, "sites": [None, [1], [0]], "format": ["boson"]}),
        "exp sites proj": (lambda m, **k: m.get_exp_vals_sites(**k), {"states": [gen(d // 2, 2)], "site_op": [o1, o2], **spec, "projector": [p1, p2], "format": ["boson"]}),
        "corr sites": (lambda m, **k: m.get_corr_sites(**k), {"states": ste, "species1": spec["species"], "species2": spec["species"], "op1": [o1, o2], "op2": [o1, o2],
                                                             "sites1": [[0, 1], [1, 0], [0, 0]], "sites2": [[1, 0], [0, 1], [0, 0]], "format": ["boson"]}),
        "corr sites default": (lambda m, **k: m.get_corr_sites(**k), {"states": [gen(d // 2, 2)], "species1": spec["species"], "species2": spec["species"], "op1": [o1], "op2": [o2],
                                                                     "projector": [p1, p2], "format": ["boson"]}),
        "thermal sites": (lambda m, **k: m.get_thermal_exp_sites(**k), {"eig_vects": [v1, v2], "eig_vals": [e1, e2], "site_op": [o1, o2], **spec, "temps": [T, T * 2], "sites": [None, [1]],
                                                                       "format": ["boson"], **PRINT}),
        "thermal corr": (lambda m, **k: m.get_thermal_corr_sites(**k), {"eig_vects": [v1, v2], "eig_vals": [e1, e2], "species1": spec["species"], "species2": spec["species"], "op1": [o1, o2],
                                                                       "op2": [o1, o2], "temps": [T, T * 2], "sites1": [[0], [1]], "sites2": [[1], [0]], "format": ["boson"], **PRINT}),
        "subspace overlaps": (lambda m, **k: m.get_subspace_overlaps(**k), {"states": [gen(d, 2), gen(d, 2, 8)], "projectors": [[p1, p2], [p2, p1]], **PRINT}),
        "subspace projs": (lambda m, **k: m.get_subspace_projs(**k), {"diagonal_op": [sp.diags(np.arange(d) % 3, format="csr").astype(float), sp.diags(np.arange(d) % 2, format="csr").astype(float)],
                                                                     "eig_vals": [None, np.array([0.]), np.array([1.])], **PRINT}),
        "thermal": (lambda m, **k: m.get_exp_vals_thermal(**k), {"eig_vects": [v1, v2], "op": [s1, s2], "eig_vals": [e1, e2], "temps": [T, T * 2], **PRINT}),
        "weights": (lambda m, **k: m.get_thermal_weights(**k), {"energies": [e1, e2, e1 + 1.], "temps": [0.7, 0., 1.3], "use_energies_offset": [False, True]}),
        "weights array": (lambda m, **k: m.get_thermal_weights(**k), {"energies": [e1, e2], "temps": [T, T * 2]}),
        "Z": (lambda m, **k: m.get_partition_fn_hamiltonian(**k), {"hamiltonian": [s1, s2], "beta": [0.4, 0.9]}),
        "Z sectors": (lambda m, **k: m.get_partition_fn_sectors(**k), {"energies_sectors": [[e1[:3], e1[3:]], [e2[:3], e2[3:]], [e1[3:], e1[:3]]], "temp": [T, T * 2]}),
        "combine": (lambda m, **k: m.thermal_avg_combine_sectors(**k), {"expvals_sectors": [np.array([[1., 2.], [3., 5.]]), np.array([[1., 2.], [4., 5.]])],
                                                                      "eigvals_sectors": [[e1[:3], e1[3:]], [e2[:3], e2[3:]]], "temps": [T, T * 2]}),
        "elems": (lambda m, **k: m.get_matrix_elems(**k), {"eig_vects": [v1, v2], "op": [s1, s2], **PRINT}),
        "retarded": (resp, {"a_matrix_elems": [a1, a2], "b_matrix_elems": [a1, a2], "eig_vals": [e1, e2], "temperature": [0.7, 1.3, 0.], "format": ["boson", "fermion"],
                            "w": [0.3, 1.], "eta": [0.1, 0.2], **PRINT}),
    }
    return out


def fermion(d, nspecies, n):
    p1, p2 = iso(d, d // 2, 5), iso(d, d // 2, 6)
    h = herm(d, 3)
    e, v = np.linalg.eigh(h)
    e2 = np.sort(e * 1.3)
    a1 = v.conj().T.dot(herm(d, 8)).dot(v)
    a2 = v.conj().T.dot(herm(d, 9)).dot(v)
    us = np.random.RandomState(1).uniform(-1, 1, (n, n, nspecies))
    us = us + us.transpose(1, 0, 2)
    vs = np.random.RandomState(2).uniform(-1, 1, (n, nspecies))
    mus = np.random.RandomState(3).uniform(-1, 1, nspecies)
    spec = [0, 1] if nspecies > 1 else [0]
    c = np.array([[0, 1], [0, 0]])
    out = {
        "vects": (lambda m, **k: m.get_state_vects(**k), PRINT),
        "kinetic": (lambda m, **k: m.get_kinetic_op(**k), {"projector": [None, p1, p2], "direction_vect": [np.array([1, 0]), np.array([0, 1]), None]}),
        "current": (lambda m, **k: m.get_current_op(**k), {"direction_vector": [np.array([[1], [0]]), np.array([[0], [1]]), np.array([[2], [1]])]}),
        "same": (lambda m, **k: m.get_u_samespecies_op(**k), {"us": [us, 2 * us], "projector": [None, p1, p2]}),
        "pot": (lambda m, **k: m.get_potential_op(**k), {"vs": [vs, 2 * vs], "projector": [None, p1, p2]}),
        "chem": (lambda m, **k: m.get_chemical_pot_op(**k), {"mus": [mus, 2 * mus], "projector": [None, p1, p2]}),
        "fermion op": (lambda m, **k: m.get_two_site_op(**k), {"site1": [0, 1], "species1": spec, "site2": [1, 0], "species2": spec, "op1": [c.T, c], "op2": [c, c.T], "format": ["fermion"]}),
        "swap": (lambda m, **k: m.get_swap_op(**k), {"site1": [0, 1], "site2": [1, 0], "species": spec}),
        "xform": (lambda m, **k: m.get_xform_op(**k), {"cycles": [[[x] for x in range(n)], [list(range(n))], [[0, 1]] + [[x] for x in range(2, n)]], **PRINT}),
        "sum": (lambda m, **k: m.get_sum_op(**k), {"op": [np.diag([0., 1.]), np.diag([1., 2.])], "species": spec, "format": ["boson"], **PRINT}),
        "conductivity": (lambda m, w=0.3, eta=0.1, **k: m.get_optical_cond_fn(**k)(w, eta), {"current_matrix_elems": [a1, a2], "eig_vals": [e, e2], "temperature": [0.7, 1.3], "w": [0.3, 1.],
                                                                                            "eta": [0.1, 0.2], **PRINT}),
        "integrated": (lambda m, **k: m.integrate_conductivity(**k), {"current_matrix_elems": [a1, a2], "eig_vals": [e, e2], "temperature": [0.7, 1.3], **PRINT}),
    }
    if nspecies > 1:
        out["inter"] = (lambda m, **k: m.get_u_interspecies_op(**k), {"us": [vs[:, 0], 2 * vs[:, 0]], "projector": [None, p1, p2]})
    return out


def spin(d, n, nb):
    o1, o2 = herm(nb, 3), herm(nb, 4)
    out = {
        "sum": (lambda m, **k: m.get_sum_op(**k), {"op": [o1, o2]}),
        "allsite": (lambda m, **k: m.get_allsite_op(**k), {"op_onsite": [o1, o2]}),
        "c6": (lambda m, **k: m.get_interaction_mat_c6(**k), {"C6": [1.3, 2.], "cutoff_dist": [1.5, 0.5, 3.]}),
        "swap": (lambda m, **k: m.get_swap_op(**k), {"site1": [0, 1], "site2": [1, 0]}),
        "flip": (lambda m: m.get_swap_up_down_op(), {}),
        "xform": (lambda m, **k: m.get_xform_op(**k), {"cycles": [[[x] for x in range(n)], [list(range(n))], [[0, 1]] + [[x] for x in range(2, n)]], **PRINT}),
        "splus": (lambda m, **k: m.get_splus(**k), {"spin": [0.5, 1., 1.5]}),
        "sx": (lambda m, **k: m.get_sx(**k), {"spin": [0.5, 1., 1.5]}),
        "jmat": (lambda m, **k: m.get_interaction_mat(**k), {"j": [1.3, 2., np.ones((n, n))]}),
        "hmat": (lambda m, **k: m.get_field_mat(**k), {"h": [1.3, 2., np.arange(n) * 1.]}),
    }
    if nb == 2:
        conn = np.array([1, 0, 1][:n * (n - 1) // 2])
        out["pairs"] = (lambda m, **k: m.get_npairs_op(**k), {"corr_sites_conn": [conn, 1 - conn]})
        out["special"] = (lambda m, **k: m.find_special_states(**k)[0], {"xsites": [3], "ysites": [1], "number_left2right_top2bottom": [False, True]})
        out["vects"] = (lambda m, **k: m.get_state_vects(**k), PRINT)
        out["parity"] = (lambda m, **k: m.get_state_parity(**k), PRINT)
    return out


def geometry(lattice):
    from exact_diag.ed_geometry import Geometry
    x, y = np.array([0., 3., 0.5]), np.array([1., -2., 7.])
    out = {
        "sort": (lambda g, **k: g.get_sorting_permutation(**k), {"sorting_mode": ["top_alternating", "adjacency"]}),
        "neighbours": (lambda g, **k: Geometry.get_neighbors_by_distance(**k), {"xdist_mat": [np.array([[0., 1.], [-1., 0.]]), np.array([[0., 0.], [0., 0.]])],
                                                                               "ydist_mat": [np.zeros((2, 2)), np.array([[0., 1.], [-1., 0.]])]}),
        "eq": (lambda g, other: [bool(g == other), bool(g != other), bool(g.isequal_adjacency(other))], {"other": [poly.geom([(0, 0), (1, 0), (1, 1)]), poly.geom([(0, 0), (1, 0), (2, 0)])]}),
        "lattice": (lambda g, **k: Geometry.createSquareGeometry(**k), {"nx_sites": [3, 2], "ny_sites": [2, 3], "phase1": [0.3, 0.], "phase2": [0.1, 0.2], "bc1_open": [False, True],
                                                                        "bc2_open": [False, True]}),
        "tilted": (lambda g, **k: Geometry.createTiltedSquareGeometry(**k), {"nsites_right": [2, 1], "nsites_up": [1, 2], "phase1": [0.3, 0.], "phase2": [0.1, 0.2], "bc1_open": [False, True],
                                                                             "bc2_open": [False, True]}),
        "triangle": (lambda g, **k: Geometry.createTriangleGeometry(**k), {"n1_sites": [3, 2], "n2_sites": [2, 3], "phase1": [0.3, 0.], "phase2": [0.1, 0.2], "bc1_open": [False, True],
                                                                           "bc2_open": [False, True]}),
        "hexagon": (lambda g, **k: Geometry.createHexagonalGeometry(**k), {"n1_sites": [2, 3], "n2_sites": [2, 3], "phase1": [0.3, 0.], "phase2": [0.1, 0.2], "bc1_open": [False, True],
                                                                           "bc2_open": [False, True]}),
        "polygon": (lambda g, **k: Geometry.createRegularPolygonGeometry(**k), {"nsides": [3, 4, 5]}),
    }
    if lattice:
        xm, ym = x[:, None] - x[None, :], y[:, None] - y[None, :]
        out.update({
            "reduced": (lambda g, **k: g.lattice.get_reduced_distance(**k), {"xlocs": [x, x + 1], "ylocs": [y, y + 1]}),
            "shortest": (lambda g, **k: g.lattice.get_shortest_equivalent(**k), {"x": [3., 0.5], "y": [1., -2.]}),
            "phases": (lambda g, **k: g.lattice.get_phase_mat(**k), {"xdist_matrix": [np.round(xm), np.round(xm) * 2], "ydist_matrix": [ym, 2 * ym]}),
            "cell": (lambda g, **k: g.lattice.reduce_to_unit_cell(**k), {"xlocs": [x, x + 1], "ylocs": [y, y + 1], "mode": ["positive", "centered"]}),
            "sites": (lambda g: g.lattice.get_unique_sites(), {}),
        })
    return out


def library():
    from exact_diag import fermi_gas as fg, greens_fns as gf, ed_nlce, ed_symmetry as sy, ed_geometry as ge
    b, mu, n, dim = {"beta": [1., 2., np.inf]}, {"mu": [0.3, -0.4]}, {"nsites": [4, 5]}, {"dim": ["2d", "1d"]}
    ud = {"mu_up": [0.3, -0.4], "mu_dn": [0.1, 0.5]}
    ci = {"corr_index": [(1, 0), (2, 0), (0, 0)]}
    fb = {"format": ["fermion", "boson"]}
    w, tau = np.array([-1., 0.4, 1.]), np.array([0.1, 0.5, 0.9])
    ts, ws = np.linspace(0., 1., 4), np.linspace(-3., 3., 7)
    c3 = sp.csr_matrix(np.roll(np.eye(3), 1, axis=0))
    r3 = sp.csr_matrix(np.eye(3)[[0, 2, 1]])
    r3b = sp.csr_matrix(np.eye(3)[[1, 0, 2]])
    P = lambda ps: [p.conj().T.dot(p) for p in ps]
    ell, chain = poly.geom([(0, 0), (1, 0), (1, 1)]), poly.geom([(0, 0), (1, 0), (2, 0)])
    M1, M2 = sp.csr_matrix([[0., 0.], [2., 0.]]), sp.csr_matrix([[0., 0.], [3., 0.]])
    kv = [np.array([np.pi / 2, 0.]), np.array([np.pi, 0.])]
    out = {
        "fermi": (lambda o, **k: fg.fermi(**k), {**b, **mu, "energy": [np.array([-1., 0.3, 2.]), np.array([-1., 0.4, 2.])]}),
        "fermi'": (lambda o, **k: fg.fermi_derivatives(**k), {"beta": [1., 2.], **mu, "energy": [np.array([-1., 0.3, 2.]), np.array([-1., 0.4, 2.])]}),
        "kvects": (lambda o, **k: fg.get_allowed_kvects(**k), {"nx": [4, 3], "ny": [3, 4], "mode": ["balanced", "positive"]}),
        "dos2": (lambda o, **k: fg.get_dos2(**k), {"nsites": [6, 8], **dim}),
        "dos": (lambda o, **k: fg.get_dos(**k), {"es": [np.array([0.1, 0.4, 0.4]), np.array([0.2, 0.6, 0.6])], "e_end_pts": [np.array([0., 0.3, 1.]), np.array([0., 0.5, 1.])]}),
        "kgfn": (lambda o, **k: fg.fg_kspace_gfns(**k), {**b, **mu, "ks": [np.array([[0.1, 0.2]]), np.array([[0.1, 0.3]])], "time": [0., 0.4], "type": ["greater", "lesser", "retarded", "advanced", "time-ordered"]}),
        "rgfn": (lambda o, **k: fg.fg_realspace_gfn(**k), {**b, **mu, **ci, "time": [0., 0.4], **n, **dim, "type": ["greater", "lesser"]}),
        "density": (lambda o, **k: fg.fg_density(**k), {**b, **mu, **n, **dim}),
        "mu": (lambda o, **k: fg.fg_mu(**k), {"beta": [1., 2.], "density": [0.3, 0.6], **n, **dim}),
        "compr": (lambda o, **k: fg.fg_compressibility(**k), {"beta": [1., 2.], **mu, **n, **dim}),
        "corr": (lambda o, **k: fg.fg_corr(**k), {**b, **mu, **ci, **n, **dim}),
        "dresp": (lambda o, **k: fg.fg_density_response(**k), {"beta": [1., 2.], **mu, "k": kv, "omega": [0., 0.5], "eta": [0.1, 0.2], "nsites": [4, 8], **dim}),
        "mresp": (lambda o, **k: fg.fg_magnetic_response(**k), {"beta": [1., 2.], **mu, "k": kv, "omega": [0., 0.5], "eta": [0.1, 0.2], "nsites": [4, 8], **dim}),
        "singles": (lambda o, **k: fg.fg_singles(**k), {**b, **ud, **n, **dim}),
        "doubles": (lambda o, **k: fg.fg_doubles(**k), {**b, **ud, **n, **dim}),
        "singles corr": (lambda o, **k: fg.fg_singles_corr(**k), {**b, **ud, **ci, **n, **dim}),
        "doubles corr": (lambda o, **k: fg.fg_doubles_corr(**k), {**b, **ud, **ci, **n, **dim}),
        "sz corr": (lambda o, **k: fg.fg_sz_corr(**k), {**b, **ud, **ci, **n, **dim}),
        "sx corr": (lambda o, **k: fg.fg_sx_corr(**k), {**b, **ud, **ci, **n, **dim}),
        "matsubara": (lambda o, **k: gf.get_matsubara_frqs(**k), {"beta": [1., 2.], "max_frq": [3, 5], **fb}),
        "imagfrq": (lambda o, **k: gf.get_grnfn_imagfrq_spectralfn(**k), {"matsubara_frqs": [np.array([1., 3.]), np.array([1., 5.])], "omegas": [w, 2 * w], "spectral_fn": [np.array([0.2, 1., 0.3]), np.array([0.2, 1., 0.5])]}),
        "imagtime": (lambda o, **k: gf.get_grnfn_imagtime_spectralfn(**k), {"taus": [tau, tau / 2], "beta": [1., 2.], "omegas": [w, 2 * w], "spectral_fn": [np.array([0.2, 1., 0.3]), np.array([0.2, 1., 0.5])], **fb}),
        "frq kernel": (lambda o, **k: gf.get_grnfn_imagfrq_spectralfn_kernel(**k), {"matsubara_frqs": [np.array([1., 3.]), np.array([1., 5.])], "omegas": [w, 2 * w], **fb}),
        "time kernel": (lambda o, **k: gf.get_grnfn_imagtime_spectralfn_kernel(**k), {"taus": [tau, tau / 2], "beta": [1., 2.], "omegas": [w, 2 * w], **fb}),
        "ft": (lambda o, **k: gf.grnfn_imagtime_ft(**k), {"matsubara_frqs": [np.array([np.pi]), np.array([3 * np.pi])], "taus": [np.array([0., 0.5, 1.]), np.array([0., 0.4, 1.])],
                                                         "grn_fn_imagtime": [np.array([0.2, 1., 0.3]), np.array([0.2, 1., 0.5])], "beta": [1.]}),
        "inverse ft": (lambda o, **k: gf.grnfn_imagfrq_ft(**k), {"taus": [tau, tau / 2], "matsubara_frqs": [np.array([-np.pi, np.pi]), np.array([-3 * np.pi, 3 * np.pi])],
                                                                "grn_fn_imagfrq": [np.array([0.2 - 1j, 0.2 + 1j]), np.array([0.2 - 2j, 0.2 + 2j])], "beta": [1., 2.]}),
        "level tau": (lambda o, **k: gf.get_noninteracting_gfn_tau(**k), {"taus": [tau, tau / 2], "epsilon_k": [0.3, 0.7], "beta": [1., 2.]}),
        "level frq": (lambda o, **k: gf.get_noninteracting_gfn_imagfrq(**k), {"max_frq_index": [2, 3], "epsilon_k": [0.3, 0.7], "beta": [1., 2.]}),
        "level w": (lambda o, **k: gf.get_noninteracting_spectral_fn(**k), {"omegas": [w, 2 * w], "epsilon_k": [0.3, 0.7], "eta": [0.1, 0.2]}),
        "hydro": (lambda o, **k: gf.chi_hydro(**k), {"ws": [w, 2 * w], "k": [0.3, 0.7], "chi0": [1., 2.], "d0": [1., 2.], "d2": [0, 0.5], "gamma": [np.inf, 3.]}),
        "snap": (lambda o, **k: gf.field_snap_off_w(**k), {"ws": [w, 2 * w], "ho": [1., 2.], "eta": [0.1, 0.2]}),
        "phi": (lambda o, **k: gf.phi_t(**k), {"ts": [ts, ts * 2], "ws": [ws, ws * 2], "chi_ws": [ws / (1 + ws ** 2) * 1j, ws / (2 + ws ** 2) * 1j]}),
        "obs": (lambda o, **k: gf.obs_kt(**k), {"ts": [ts, ts * 2], "ws": [ws, ws * 2], "chi_ws": [ws / (1 + ws ** 2) * 1j, ws / (2 + ws ** 2) * 1j], "field_ws": [1 / (ws + 0.1j), 1 / (ws + 0.2j)]}),
        "clusters": (lambda o, **k: ed_nlce.get_all_clusters(**k)[1:], {"max_cluster_order": [3, 4, 2], "use_symmetry": [True, False]}),
        "next order": (lambda o, **k: len(ed_nlce.get_clusters_next_order(**k)[0]), {"cluster_list": [None, [ell], [chain], [ell, chain]], "use_symmetry": [False, True]}),
        "table": (lambda o, **k: ed_nlce.get_all_clusters_with_subclusters(**k)[1:], {"max_order": [3, 2], "use_symmetry": [True, False], "print_progress": [False, True]}),
        "subs": (lambda o, **k: ed_nlce.get_reduced_subclusters(**k)[1:], {"parent_geometry": [ell, chain], "use_symmetry": [True, False], "print_progress": [False, True]}),
        "orbit": (lambda o, **k: len(ed_nlce.get_clusters_rel_by_symmetry(**k)), {"cluster": [ell, chain]}),
        "nlce": (lambda o, **k: ed_nlce.get_nlce_exp_val(**k), {"exp_vals_clusters": [np.array([1., 3.]), np.array([1., 4.])], "sub_cluster_multiplicity_mat": [M1, M2],
                                                               "parent_clust_multiplicity_vect": [np.array([1., 2.]), np.array([1., 1.])], "order_start_indices": [[0, 1, 2]], "nsites": [1, 2]}),
        "euler": (lambda o, **k: ed_nlce.euler_resum(**k), {"exp_vals_orders": [np.array([1., -0.4, 0.2]), np.array([1., -0.5, 0.2])], "y": [1., 2.]}),
        "zn": (lambda o, **k: P(sy.getZnProjectors(**k)[0]), {"xform_op": [c3, c3.T.tocsr()], "n_xforms": [3, 6], **PRINT}),
        "translations": (lambda o, **k: P(sy.get2DTranslationProjectors(**k)[0]), {"translation_op1": [c3, c3.T.tocsr()], "n1": [3], "translation_op2": [sp.eye(3, format="csr"), c3], "n2": [3], **PRINT}),
        "d3": (lambda o, **k: P(sy.getD3Projectors(**k)), {"rot_op": [c3, c3.T.tocsr()], "refl_op": [r3, r3b], **PRINT}),
        "rotation": (lambda o, x=1., y=0.5, **k: sy.getRotFn(**k)(np.array([x]), np.array([y])), {"n_rotations": [4, 3], "cx": [0., 1.], "cy": [0., 1.], "x": [1., 2.], "y": [0.5, 2.]}),
        "reflection": (lambda o, x=1., y=0.5, **k: sy.getReflFn(**k)(np.array([x]), np.array([y])), {"reflection_vect": [np.array([1., 0.]), np.array([1., 1.])], "cx": [0., 1.], "cy": [0., 1.], "x": [1., 2.], "y": [0.5, 2.]}),
        "reciprocal": (lambda o, **k: ge.get_reciprocal_vects(**k), {"vect1": [np.array([[1.], [0.]]), np.array([[2.], [1.]])], "vect2": [np.array([[0.], [1.]]), np.array([[-1.], [2.]])]}),
        "reduce": (lambda o, **k: ge.reduce_vectors(**k), {"vect1": [np.array([[2.], [1.]]), np.array([[3.], [0.]])], "vect2": [np.array([[-1.], [2.]]), np.array([[0.], [4.]])],
                                                          "xlocs": [tau * 9, tau * 8], "ylocs": [tau * 7, tau * 5], "mode": ["positive", "centered"]}),
    }
    return out


def families(name):
    if name == "lib":
        return library()
    if name in ("ga", "gb"):
        return geometry(name == "ga")
    if name in ("f2", "f1", "f1b"):
        ns, n = (2, 2) if name == "f2" else (1, 3)
        return {**model(2 ** (n * ns), ns, True), **fermion(2 ** (n * ns), ns, n)}
    n, nb = (3, 2) if name in ("s2", "s2b") else (2, 3)
    return {**model(nb ** n, 1, False), **spin(nb ** n, n, nb)}


def variants(pars):
    """labels and keyword arguments: base, then one argument changed at a time"""
    base = {k: v[0] for k, v in pars.items()}
    out = [("base", None, base)]
    for k, v in pars.items():
        for i in range(1, len(v)):
            out.append((f"{k}#{i}", k, dict(base, **{k: v[i]})))
    return out

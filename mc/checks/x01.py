"""Queries have no memory: they change neither the model nor their arguments, and do not depend on what was asked before"""
import os
import pickle
import warnings
import numpy as np
import scipy.sparse as sp
from mc import fock, poly
from mc.engine import dense, Violation
from mc.checks.x01fam import families, variants

PROP = "X01"
BOUNDS = {"quick": "6 models, 2 lattices, library functions: 208 queries; every ordered pair of queries, on the same object, on two objects built from the same "
                   "geometry and parameters, and on different models; each first query in a process of its own; every query twice in a row; "
                   "260 families of queries (one function, each argument varied on its own, printing on and off, arrays changed in place): every ordered pair in a family",
          "thorough": "in addition every history of three queries on the same object"}
NCHUNKS = 128


def digest(x):
    """value of a result, up to rounding"""
    if sp.issparse(x) or isinstance(x, np.ndarray):
        a = np.asarray(dense(x))
        if a.dtype == object:
            return ("o", a.shape, tuple(digest(y) for y in a.ravel()))
        return ("a", a.shape, a.astype(complex))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(digest(y) for y in x))
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return ("a", (), np.asarray(x).astype(complex))
    if isinstance(x, dict):
        return ("d", tuple((k, digest(x[k])) for k in sorted(x)))
    if type(x).__name__ == "Geometry":
        return ("g", digest([x.xlocs, x.ylocs, x.adjacency_mat, x.phase_mat, x.nsites]), digest(x.lattice))
    if type(x).__name__ == "Lattice":
        return ("t", digest([x.lattice_vect1, x.lattice_vect2, x.periodicity_vect1, x.periodicity_vect2, x.phase1, x.phase2]))
    return ("s", repr(x) if isinstance(x, (str, type(None))) else type(x).__name__)


def agree(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))
    return a == b


# ----- objects -----
def objects():
    from exact_diag.ed_geometry import Geometry
    from exact_diag.ed_fermions import fermions
    from exact_diag.ed_spins import spinSystem
    ring = lambda n, ph: Geometry.createSquareGeometry(n, 1, ph, 0, bc1_open=False, bc2_open=True)
    return {"f2": lambda g=None: fermions(g or Geometry.createSquareGeometry(2, 1, 0.3, 0, bc1_open=True, bc2_open=True), 1.7, 0.9, mus=[0.2, -0.1], potentials=0.3),
            "f1": lambda g=None: fermions(g or ring(3, 0.), 0., 1.1, us_same_species=2.1, nspecies=1),
            "f1b": lambda g=None: fermions(g or poly.geom([(0, 0), (0, 1), (0, 2)]), 0., 0.7, us_same_species=-1.1, mus=0.4, nspecies=1),
            "s2b": lambda g=None: spinSystem(g or poly.geom([(0, 0), (0, 1), (0, 2)]), 0.3, 0.8, -1., 0.5, -0.2, 0.3),
            "fn": lambda g=None: fermions(g or poly.geom([(0, 0), (1, 0)]), 3., 1., ns=[1, 1]),
            "s2": lambda g=None: spinSystem(g or ring(3, 0.), 0.4, 0.7, 1., 0.1, 0.2, -0.3),
            "s3": lambda g=None: spinSystem(g or poly.geom([(0, 0), (0, 1)]), 0.4, 0.7, 1., 0.1, 0.2, -0.3, spin=1.),
            "ga": lambda g=None: g or Geometry.createTiltedSquareGeometry(2, 1, 0.2, 0.5, bc1_open=False, bc2_open=False),
            "gb": lambda g=None: g or poly.geom([(0, 0), (1, 0), (1, 1)]),
            "lib": lambda g=None: None}


def geom_of(o):
    return o if type(o).__name__ == "Geometry" else getattr(o, "geometry", None)


def gen(n, k=1, seed=7):
    rs = np.random.RandomState(seed)
    return rs.uniform(-1, 1, (n, k)) + 1j * rs.uniform(-1, 1, (n, k))


def common(d):
    """queries of any model, with their arguments. d: dimension of the space"""
    h = gen(d, d)
    h = sp.csr_matrix(h + h.conj().T)
    e = np.linalg.eigvalsh(h.toarray())
    v = np.linalg.eigh(h.toarray())[1]
    t = np.array([0.5, 2.])
    A = lambda m: m.n_op if hasattr(m, "n_op") else m.sz
    return {
        "H": (lambda m: m.createH(), ()),
        "diag": (lambda m, h: m.diagH(h)[0], (h,)),
        "diag partial": (lambda m, h: m.diagH(h, neigs=1)[0], (h,)),
        "quench": (lambda m, p, v, e, ts: m.quench_time_evolve(p, v, e, ts), (gen(d), v, e, np.array([0., 0.4]))),
        "single": (lambda m: m.get_single_site_op(1, 0, A(m), format="boson"), ()),
        "two": (lambda m: m.get_two_site_op(0, 0, 1, 0, A(m), A(m), format="boson"), ()),
        "sum": (lambda m: m.get_sum_op(A(m)) if not hasattr(m, "n_op") else m.get_sum_op(A(m), 0, format="boson"), ()),
        "sum q": (lambda m, q: m.get_sum_op_q(0, q, A(m), format="boson"), (np.array([0.3, 0.2]),)),
        "swap": (lambda m: m.get_swap_op(0, 1, 0) if hasattr(m, "n_op") else m.get_swap_op(0, 1), ()),
        "exp": (lambda m, p, h: m.get_exp_vals(p, h), (gen(d, 3), h)),
        "overlaps": (lambda m, p, q: m.get_overlaps(p, q), (gen(d, 3), gen(d, 2, 9))),
        "overlaps sparse": (lambda m, p, q: m.get_overlaps(p, q), (sp.csr_matrix(gen(d, 3)), sp.csr_matrix(gen(d, 2, 9)))),
        "norms": (lambda m, p: m.get_norms(p), (gen(d, 3),)),
        "exp sites": (lambda m, p: m.get_exp_vals_sites(p, A(m), 0, format="boson")[0], (gen(d, 2),)),
        "corr sites": (lambda m, p: m.get_corr_sites(p, 0, 0, A(m), A(m), format="boson")[0], (gen(d, 2),)),
        "thermal sites": (lambda m, v, e, t: m.get_thermal_exp_sites(v, e, A(m), 0, t, format="boson")[0], (v, e, t)),
        "projs": (lambda m, o: m.get_subspace_projs(o), (sp.diags(np.arange(d) % 3, format="csr").astype(float),)),
        "thermal": (lambda m, v, h, e: m.get_exp_vals_thermal(v, h, e, 0.7), (v, h, e)),
        "weights": (lambda m, e: m.get_thermal_weights(e, 0.7), (e,)),
        "weights 0": (lambda m, e: m.get_thermal_weights(e, 0.), (e,)),
        "Z": (lambda m, h: m.get_partition_fn_hamiltonian(h, 0.4), (h,)),
        "Z sectors": (lambda m, a, b, t: m.get_partition_fn_sectors([a, b], t), (e[:2], e[2:], t)),
        "elems": (lambda m, v, h: m.get_matrix_elems(v, h), (gen(d, 3), h)),
        "response": (lambda m, a, e: [m.get_response_fn_retarded(a, a, e, 0.7)(w, 0.1) for w in (0.2, 1.)], (v.conj().T.dot(h.dot(v)), e)),
    }


def fermion(d, two):
    out = {
        "vects": (lambda m: m.get_state_vects(), ()),
        "kinetic": (lambda m: m.get_kinetic_op(), ()),
        "current": (lambda m, q: m.get_current_op(q), (np.array([1., 0.]),)),
        "pot": (lambda m: m.get_potential_op(m.potentials), ()),
        "mu": (lambda m, x: m.get_chemical_pot_op(x), (np.array([0.3, -0.7]),)),
        "hop": (lambda m: m.get_single_site_op(0, 0, m.c_op, format="fermion"), ()),
        "two f": (lambda m: m.get_two_site_op(0, 0, 1, 0, m.cdag_op, m.c_op, format="fermion"), ()),
        "xform": (lambda m: m.get_xform_op([list(range(m.geometry.nsites))]), ()),
    }
    return out


def spin(d):
    return {
        "xform": (lambda m: m.get_xform_op([list(range(m.geometry.nsites))]), ()),
        "allsite": (lambda m: m.get_allsite_op(m.sx), ()),
        "c6": (lambda m: m.get_interaction_mat_c6(2.3, 2.), ()),
    }


def geometry():
    from exact_diag import ed_symmetry as sy
    return {
        "com": (lambda g: g.get_center_of_mass(), ()),
        "dist": (lambda g: g.get_site_distance(), ()),
        "sort": (lambda g: g.get_sorting_permutation(), ()),
        "sort adj": (lambda g: g.get_sorting_permutation("adjacency"), ()),
        "valid": (lambda g: bool(g.validate_instance()), ()),
        "reduced": (lambda g, x, y: g.lattice.get_reduced_distance(x, y) if g.lattice is not None else 0, (np.array([0., 3.]), np.array([1., -2.]))),
        "cell": (lambda g, x, y: g.lattice.reduce_to_unit_cell(x, y) if g.lattice is not None else 0, (np.array([3., 0.5]), np.array([-2., 7.]))),
        "eq": (lambda g: bool(g == g), ()),
        "cycles": (lambda g: sy.findSiteCycles(sy.getInversionFn(0., 0.), g) if g.nsites == 5 else 0, ()),
    }


def library():
    from exact_diag import fermi_gas as fg, greens_fns as gf, ed_nlce, ed_symmetry as sy
    c3 = sp.csr_matrix(np.roll(np.eye(3), 1, axis=0))
    refl = sp.csr_matrix(np.eye(3)[[0, 2, 1]])
    return {
        "density": (lambda o, m: fg.fg_density(1., m, 4), (np.array([0.2, 0.5]),)),
        "corr": (lambda o: fg.fg_corr(1., 0.3, (1, 0), 4), ()),
        "mu": (lambda o: fg.fg_mu(1., 0.3, 4), ()),
        "dresp": (lambda o, k: fg.fg_density_response(1., 0.2, k, nsites=4), (np.array([np.pi / 2, 0.]),)),
        "sx": (lambda o: fg.fg_sx_corr(1., 0.2, 0.4, (1, 0), 4), ()),
        "spec": (lambda o, t, w, a: gf.get_grnfn_imagtime_spectralfn(t, 1., w, a), (np.array([0., 0.5]), np.array([-1., 0.4, 1.]), np.array([0.2, 1., 0.3]))),
        "ft": (lambda o, w, t, g: gf.grnfn_imagtime_ft(w, t, g, 1.), (np.array([np.pi]), np.array([-0.1, 0., 0.5, 1.]), np.array([1., 0.2, 1., 0.3]))),
        "clusters": (lambda o: ed_nlce.get_all_clusters(3)[1:], ()),
        "clusters fixed": (lambda o: ed_nlce.get_all_clusters(3, use_symmetry=False)[1:], ()),
        "subs": (lambda o, g: ed_nlce.get_reduced_subclusters(g)[1:], (poly.geom([(0, 0), (1, 0), (1, 1)]),)),
        "subs fixed": (lambda o, g: ed_nlce.get_reduced_subclusters(g, use_symmetry=False)[1:], (poly.geom([(0, 0), (1, 0), (1, 1)]),)),
        "nlce": (lambda o, p, m, v: ed_nlce.get_nlce_exp_val(p, m, v, [0, 1, 2], 1), (np.array([1., 3.]), sp.csr_matrix([[0., 0.], [2., 0.]]), np.array([1., 2.]))),
        "euler": (lambda o, a: ed_nlce.euler_resum(a, 1.), (np.array([1., -0.4, 0.2]),)),
        "zn": (lambda o, c: [p.conj().T.dot(p) for p in sy.getZnProjectors(c, 3)[0]], (c3,)),
        "d3": (lambda o, c, r: [p.conj().T.dot(p) for p in sy.getD3Projectors(c, r)], (c3, refl)),
    }


def queries(name):
    if name == "lib":
        return library()
    if name in ("ga", "gb"):
        return geometry()
    d = {"f2": 16, "f1": 8, "f1b": 8, "fn": 4, "s2": 8, "s2b": 8, "s3": 9}[name]
    q = dict(common(d))
    if name.startswith("f"):
        q.update(fermion(d, name == "f2"))
        if name == "fn":
            for k in ("single", "two", "sum", "sum q", "swap", "exp sites", "corr sites", "thermal sites", "kinetic", "current", "pot", "mu", "hop", "two f", "xform"):
                q.pop(k)
    else:
        q.update(spin(d))
    return q


NAMES = ["f1", "f1b", "s2", "s2b", "s3", "ga", "gb", "lib", "f2"]


def cases(tier):
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in NAMES:
            queries(n)
        objects()
    for a in NAMES:
        for q in queries(a):
            out.append({"a": a, "q": q, "deep": tier == "thorough"})
            reference(a, q)
        for f in families(a):
            out.append({"a": a, "fam": f, "deep": tier == "thorough"})
    return out


def cost(c):
    if "fam" in c:
        return 2
    return 3 if c["a"] == "f2" else 1


def state(o):
    """everything the object consisted of when it was built"""
    if o is None:
        return ("none",)
    for x, keys in SEEN:
        if x is o:
            break
    else:
        keys = sorted(o.__dict__)
        SEEN.append((o, keys))
    return tuple((k, digest(o.__dict__.get(k))) for k in keys)


SEEN = []
ASKED = [0]


def fork_call(fn):
    """result of fn in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                data = pickle.dumps(("ok", fn()))
            except Violation as e:
                data = pickle.dumps(("bad", str(e)))
            except BaseException as e:
                data = pickle.dumps(("err", repr(e)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("err", "process died")


REF = {}


def reference(name, q):
    """result of the query on a new object in a process that has done nothing else"""
    if (name, q) not in REF:
        def first():
            fn, args = queries(name)[q]
            return digest(fn(objects()[name](), *args))
        REF[name, q] = fork_call(first)
    return REF[name, q]


def ask(o, name, q, qs, rec, what):
    ASKED[0] += 1
    fn, args = qs[q]
    s0, a0 = state(o), digest(args)
    res = digest(fn(o, *args))
    if not agree(state(o), s0):
        raise Violation(f"{what}: query {q} of {name} changes the object it is asked of")
    if not agree(digest(args), a0):
        raise Violation(f"{what}: query {q} of {name} changes its arguments")
    kind, want = reference(name, q)
    if kind != "ok":
        raise Violation(f"query {q} of {name} fails: {want}")
    if not agree(res, want):
        raise Violation(f"{what}: query {q} of {name} gives a different result")


def family(case, rec):
    """all ordered pairs of queries that differ in one argument, on one object, also with arrays that are changed in place"""
    a, fam = case["a"], case["fam"]
    fn, pars = families(a)[fam]
    vs = variants(pars)
    want = {}
    for label, key, kw in vs:
        ref = "base" if key in ("print_results", "print_progress") else label
        if ref not in want:
            kind, want[ref] = fork_call(lambda: digest(fn(objects()[a](), **kw)))
            if kind != "ok":
                raise Violation(f"{fam} of {a} with {label} fails: {want[ref]}")
        if ref != label:
            want[label] = want[ref]

    def history():
        o = objects()[a]()
        n = 0

        def one(label, kw, what):
            s0, a0 = state(o), digest(kw)
            res = digest(fn(o, **kw))
            if not agree(state(o), s0):
                raise Violation(f"{fam} of {a} changes the object it is asked of")
            if not agree(digest(kw), a0):
                raise Violation(f"{fam} of {a} with {label} changes its arguments")
            if not agree(res, want[label]):
                raise Violation(f"{fam} of {a} with {label} gives a different result {what}")
        for l1, _, k1 in vs:
            for l2, _, k2 in vs:
                one(l1, k1, "in between")
                one(l2, k2, f"after {l1}")
                n += 2
                if case["deep"]:
                    for l3, _, k3 in vs:
                        one(l3, k3, f"after {l1}, {l2}")
                        one(l1, k1, f"after {l1}, {l2}, {l3}")
                        n += 2
        base = vs[0][2]
        for label, key, kw in vs[1:]:
            x, y = base[key], kw[key]
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
                arr = x.copy()
                k = dict(base, **{key: arr})
                one("base", k, "for an equal array")
                arr[...] = y
                one(label, k, "for the same array with other contents")
                n += 2
        # a second object of the same kind, and one after it
        o2 = objects()[a]()
        o, first = o2, o
        for l1, _, k1 in vs:
            one(l1, k1, "on a second object")
            n += 1
        return n, len(vs)
    kind, val = fork_call(history)
    if kind != "ok":
        raise Violation(val if kind == "bad" else f"{fam} of {a}: {val}")
    rec.state(val[0])
    rec.trans(val[0])
    rec.outcome(a, fam)


def run(case, rec):
    if "fam" in case:
        return family(case, rec)
    a, q = case["a"], case["q"]
    for n in NAMES:
        for k in queries(n):
            reference(n, k)

    def history():
        """the first query, and then every other one"""
        n = 0
        qa = queries(a)
        o = objects()[a]()
        ask(o, a, q, qa, rec, "alone")
        ask(o, a, q, qa, rec, "repeated")
        for q2 in qa:
            # same object, then first query again
            ask(o, a, q2, qa, rec, f"after {q}")
            ask(o, a, q, qa, rec, f"after {q}, {q2}")
            n += 2
        # another object that shares the geometry
        g = geom_of(o)
        if g is not None and a not in ("ga", "gb"):
            g0 = digest(g)
            o2 = objects()[a](g)
            if not agree(digest(g), g0):
                raise Violation("building a second model changes the geometry")
            for q2 in qa:
                ask(o2, a, q2, qa, rec, f"second model on the same geometry, after {q}")
                n += 1
            ask(o, a, q, qa, rec, "first model, after use of a second one on the same geometry")
        for b in NAMES:
            if b != a:
                qb = queries(b)

                ob = objects()[b]()
                for q2 in qb:
                    ask(ob, b, q2, qb, rec, f"after {q} of {a}")
                n += len(qb)
        if case["deep"]:
            for q2 in qa:
                for q3 in qa:
                    ask(o, a, q2, qa, rec, f"after {q}")
                    ask(o, a, q3, qa, rec, f"after {q}, {q2}")
                n += 2 * len(qa)
        return n, ASKED[0]
    kind, val = fork_call(history)
    if kind == "bad":
        raise Violation(val)
    if kind == "err":
        raise Violation(f"query {q} of {a}: {val}")
    rec.state(val[0])
    rec.trans(val[1])
    rec.outcome(a, q)

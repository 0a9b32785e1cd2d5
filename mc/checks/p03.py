"""Saving and loading a model"""
import itertools
import os
import tempfile
import numpy as np
from mc import fock
from mc.engine import dense

PROP = "P03"
BOUNDS = {"quick": "all pairs of saved and loading model out of 12 (fermions with 1 and 2 species and spins 1/2, 1 on 4 lattices), file names with and without directories and dots; "
                   "every history of up to 3 saves and loads of two files by two models; 6 unsupported file names",
          "thorough": "histories of up to 4 operations"}
ASSUMPTIONS = ["the .pkl format; what a .mat file keeps is not claimed"]


def make(i):
    from exact_diag.ed_spins import spinSystem
    from exact_diag.ed_fermions import fermions
    from exact_diag.ed_geometry import Geometry
    ring = lambda n, ph=0.: Geometry.createSquareGeometry(n, 1, ph, 0, bc1_open=False, bc2_open=True)
    return [lambda: fermions(fock.cluster("dimer"), 1.3, 4.), lambda: fermions(ring(3, 0.4), 0.7, -2., ns=[1, 2]), lambda: fermions(fock.cluster("poly3"), 0., 1., us_same_species=1.5, nspecies=1),
            lambda: fermions(ring(3), 1., 3., mus=0.4, potentials=0.3), lambda: fermions(fock.cluster("dimer"), 0., 1., ns=[1, 0]), lambda: fermions(ring(4), 0., 1., us_same_species=2., nspecies=1, ns=[2]),
            lambda: spinSystem(fock.cluster("dimer"), 1., 0.5, 0.2), lambda: spinSystem(ring(3), 1., 1., 1., 0.3, 0.1, -0.2), lambda: spinSystem(fock.cluster("poly3"), jz=1.),
            lambda: spinSystem(ring(4), 0.3, 0.3, 1., hz=0.5), lambda: spinSystem(fock.cluster("dimer"), 1., 1., 1., spin=1.), lambda: spinSystem(fock.cluster("dimer"), hx=0.7, spin=1.5)][i]()


NM = 12


def cases(tier):
    out = [{"kind": "pair", "a": a, "b": b} for a in range(NM) for b in range(NM)]
    ops = [["save", m, f] for m in (0, 1) for f in (0, 1)] + [["load", m, f] for m in (0, 1) for f in (0, 1)]
    for k in range(1, 5 if tier == "thorough" else 4):
        seqs = list(itertools.product(range(len(ops)), repeat=k))
        for lo in range(0, len(seqs), 64):
            out.append({"kind": "hist", "ops": [[ops[i] for i in s] for s in seqs[lo:lo + 64]]})
    out.append({"kind": "names"})
    return out


def digest(m):
    """everything that can be seen of a model"""
    g = m.geometry
    h = m.createH(print_results=False)
    return [type(m).__name__, dense(h), np.array([g.xlocs, g.ylocs]), dense(g.adjacency_mat), dense(g.phase_mat), int(m.nspecies), int(m.nbasis)]


def same(a, b):
    return all(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x, y in zip(a, b))


def run(case, rec):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        os.chdir(tmp)
        try:
            if case["kind"] == "pair":
                pair(case, rec)
            elif case["kind"] == "hist":
                for seq in case["ops"]:
                    hist(seq, rec)
            else:
                names(rec)
        finally:
            os.chdir(here)


def pair(case, rec):
    os.mkdir("sub.dir")
    for name in ("model.pkl", "a.b.pkl", "sub.dir/m.pkl"):
        a, b = make(case["a"]), make(case["b"])
        da = digest(a)
        ret = a.save(name)
        rec.require(ret == name and os.path.isfile(name), "save returns the name of the file it wrote")
        rec.require(same(digest(a), da), "saving changes the model")
        got = b.load(name)
        rec.require(same(digest(got), da), "the returned model is the saved one")
        if type(a) is type(b):
            rec.require(same(digest(b), da), "the loading model is the saved one")
            rec.require(type(b.geometry).__name__ == "Geometry" and b.geometry == a.geometry, "geometry of the loaded model")
            rec.require(set(vars(b)) == set(vars(a)), "the loading model keeps or misses attributes")
        # attributes that were added or cleared on either side before
        a2, b2 = make(case["a"]), make(case["b"])
        a2.note, a2.results, b2.note, b2.stale = None, np.arange(3.), "old", 1
        a2.save("extra.pkl")
        b2.load("extra.pkl")
        rec.require(b2.note is None and np.array_equal(getattr(b2, "results", None), np.arange(3.)) and not hasattr(b2, "stale"),
                    "attributes of the saved model")
        os.remove("extra.pkl")
        # the file stays valid and independent of later changes of the models
        c = make(case["a"])
        c.load(name)
        rec.require(same(digest(c), da), "the file can be loaded again")
        rec.state()
        rec.outcome(da[1])


def hist(seq, rec):
    for f in os.listdir("."):
        os.remove(f)
    ms = [make(0), make(4)]
    model = [digest(m) for m in ms]  # reference state
    disk = {}
    for op, m, f in seq:
        name = "f%d.pkl" % f
        if op == "save":
            ms[m].save(name)
            disk[f] = model[m]
        elif f in disk:
            ms[m].load(name)
            model[m] = disk[f]
        else:
            rec.raises(lambda: ms[m].load(name), Exception, "loading a file that does not exist")
        for k in (0, 1):
            rec.require(same(digest(ms[k]), model[k]), f"model {k} after {seq}")
        rec.require(sorted(os.listdir(".")) == sorted("f%d.pkl" % x for x in disk), "files after " + str(seq))
        rec.state()


def names(rec):
    m = make(0)
    d = digest(m)
    for name in ("model", "model.txt", "model.pkl.gz", "model.npy", ".pkl", "model.PKLX"):
        rec.raises(lambda: m.save(name), ValueError, f"saving as {name}")
        rec.require(os.listdir(".") == [], f"saving as {name} leaves a file")
        with open(name, "wb") as f:
            f.write(b"x")
        rec.raises(lambda: m.load(name), ValueError, f"loading {name}")
        os.remove(name)
        rec.require(same(digest(m), d), "a refused load changes the model")
    name = m.save()
    rec.require(os.listdir(".") == [name] and name.endswith(".pkl"), "default file name")
    n = make(1)
    n.load(name)
    rec.require(same(digest(n), d), "model saved with the default name")
    rec.state(7)

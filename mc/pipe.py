"""The NLCE batch pipeline of /repo/cluster, run through its command line, and its reference model.

Jobs: gen, find<k>, agg, diag<k>, res. Files (all in the current directory):
cluster.dat, subcluster<k>.dat, subs.dat, diagcluster<k>.dat, results.dat
"""
import contextlib
import io
import os
import pickle
import resource
import runpy
import signal
import sys
from functools import lru_cache
from math import comb
import numpy as np
from mc import poly, fock
from mc.engine import REPO, dense

FREE = {1: 1, 2: 2, 3: 4, 4: 9, 5: 21}


def jobs(order):
    n = FREE[order]
    return ["gen"] + ["find%d" % k for k in range(n)] + ["agg"] + ["diag%d" % k for k in range(n)] + ["res"]


def out_file(job, start):
    if job.startswith("find"):
        return "subcluster%d.dat" % (start + int(job[4:]))
    if job.startswith("diag"):
        return "diagcluster%d.dat" % (start + int(job[4:]))
    return {"gen": "cluster.dat", "agg": "subs.dat", "res": "results.dat"}[job]


def needs(job, order):
    n = FREE[order]
    if job == "gen":
        return []
    if job == "agg":
        return ["gen"] + ["find%d" % k for k in range(n)]
    if job == "res":
        return ["agg"] + ["diag%d" % k for k in range(n)]
    return ["gen"]


def argv(job, order, start):
    o = out_file(job, start)
    if job == "gen":
        return "generate_clusters_no_subs.py", [o, str(order)]
    if job == "agg":
        return "aggregate_subclusters.py", ["subcluster*.dat", o, "cluster.dat"]
    if job == "res":
        return "aggregate_results.py", ["diagcluster*.dat", "subs.dat", o]
    return ("find_subclusters.py" if job.startswith("find") else "diag_cluster.py"), [str(int(job[4:]) + 1), o, "cluster.dat"]


def run_job(job, order, start):
    """run the script in this process. Return what it prints"""
    return run_script(*argv(job, order, start))


def run_script(script, args):
    buf = io.StringIO()
    old = sys.argv
    sys.argv = [script] + args
    try:
        with contextlib.redirect_stdout(buf):
            runpy.run_path(os.path.join(REPO, "cluster", script), run_name="__main__")
    finally:
        sys.argv = old
    return buf.getvalue()


# ------------- crash injection -------------
_hook = {"left": None, "root": None, "count": 0, "byte": None}


def _audit(event, args):
    if _hook["root"] is None or event not in ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "os.mkdir"):
        return
    p = args[0]
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str) or os.path.isabs(p) and not p.startswith(_hook["root"]):
        return
    if event == "open" and not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        return
    _hook["count"] += 1
    if _hook["left"] is not None:
        if _hook["left"] == 0:
            if _hook["byte"] is None:
                os._exit(77)
            # from here on no file grows beyond this size
            resource.setrlimit(resource.RLIMIT_FSIZE, (_hook["byte"],) * 2)
            _hook["left"] = None
            return
        _hook["left"] -= 1


def crash_run(fn, byte=None, event=None):
    """run fn in a child that dies when a file grows beyond ``byte`` bytes, or just before the filesystem operation number ``event``.
    With both, when a file grows beyond ``byte`` bytes after that operation.
    Return True if the child completed"""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            if byte is not None and event is None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (byte, byte))
            if event is not None:
                sys.addaudithook(_audit)
                _hook.update(left=event, root=os.getcwd(), count=0, byte=byte)
            fn()
            os._exit(0)
        except BaseException:
            os._exit(1)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0, st


# ------------- reference -------------
@lru_cache(None)
def thermo(key):
    """energy, entropy, specific heat and sum of sz sz over pairs of the Heisenberg cluster"""
    cells = list(key)
    n = len(cells)
    j = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if abs(cells[a][0] - cells[b][0]) + abs(cells[a][1] - cells[b][1]) == 1:
                j[a, b] = 0.5
    z = np.zeros(n)
    h = fock.spin_h(n, 0.5, j, j, j, z, z, z)
    w, v = np.linalg.eigh(h)
    sz = 2 * fock.spin_mats(0.5)[2]
    zz = sum((fock.embed({a: sz, b: sz}, n, 2) for a in range(n) for b in range(a)), np.zeros((2 ** n, 2 ** n)))
    zd = np.real(np.einsum("ia,ij,ja->a", v.conj(), zz, v))
    out = []
    for t in np.logspace(-1, 0.5, 50):
        x = np.exp(-(w - w.min()) / t)
        p = x / x.sum()
        e = p.dot(w)
        s = np.log(np.sum(x)) - w.min() / t + e / t
        out.append((e, s, (p.dot(w ** 2) - e ** 2) / t ** 2, p.dot(zd)))
    return np.array(out).T


@lru_cache(None)
def weight(key):
    """linked cluster weight by inclusion and exclusion over all connected subsets"""
    return thermo(key) - sum((weight(poly.free(s)) for s in poly.subsets(key) if len(s) < len(key)), np.zeros((4, 50)))


@lru_cache(None)
def expansion(order):
    return np.array([sum(weight(poly.free(f)) for f in poly.fixed(o)) for o in range(1, order + 1)])  # order x quantity x temperature


def euler(terms):
    return sum(comb(i, j) * terms[j] / 2. ** (i + 1) for i in range(len(terms)) for j in range(i + 1))


def load(fname):
    with open(fname, "rb") as f:
        return pickle.load(f)


def check_file(job, order, start, rec):
    """the content of the output file of a job is what the model says. Returns a summary"""
    d = load(out_file(job, start))
    if job in ("gen", "agg"):
        rec.require(d[0] == order, f"order {d[0]} in the cluster file")
        keys = [poly.free(poly.cells_of(c)) for c in d[1]]
        want = [sorted({poly.free(f) for f in poly.fixed(o)}) for o in range(1, order + 1)]
        ind = [int(i) for i in d[2]]
        rec.require(len(ind) == order + 1 and [sorted(keys[a:b]) for a, b in zip(ind[:-1], ind[1:])] == want, "clusters in the cluster file")
        rec.close(np.ravel(dense(d[4])), [len(poly.orbit(k)) for k in keys], "multiplicities in the cluster file")
        if job == "agg":
            m = np.zeros((len(keys), len(keys)))
            for i, k in enumerate(keys):
                for s in poly.subsets(k):
                    if len(s) < len(k):
                        m[i, keys.index(poly.free(s))] += 1
            rec.close(d[5], m, "aggregated subcluster multiplicities")
        return tuple(keys)
    if job.startswith("find"):
        k = int(job[4:])
        rec.require(d[0] == k, "index in the subcluster file")
        row = dense(d[1])[k]
        keys = [poly.free(poly.cells_of(c)) for c in load("cluster.dat")[1]]
        rec.require(poly.free(poly.cells_of(d[2])) == keys[k], "cluster in the subcluster file")
        want = np.zeros(len(keys))
        for s in poly.subsets(keys[k]):
            if len(s) < len(keys[k]):
                want[keys.index(poly.free(s))] += 1
        rec.close(row, want, f"subclusters of cluster {k}")
        return k
    if job.startswith("diag"):
        k = int(job[4:])
        keys = [poly.free(poly.cells_of(c)) for c in load("cluster.dat")[1]]
        rec.require(poly.free(poly.cells_of(d[0])) == keys[k], "cluster in the result file")
        rec.close([np.ravel(d[i]) for i in (2, 3, 4, 5)], thermo(keys[k]), f"thermodynamics of cluster {k}", tol=1e-8)
        rec.close(d[6], np.logspace(-1, 0.5, 50), "temperatures")
        return k
    keys = [poly.free(poly.cells_of(c)) for c in d[0]]
    ex = expansion(order)
    for q in range(4):
        alls, tot, orders, w, eul = d[1 + 5 * q: 6 + 5 * q]
        rec.close(alls, [thermo(k)[q] for k in keys], f"quantity {q} of all clusters", tol=1e-8)
        rec.close(w, [weight(k)[q] for k in keys], f"weights of quantity {q}", tol=1e-7)
        rec.close(orders, ex[:, q], f"orders of quantity {q}", tol=1e-7)
        rec.close(tot, ex[:, q].sum(0), f"expansion of quantity {q}", tol=1e-7)
        rec.close(eul, euler(ex[:, q]), f"Euler resummation of quantity {q}", tol=1e-7)
    rec.close(d[21], np.logspace(-1, 0.5, 50), "temperatures")
    return "res"

"""NLCE batch pipeline: any order of the jobs, repeated jobs, missing jobs"""
import itertools
import os
import tempfile
from functools import lru_cache
from mc import pipe

PROP = "P01"
BOUNDS = {"quick": "all reachable sets of finished jobs of the expansion of orders 1, 2 and 3 (numbering of the files from 1, and from 8 at order 3), from each of "
                   "them every job is run, enabled or not, finished before or not; complete runs of order 4 with the jobs forwards, backwards and interleaved, and of order 5 backwards",
          "thorough": "in addition the reachable sets of order 4 with up to 3 jobs missing in each stage, complete runs of order 5"}
ASSUMPTIONS = ["jobs of one stage run concurrently write and read disjoint files, which is checked, so that their interleavings commute"]
CASE_CPU_S = 600


def closed(order, full):
    """all sets of finished jobs that can be reached"""
    n = pipe.FREE[order]
    finds = ["find%d" % k for k in range(n)]
    diags = ["diag%d" % k for k in range(n)]
    out = [[]]

    def subs(x):
        ks = range(len(x) + 1) if full else sorted({0, 1, len(x) - 1, len(x)})
        return [list(s) for k in ks for s in itertools.combinations(x, k)]
    for f in subs(finds):
        for d in subs(diags):
            if not full and len(f) < n and len(d) < n and len(f) + len(d) > 0 and (len(f), len(d)) not in ((1, 1), (n - 1, n - 1)):
                continue
            out.append(["gen"] + f + d)
            if len(f) == n:
                out.append(["gen"] + f + d + ["agg"])
                if len(d) == n:
                    out.append(["gen"] + f + d + ["agg", "res"])
    return out


def cases(tier):
    out = []
    for order, start in ((1, 1), (2, 1), (3, 1), (3, 8)):
        for done in closed(order, True):
            if (order, start) == (3, 8) and ("agg" not in done and len(done) not in (0, 9)):
                continue
            out.append({"kind": "state", "order": order, "start": start, "done": done})
    if tier == "thorough":
        for done in closed(4, False):
            out.append({"kind": "state", "order": 4, "start": 3, "done": done})
    for order in (3, 4) + ((5,) if tier == "thorough" else ()):
        for w in range(3):
            out.append({"kind": "run", "order": order, "start": 1, "way": w})
    if tier != "thorough":
        out.append({"kind": "run", "order": 5, "start": 1, "way": 1})
    for order in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        out.append({"kind": "direct", "order": order})
    return out


def cost(c):
    n = pipe.FREE[c["order"]]
    return {"state": 3. ** c["order"], "run": 4. ** c["order"] * 2, "direct": 3. ** c["order"]}[c["kind"]]


class Sink:
    """recorder for preparatory work"""
    def require(self, cond, msg):
        assert cond, msg

    def close(self, *a, **k):
        pass


@lru_cache(4)
def reference(order, start):
    """bytes of every output file of one complete run"""
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        os.chdir(tmp)
        try:
            for j in pipe.jobs(order):
                pipe.run_job(j, order, start)
            out = {}
            for j in pipe.jobs(order):
                with open(pipe.out_file(j, start), "rb") as f:
                    out[j] = f.read()
            return out
        finally:
            os.chdir(here)


def snapshot():
    out = {}
    for f in sorted(os.listdir(".")):
        with open(f, "rb") as fh:
            out[f] = fh.read()
    return out


def restore(order, start, done):
    for f in os.listdir("."):
        os.remove(f)
    ref = reference(order, start)
    for j in done:
        with open(pipe.out_file(j, start), "wb") as f:
            f.write(ref[j])


def run(case, rec):
    here = os.getcwd()
    if case["kind"] != "direct":
        reference(case["order"], case["start"]) if case["kind"] == "state" else None
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        os.chdir(tmp)
        try:
            {"state": run_state, "run": run_run, "direct": run_direct}[case["kind"]](case, rec)
        finally:
            os.chdir(here)


def run_state(case, rec):
    order, start, done = case["order"], case["start"], case["done"]
    for job in pipe.jobs(order):
        restore(order, start, done)
        before = snapshot()
        o = pipe.out_file(job, start)
        ok = all(j in done for j in pipe.needs(job, order))
        try:
            said = pipe.run_job(job, order, start)
            err = None
        except (Exception, SystemExit) as e:
            err = e
        after = snapshot()
        rec.require({k: v for k, v in after.items() if k != o} == {k: v for k, v in before.items() if k != o},
                    f"job {job} changed files other than {o}")
        if ok:
            if err is not None:
                raise err
            rec.outcome(job, pipe.check_file(job, order, start, rec))
            if job == "gen":
                rec.require(said.strip().split("\n")[-1].strip() == str(pipe.FREE[order]), f"number of clusters reported: {said!r}")
        else:
            rec.require(err is not None, f"job {job} reported success although {sorted(set(pipe.needs(job, order)) - set(done))} had not been run")
            rec.require(after.get(o) == before.get(o), f"job {job} wrote {o} although its input is incomplete")
        rec.trans()
    rec.state()


def run_run(case, rec):
    order, start = case["order"], case["start"]
    js = pipe.jobs(order)
    f = [j for j in js if j.startswith("find")]
    d = [j for j in js if j.startswith("diag")]
    seq = [["gen"] + f + ["agg"] + d + ["res"], ["gen"] + d[::-1] + f[::-1] + ["agg", "res"],
           ["gen"] + [x for p in zip(f[::-1], d) for x in p] + ["agg", "gen", "agg", "res", "res"]][case["way"]]
    for j in seq:
        pipe.run_job(j, order, start)
        rec.outcome(j, pipe.check_file(j, order, start, rec))
        rec.state()
        rec.trans()


def run_direct(case, rec):
    """the non-parallel generator gives the same clusters and multiplicities"""
    order = case["order"]
    for again in range(2):
        said = pipe.run_script("generate_clusters.py", ["c.dat", str(order)])
        rec.require(said.strip().split("\n")[-1].strip() == str(pipe.FREE[order]), f"number of clusters reported: {said!r}")
        d = pipe.load("c.dat")
        from mc.checks.n02 import check_matrix
        from mc import poly
        import numpy as np
        from mc.engine import dense
        keys = check_matrix(rec, d["cluster_list"], d["sub_cluster_mult"], True, "cluster file")
        rec.require(d["max_cluster_order"] == order, "order in the cluster file")
        rec.close(np.ravel(dense(d["cluster_multiplicities"])), [len(poly.orbit(k)) for k in keys], "multiplicities in the cluster file")
        ind = [int(i) for i in d["order_start_indices"]]
        rec.require([sorted(keys[a:b]) for a, b in zip(ind[:-1], ind[1:])] == [sorted({poly.free(f) for f in poly.fixed(o)}) for o in range(1, order + 1)],
                    "clusters in the cluster file")
        rec.require(sorted(os.listdir(".")) == ["c.dat"], "only the cluster file is left")
        rec.state()

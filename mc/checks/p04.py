"""The batch driver: every cluster once, and no aggregation of unfinished data, whatever the order in which batch jobs finish"""
import itertools
import json
import os
import tempfile
from mc import driver, pipe
from mc.checks import p01

PROP = "P04"
BOUNDS = {"quick": "run_on_cluster.sh and the scripts it submits, with a controlled batch system: complete real runs of orders 1..3; numbers of clusters 1..4, 499, 500, 501, 1000"
                   " with trivial jobs; order 2: every schedule in which any of the waiting jobs of both stages finish between two polls; order 3: every "
                   "order of completion of the 4 jobs; every job of both stages observed before each of its file system operations and after 0, 1, half "
                   "and all but one of the bytes of each file it writes, while all others are complete",
          "thorough": "order 3: every schedule of 4 jobs in each stage; jobs observed after every 64th byte"}
ASSUMPTIONS = ["jobs of an array run in the directory of submission and see the exported variables, as in slurm"]
CASE_CPU_S = 600
MARK = ("find_subclusters.py", "diag_cluster.py")


def ordered_partitions(n):
    """all ways in which n waiting jobs finish: a list of sets, one per poll"""
    if n == 0:
        return [[]]
    out = []

    def rec(left, acc):
        if not left:
            out.append(acc)
            return
        for k in range(1, len(left) + 1):
            for s in itertools.combinations(left, k):
                rec([x for x in left if x not in s], acc + [list(s)])
    rec(list(range(n)), [])
    return out


def cases(tier):
    th = tier == "thorough"
    out = [{"kind": "real", "order": o, "same": s} for o in (1, 2, 3) for s in (0, 1)]
    out += [{"kind": "count", "n": n} for n in (1, 2, 3, 4, 499, 500, 501, 1000)]
    for a in ordered_partitions(2):
        for b in ordered_partitions(2):
            for idle in (0, 1):
                out.append({"kind": "sched", "order": 2, "a": a, "b": b, "idle": idle})
    perms = ordered_partitions(4) if th else [[[x] for x in p] for p in itertools.permutations(range(4))]
    for a in perms:
        out.append({"kind": "sched", "order": 3, "a": a, "b": a[::-1], "idle": 0})
    for order in (1, 2):
        for stage in ("find", "diag"):
            for k in range(pipe.FREE[order]):
                for part in range(4):
                    out.append({"kind": "part", "order": order, "stage": stage, "k": k, "part": part, "of": 4, "step": 64 if th else 0})
    return out


def cost(c):
    return {"real": 40, "count": 2 + c.get("n", 0) / 20., "sched": 6, "part": 12}[c["kind"]]


def run(case, rec):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        try:
            {"real": real, "count": count, "sched": sched, "part": part}[case["kind"]](case, rec, tmp)
        finally:
            os.chdir(here)


def install(tmp, order, same=False):
    d = driver.Driver(tmp, same)
    ref = p01.reference(order, 1)
    for j in pipe.jobs(order):
        with open(os.path.join(d.state, "ref", j), "wb") as f:
            f.write(ref[j])
    return d


def finished(rec, d, order, rc, log, err, what):
    """the driver has come to its end, and the result is that of the expansion"""
    rec.require(not any(x[0] == "stuck" for x in log), f"{what}: the driver waits for ever")
    rec.require(rc != "timeout", f"{what}: the driver does not finish")
    res = [x for x in log if x[0] == "python" and x[1] == "aggregate_results.py"]
    rec.require(len(res) >= 1, f"{what}: the driver ends without aggregating the results. {err[-400:]}")
    out = os.path.join(res[-1][3], res[-1][2][2])
    rec.require(os.path.exists(out), f"{what}: no result. {err[-400:]}")
    if order is not None:
        os.chdir(os.path.dirname(out))
        old = pipe.out_file
        try:
            pipe.out_file = lambda j, s: out if j == "res" else old(j, s)
            pipe.check_file("res", order, 1, rec)
        finally:
            pipe.out_file = old


def tasks_of(log, n, rec, what):
    """every cluster is treated exactly once in each stage"""
    for s in MARK:
        idx = sorted(int(x[2][0]) for x in log if x[0] == "python" and x[1] == s)
        rec.require(idx == list(range(1, n + 1)), f"{what}: {s} was run for the clusters {idx if len(idx) < 20 else str(idx[:10]) + '...'}, expected 1..{n}")
        outs = [x[2][1] for x in log if x[0] == "python" and x[1] == s]
        rec.require(len(set(outs)) == n, f"{what}: several jobs of {s} write the same file")
    seq = [x[1] for x in log if x[0] == "python"]
    first = {s: seq.index(s) for s in set(seq)}
    last = {s: len(seq) - 1 - seq[::-1].index(s) for s in set(seq)}
    rec.require(last["find_subclusters.py"] < first["aggregate_subclusters.py"], f"{what}: subclusters are aggregated before all are found")
    rec.require(last["diag_cluster.py"] < first["aggregate_results.py"] and last["aggregate_subclusters.py"] < first["aggregate_results.py"],
                f"{what}: results are aggregated before all clusters are diagonalised")


def real(case, rec, tmp):
    order = case["order"]
    d = driver.Driver(tmp, bool(case["same"]))
    rc, log, err = d.run(mode="real", order=order, n=pipe.FREE[order])
    finished(rec, d, order, rc, log, err, f"order {order}")
    tasks_of(log, pipe.FREE[order], rec, f"order {order}")
    rec.state(len(log))
    rec.trans()
    rec.outcome("real", order)


def count(case, rec, tmp):
    d = driver.Driver(tmp)
    rc, log, err = d.run(mode="fake", order=1, n=case["n"])
    finished(rec, d, None, rc, log, err, f"{case['n']} clusters")
    tasks_of(log, case["n"], rec, f"{case['n']} clusters")
    rec.state(len(log))
    rec.trans()
    rec.outcome("count", case["n"])


def plan(n, a, b, idle):
    """one step per poll: generation, then the jobs of the first and of the second stage (queue positions 1..n, n+1..2n)"""
    w = [[]] * idle
    return w + [[["run", 0]]] + w + [[["run", 1 + x] for x in s] for s in a] + w + [[["run", 1 + n + x] for x in s] for s in b]


def sched(case, rec, tmp):
    order = case["order"]
    n = pipe.FREE[order]
    d = install(tmp, order)
    rc, log, err = d.run(mode="fast", order=order, n=n, plan=plan(n, case["a"], case["b"], case["idle"]))
    what = f"jobs finish in the order {case['a']}, {case['b']}"
    finished(rec, d, order, rc, log, err, what)
    tasks_of(log, n, rec, what)
    rec.state(len(log))
    rec.trans()
    rec.outcome("sched", case["a"], case["b"])


def snapshots(case, ref, names, tmp):
    """all states of the directory that other processes can see while the job runs"""
    order = case["order"]
    script = "find_subclusters.py" if case["stage"] == "find" else "diag_cluster.py"
    work = os.path.join(tmp, "snap")
    os.makedirs(work)
    with open(os.path.join(tmp, "in.dat"), "wb") as f:
        f.write(ref["gen"])
    os.chdir(work)
    seen = {}

    def take():
        s = []
        for f in sorted(os.listdir(".")):
            with open(f, "rb") as fh:
                s.append((f, fh.read()))
            os.remove(f)
        return tuple(s)
    job = lambda: pipe.run_script(script, [str(case["k"] + 1), names, os.path.join(tmp, "in.dat")])
    k = 0
    while k < 100:
        ok, _ = pipe.crash_run(job, event=k)
        s = take()
        if ok:
            break
        seen[s] = f"before file system operation {k}"
        k += 1
    size = max([len(x[1]) for x in s] + [1])
    for e in range(k):
        for b in (0, 1, size // 2, size - 1):
            pipe.crash_run(job, event=e, byte=b)
            seen.setdefault(take(), f"after {b} bytes following file system operation {e}")
    pts = {0, 1, size // 2, size - 1} | (set(range(0, size, case["step"])) if case["step"] else set())
    for b in sorted(pts):
        pipe.crash_run(job, byte=b)
        seen.setdefault(take(), f"after {b} bytes")
    return [(v, s) for s, v in seen.items()]


def part(case, rec, tmp):
    order = case["order"]
    n = pipe.FREE[order]
    ref = p01.reference(order, 1)
    # the name of the file the driver gives to this job
    with tempfile.TemporaryDirectory(dir=tmp) as t0:
        d = install(t0, order)
        rc, log, err = d.run(mode="fast", order=order, n=n)
        script = "find_subclusters.py" if case["stage"] == "find" else "diag_cluster.py"
        outs = [x[2][1] for x in log if x[0] == "python" and x[1] == script and int(x[2][0]) == case["k"] + 1]
        rec.require(len(outs) == 1, f"{script} is run {len(outs)} times for cluster {case['k']}")
    snaps = snapshots(case, ref, os.path.basename(outs[0]), tmp)
    rec.require(len(snaps) >= 2, "the job writes files")
    for i, (what, s) in enumerate(snaps):
        if i % case["of"] != case["part"]:
            continue
        with tempfile.TemporaryDirectory(dir=tmp) as t1:
            d = install(t1, order)
            files = []
            for j, (name, data) in enumerate(s):
                with open(os.path.join(d.state, "s%d" % j), "wb") as f:
                    f.write(data)
                files.append([name, "s%d" % j])
            me = (1 if case["stage"] == "find" else 1 + n) + case["k"]
            mine = [["run", x] for x in range(me - case["k"], me - case["k"] + n) if x != me] + [["part", me, files]]
            stage1 = mine if case["stage"] == "find" else [["run", 1 + x] for x in range(n)]
            pl = [[["run", 0]], stage1] + ([] if case["stage"] == "find" else [mine])
            rc, log, err = d.run(mode="fast", order=order, n=n, plan=pl)
            txt = f"the driver looks at the files while {case['stage']}{case['k']} is {what}"
            rec.require(any(x[0] == "part" for x in log), "the intermediate state was reached")
            finished(rec, d, order, rc, log, err, txt)
            rec.state()
            rec.trans()
            rec.outcome(case["stage"], what)
            os.chdir(tmp)

"""
Bounded-exhaustive explorer.

A check module enumerates a finite list of JSON-able cases (``cases(tier)``, simplest first) and replays each one on the
implementation in /repo (``run(case, rec)``), where ``rec`` collects what was covered and raises ``Violation`` as soon as
the implementation disagrees with the reference model. Every case of the list is executed: nothing is sampled.

Cases are grouped in fixed chunks; each chunk is run in a freshly forked process, so that all cases of a chunk form one
history of a single process and different chunks are independent of each other.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import hashlib
import importlib
import json
import multiprocessing as mp
import resource
import shutil
import signal
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

NPROC = int(os.environ.get("VERIF_NPROC", "0")) or max(1, min(8, os.cpu_count() or 1))
CASE_CPU_S = 240
LEVEL = "model_checking"


class Violation(Exception):
    pass


class Timeout(BaseException):
    pass


class Recorder:
    """Counts what has been explored, and decides."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.outcomes = set()
        self.samples = []

    def state(self, n=1):
        self.states += int(n)

    def trans(self, n=1):
        self.transitions += int(n)

    def outcome(self, *vals):
        h = hashlib.blake2b(digest_size=8)
        for v in vals:
            if isinstance(v, np.ndarray):
                v = (v.shape, np.round(v, 6).tobytes() if v.dtype.kind in "fc" else v.tobytes())
            h.update(repr(v).encode())
        self.outcomes.add(h.hexdigest())

    def require(self, cond, msg):
        self.transitions += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, msg, tol=1e-9):
        """got and want agree up to rounding errors; NaN never agrees."""
        self.transitions += 1
        got = dense(got)
        want = dense(want)
        if got.size != want.size:
            raise Violation(f"{msg}: got shape {got.shape}, expected {want.shape}")
        if got.shape != want.shape:
            got = got.reshape(want.shape)
        if want.size == 0:
            return
        scale = max(1.0, float(np.max(np.abs(want))))
        err = np.abs(got - want)
        if not np.all(err <= tol * scale):
            bad = ~(err <= tol * scale)
            ind = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation(f"{msg}: got {got[ind]!r}, expected {want[ind]!r} at index {ind}")

    def raises(self, fn, exc, msg):
        self.transitions += 1
        try:
            fn()
        except exc:
            return
        raise Violation(msg)


def dense(a):
    """numpy array from array-like, matrix or scipy sparse"""
    if hasattr(a, "toarray"):
        a = a.toarray()
    return np.asarray(a)


def rng(case):
    """deterministic numbers for a case: generic, but the same on every run"""
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=4).hexdigest()
    return np.random.RandomState(int(h, 16) % (2 ** 31))


def _alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, rec):
    """run one case. Return None or the description of the violation"""
    np.random.seed(12345)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, rec)
        return None
    except Violation as e:
        return str(e)
    except Timeout:
        return "no answer within the time limit of the case"
    except MemoryError:
        return "out of memory: " + traceback.format_exc()[-1500:]
    except (Exception, SystemExit):
        return "raised " + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_cases(mod, cases):
    """run a history of cases in this process, stop at the first violation"""
    rec = Recorder()
    done = 0
    for i, c in enumerate(cases):
        before = (rec.states, rec.transitions)
        err = run_case(mod, c, rec)
        if err is not None:
            return {"bad": i, "err": err, "done": done, "rec": rec}
        done += 1
        if i == 0:
            rec.samples.append({"case": c, "states": rec.states - before[0], "transitions": rec.transitions - before[1]})
    return {"bad": None, "err": None, "done": done, "rec": rec}


def _line_coverage(outdir):
    """development aid: record the lines of the code under test that this process executes"""
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, no):
        if code.co_filename.startswith(REPO + "/"):
            seen.add((code.co_filename[len(REPO) + 1:], no))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(os.path.join(outdir, "%d.json" % os.getpid()), "w") as f:
            json.dump(sorted(seen), f)
    return dump


def _worker(name, cases, conn):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    scratch = os.getcwd()
    cov = os.environ.get("VERIF_COV")
    dump = _line_coverage(cov) if cov else lambda: None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        mod = importlib.import_module(name)
        res = run_cases(mod, cases)
    except BaseException:
        res = {"bad": 0, "err": "harness raised " + traceback.format_exc()[-1500:], "done": 0, "rec": Recorder()}
    os.chdir(scratch)
    dump()
    conn.send(res)
    conn.close()
    os._exit(0)


def in_fork(name, cases):
    """run a history in a forked process"""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_worker, args=(name, cases, b))
    p.start()
    b.close()
    return p, a


def collect(p, a):
    try:
        res = a.recv()
    except EOFError:
        res = None
    p.join()
    a.close()
    return res


def make_chunks(mod, cases):
    """consecutive cases, about 64 chunks at least, balanced by the cost the check declares"""
    cost = getattr(mod, "cost", lambda c: 1.0)
    costs = [float(cost(c)) for c in cases]
    limit = max(sum(costs) / getattr(mod, "NCHUNKS", 64), 1e-12)
    chunks, cur, acc = [], [], 0.0
    for c, w in zip(cases, costs):
        if cur and acc + w > limit:
            chunks.append((acc, cur))
            cur, acc = [], 0.0
        cur.append(c)
        acc += w
    if cur:
        chunks.append((acc, cur))
    return chunks


def explore(mod, name, cases):
    chunks = make_chunks(mod, cases)
    order = sorted(range(len(chunks)), key=lambda i: -chunks[i][0])
    results = {}
    retried = set()
    active = {}
    pending = list(order)
    stop = False
    while (pending and not stop) or active:
        while pending and not stop and len(active) < NPROC:
            i = pending.pop(0)
            active[i] = in_fork(name, chunks[i][1])
        ready = mp.connection.wait([a for _, a in active.values()], timeout=5)
        for i in [k for k, (_, a) in active.items() if a in ready]:
            p, a = active.pop(i)
            res = collect(p, a)
            if res is None:
                if i in retried:
                    res = {"bad": 0, "err": "process running the code under test died", "done": 0, "rec": Recorder()}
                else:
                    retried.add(i)
                    pending.insert(0, i)
                    continue
            results[i] = res
            if res["bad"] is not None:
                stop = True
        if stop:
            for i in list(active):
                # chunks that hold simpler cases may finish, as they may give a simpler counterexample
                p, a = active.pop(i)
                p.terminate()
                p.join()
                a.close()
    return chunks, results


def minimise(name, cases, bad):
    """the failing case alone if it fails alone, else the whole history up to it"""
    p, a = in_fork(name, [cases[bad]])
    res = collect(p, a)
    if res is None or res["bad"] is not None:
        return [cases[bad]], (res or {"err": "process running the code under test died"})["err"]
    p, a = in_fork(name, cases[:bad + 1])
    res = collect(p, a)
    return cases[:bad + 1], (res["err"] if res is not None and res["bad"] is not None else None)


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def main(argv):
    t0 = time.time()
    name, tier = argv[1], argv[2]
    modname = "mc.checks." + name.lower()
    scratch = tempfile.mkdtemp(prefix="verif_mc_")
    os.chdir(scratch)
    try:
        if len(argv) > 4 and argv[3] == "--replay":
            mod = importlib.import_module(modname)
            with open(os.path.join(VERIF, argv[4]) if not os.path.isabs(argv[4]) else argv[4]) as f:
                rep = json.load(f)
            res = run_cases(mod, rep["history"])
            if res["bad"] is not None:
                print("VIOLATION property=%s replay=%s" % (mod.PROP, argv[4]))
                print(res["err"])
                return 1
            print("replay: no violation")
            return 0
        return check(modname, tier, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def check(modname, tier, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        mod = importlib.import_module(modname)
        cases = list(mod.cases(tier))
    except Exception:
        # the code under test cannot be imported
        prop = modname.split(".")[-1].upper()
        err = traceback.format_exc()
        path = write_replay(prop, tier, [], err)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(err)
        return 1
    known = load_known(mod.PROP)
    known_cases = {json.dumps(k["case"], sort_keys=True): k for k in known}
    todo = [c for c in cases if json.dumps(c, sort_keys=True) not in known_cases]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.PROP, k["what"]))

    chunks, results = explore(mod, modname, todo)

    bad = [i for i in sorted(results) if results[i]["bad"] is not None]
    violations = 0
    states = sum(r["rec"].states for r in results.values())
    trans = sum(r["rec"].transitions for r in results.values())
    outcomes = set().union(*[r["rec"].outcomes for r in results.values()]) if results else set()
    done = sum(r["done"] for r in results.values())
    rc = 0
    if bad:
        i = bad[0]
        history, err = minimise(modname, chunks[i][1], results[i]["bad"])
        err = err or results[i]["err"]
        violations = len(bad)
        path = write_replay(mod.PROP, tier, history, err)
        print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
        print("case: " + json.dumps(history[-1], sort_keys=True))
        print(err)
        rc = 1

    nsamp = sorted(results)[:: max(1, len(results) // 5)][:6]
    coverage = {"states": states, "transitions": trans, "traces_validated_against_impl": done,
                "distinct_outcomes": len(outcomes), "cases_in_bound": len(cases), "processes": len(results),
                "exhaustive": bool(done == len(todo)),
                "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                "samples": [s for i in nsamp for s in results[i]["rec"].samples]}
    ev = {"property": mod.PROP, "tier": tier, "seed": seed, "level": LEVEL, "coverage": coverage,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "floating point agreement up to 1e-9 of the largest entry, unless the check says otherwise"],
          "wall_s": round(time.time() - t0, 3), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", mod.PROP + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", mod.PROP + ".json"))
    print("%s %s: %d/%d cases, %d states, %d transitions, %d distinct outcomes, %.1f s" %
          (mod.PROP, tier, done, len(cases), states, trans, len(outcomes), time.time() - t0))
    return rc


def write_replay(prop, tier, history, err):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    rel = os.path.join("evidence", "replay", "%s.json" % prop)
    with open(os.path.join(VERIF, rel), "w") as f:
        json.dump({"property": prop, "tier": tier, "history": history, "error": err,
                   "command": "cd /verif && ./check.sh %s %s --replay %s" % (prop, tier, rel)}, f, indent=1, default=str)
    return rel



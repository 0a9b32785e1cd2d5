"""The batch driver cluster/run_on_cluster.sh under a controlled scheduler.

The shell scripts of /repo/cluster are copied to a scratch directory, where the two absolute paths they contain are replaced.
``sbatch``, ``sleep`` and ``python`` are stand-ins found first on PATH: sbatch only queues the tasks, and each time the driver
sleeps between two polls, the scheduler performs the next step of the schedule that is being explored.
"""
import json
import os
import shutil
import subprocess
import sys
from mc.engine import REPO, VERIF

STUB = r'''
import json, os, subprocess, sys
S = os.environ["VC_STATE"]
CFG = json.load(open(os.path.join(S, "cfg.json")))


def log(*rec):
    with open(os.path.join(S, "log"), "a") as f:
        f.write(json.dumps(rec) + "\n")


def queue():
    p = os.path.join(S, "queue.json")
    return json.load(open(p)) if os.path.exists(p) else []


def save(q):
    with open(os.path.join(S, "queue.json"), "w") as f:
        json.dump(q, f)


def sbatch(argv):
    env, array, script = {}, None, None
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ("--export", "--array", "-a"):
            a = ("--array" if a == "-a" else a) + "=" + argv[i + 1]
            i += 1
        if a.startswith("--export="):
            for x in a[9:].split(","):
                if "=" in x:
                    k, v = x.split("=", 1)
                    env[k] = v
        elif a.startswith("--array="):
            array = a[8:].split("%")[0]
        elif not a.startswith("-"):
            script = a
            break
        i += 1
    ids = [None]
    if array is not None:
        ids = []
        for part in array.split(","):
            lo, _, hi = part.partition("-")
            hi = hi or lo
            if not (lo.isdigit() and hi.isdigit()) or int(lo) > int(hi):
                log("invalid", array)
                sys.stderr.write("sbatch: error: Batch job submission failed: Invalid job array specification\n")
                return 1
            ids += list(range(int(lo), int(hi) + 1))
    if script is None or not os.path.isfile(script):
        log("invalid", "script %r" % script)
        return 1
    q = queue()
    n = len(q)
    for j in ids:
        q.append({"script": script, "env": env, "id": j, "cwd": os.getcwd(), "done": False})
    save(q)
    log("sbatch", n, len(q))
    print("Submitted batch job %d" % (n + 1))
    return 0


def task(t):
    e = dict(os.environ)
    e.update(t["env"])
    e.pop("SLURM_ARRAY_TASK_ID", None)
    if t["id"] is not None:
        e["SLURM_ARRAY_TASK_ID"] = str(t["id"])
    subprocess.run(["bash", t["script"]], env=e, cwd=t["cwd"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
    t["done"] = True


def sleep(argv):
    p = os.path.join(S, "polls")
    n = int(open(p).read()) if os.path.exists(p) else 0
    with open(p, "w") as f:
        f.write(str(n + 1))
    q = queue()
    pend = [i for i, t in enumerate(q) if not t["done"]]
    if not pend:
        idle = os.path.join(S, "idle")
        k = int(open(idle).read()) if os.path.exists(idle) else 0
        with open(idle, "w") as f:
            f.write(str(k + 1))
        if k >= 2:
            log("stuck")
            os.kill(os.getppid(), 9)
        return 0
    steps = CFG["plan"][n] if n < len(CFG["plan"]) else None
    if steps is None:
        steps = [["run", i] for i in pend]
    for s in steps:
        if s[0] == "next":
            i = pend[s[1]] if s[1] < len(pend) else None
        else:
            i = s[1]
        if i is None or i >= len(q) or q[i]["done"]:
            continue
        t = q[i]
        if s[0] == "part":
            log("part", i)
            for name, src in s[2]:
                with open(os.path.join(S, src), "rb") as f:
                    data = f.read()
                with open(os.path.join(t["cwd"], name), "wb") as f:
                    f.write(data)
            t["left"] = [name for name, _ in s[2]]
        else:
            for name in t.get("left", ()):
                if os.path.exists(os.path.join(t["cwd"], name)):
                    os.remove(os.path.join(t["cwd"], name))
            task(t)
    save(q)
    return 0


def put(name, data):
    with open(name, "wb") as f:
        f.write(data)


def ref(name):
    with open(os.path.join(S, "ref", name), "rb") as f:
        return f.read()


def python(argv):
    script = os.path.basename(argv[0])
    args = argv[1:]
    inputs = [a for a in args[1:] if a and os.path.isfile(a)]
    log("python", script, args, os.getcwd())
    mode = CFG["mode"]
    if script == "generate_clusters_no_subs.py":
        args[1] = str(CFG["order"])
    if mode == "fake":
        if script == "generate_clusters_no_subs.py":
            put(args[0], b"x")
            print(CFG["n"])
        else:
            put(args[2 if script == "aggregate_results.py" else 1], b"x")
        return 0
    if mode == "fast":
        if script == "generate_clusters_no_subs.py":
            if not os.path.exists(args[0]):
                put(args[0], ref("gen"))
            print(CFG["n"])
            return 0
        if script in ("find_subclusters.py", "diag_cluster.py"):
            with open(args[2], "rb") as f:
                if f.read() != ref("gen"):
                    log("input", script, args)
                    return 1
            put(args[1], ref(("find" if script[0] == "f" else "diag") + str(int(args[0]) - 1)))
            return 0
    e = {k: v for k, v in os.environ.items() if not k.startswith("VC_")}
    e["PYTHONPATH"] = CFG["repo"]
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONWARNINGS"] = "ignore"
    return subprocess.run([CFG["python"], argv[0]] + args, env=e).returncode


sys.exit({"sbatch": sbatch, "sleep": sleep, "python": python, "python3": python}[os.environ["VC_ME"]](sys.argv[1:]))
'''


class Driver:
    """one scratch installation of the batch scripts"""

    def __init__(self, base, same_dir=False):
        self.base = base
        self.root = os.path.join(base, "root")
        self.work = self.root if same_dir else os.path.join(base, "work")
        self.state = os.path.join(base, "state")
        for d in (self.root, self.work, self.state, os.path.join(self.state, "ref"), os.path.join(base, "bin"), os.path.join(base, "env", "bin")):
            os.makedirs(d, exist_ok=True)
        open(os.path.join(base, "env", "bin", "activate"), "w").close()
        for f in os.listdir(os.path.join(REPO, "cluster")):
            src = os.path.join(REPO, "cluster", f)
            if f.endswith(".sh"):
                with open(src, newline="") as fh:
                    t = fh.read()
                t = t.replace("/scratch/ptbrown/exact_diag", self.root).replace("/home/ptbrown/python_env", os.path.join(base, "env"))
                t = t.replace("\r\n", "\n")
                with open(os.path.join(self.root, f), "w") as fh:
                    fh.write(t)
            elif f.endswith(".py"):
                shutil.copy(src, os.path.join(self.root, f))
        with open(os.path.join(self.state, "stub.py"), "w") as f:
            f.write(STUB)
        for name in ("sbatch", "sleep", "python", "python3"):
            p = os.path.join(base, "bin", name)
            with open(p, "w") as f:
                f.write("#!/bin/sh\nVC_ME=%s exec %s -S -E -B %s \"$@\"\n" % (name, sys.executable, os.path.join(self.state, "stub.py")))
            os.chmod(p, 0o755)

    def run(self, **cfg):
        cfg.setdefault("plan", [])
        cfg.update(repo=REPO, python=sys.executable)
        with open(os.path.join(self.state, "cfg.json"), "w") as f:
            json.dump(cfg, f)
        env = dict(os.environ, PATH=os.path.join(self.base, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), VC_STATE=self.state)
        try:
            r = subprocess.run(["bash", os.path.join(self.root, "run_on_cluster.sh")], cwd=self.work, env=env, stdin=subprocess.DEVNULL,
                               capture_output=True, text=True, timeout=300, start_new_session=True)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        log = []
        p = os.path.join(self.state, "log")
        if os.path.exists(p):
            with open(p) as f:
                log = [json.loads(x) for x in f]
        return rc, log, err

"""NLCE batch pipeline: a job that dies at any point"""
import os
import tempfile
from mc import pipe
from mc.checks import p01

PROP = "P02"
BOUNDS = {"quick": "order 1: every job killed after every byte written and before every file system operation; order 2: the cluster generation (both "
                   "generators) killed after every 8th byte and every of the first and last 32, the other jobs after every 256th byte, and every job before "
                   "every file system operation and after 0, 1, half and all but one bytes of each file it writes. Also every output file cut after every 16th (order 2: 128th) byte and "
                   "the first and last 32. After each crash: the jobs that depend on it, and recovery by running it again",
          "thorough": "order 2: every job killed after every byte; order 3: every 64th byte"}
ASSUMPTIONS = ["a crash of a job loses nothing that it has written before; a crash of the machine (torn files) loses the end of one file"]
CASE_CPU_S = 600


def cases(tier):
    out = []
    th = tier == "thorough"
    for order in (1, 2) + ((3,) if th else ()):
        for job in pipe.jobs(order) + ["gen2"]:
            out.append({"order": order, "job": job, "mode": "event", "part": 0, "parts": 1, "step": 1})
            step = 1 if order == 1 or (th and order == 2) else (64 if th else 8 if job.startswith("gen") else 256)
            if order == 1 and job.startswith("diag") and not th:
                step = 4
            parts = 8 if step < 64 else 1
            for p in range(parts):
                out.append({"order": order, "job": job, "mode": "byte", "part": p, "parts": parts, "step": step})
            if job not in ("gen2", "res"):
                out.append({"order": order, "job": job, "mode": "torn", "part": 0, "parts": 1, "step": 1 if th and order < 3 else 16 if order == 1 else 128})
    return out


def cost(c):
    return 1 if c["mode"] == "event" else 20 if c["order"] == 1 else 40


def run(case, rec):
    order, job = case["order"], case["job"]
    here = os.getcwd()
    ref = p01.reference(order, 1)
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        os.chdir(tmp)
        try:
            if job == "gen2":
                done, o = [], "c.dat"
                again = lambda: pipe.run_script("generate_clusters.py", ["c.dat", str(order)])
                again()
                size = os.path.getsize("c.dat")
                os.remove("c.dat")
            else:
                done = needed(job, order)
                o = pipe.out_file(job, 1)
                again = lambda: pipe.run_job(job, order, 1)
                size = len(ref[job])
            users = [j for j in pipe.jobs(order) if job in pipe.needs(j, order)] if job != "gen2" else []
            if case["mode"] == "event":
                k = 0
                while True:
                    p01.restore(order, 1, done)
                    finished, st = pipe.crash_run(again, event=k)
                    after(case, rec, order, job, o, users, again, f"killed before file system operation {k}")
                    if finished:
                        break
                    for b in sorted({0, 1, size // 2, size - 1}):
                        p01.restore(order, 1, done)
                        pipe.crash_run(again, event=k, byte=b)
                        after(case, rec, order, job, o, users, again, f"killed after {b} bytes of a file following file system operation {k}")
                    k += 1
                    rec.require(k < 200, "job does not finish")
                rec.require(k >= 1, "the job writes files")
                return
            pts = sorted(set(range(0, size + 1, case["step"])) | set(range(0, 32)) | set(range(max(0, size - 32), size + 1)))
            if case["mode"] == "torn":
                # the file has its name, but not all of its data reached the disk
                for b in pts:
                    if b == size:
                        continue
                    p01.restore(order, 1, done)
                    with open(o, "wb") as f:
                        f.write(ref[job][:b])
                    after(case, rec, order, job, o, users, again, f"lost all but {b} bytes of its file")
                return
            for b in pts[case["part"]::case["parts"]]:
                p01.restore(order, 1, done)
                pipe.crash_run(again, byte=b)
                after(case, rec, order, job, o, users, again, f"killed after {b} bytes")
        finally:
            os.chdir(here)


def needed(job, order):
    out = []
    for j in pipe.needs(job, order):
        for x in needed(j, order) + [j]:
            if x not in out:
                out.append(x)
    return out


def check2(order, rec):
    d = pipe.load("c.dat")
    rec.require(len(d["cluster_list"]) == pipe.FREE[order] and d["sub_cluster_mult"].shape == (pipe.FREE[order],) * 2, "content of the cluster file")


def after(case, rec, order, job, o, users, again, what):
    """what the crash left behind"""
    rec.state()
    left = os.path.exists(o)
    if left and job in ("gen", "gen2") and case["mode"] != "torn":
        # the next stage starts as soon as the file exists
        try:
            check2(order, rec) if job == "gen2" else pipe.check_file("gen", order, 1, rec)
        except (EOFError, OSError, ValueError, KeyError, IndexError, ImportError) as e:
            rec.require(False, f"{job} {what} left a cluster file that cannot be read: {e!r}")
        except Exception as e:
            if type(e).__name__ == "UnpicklingError":
                rec.require(False, f"{job} {what} left a cluster file that cannot be read: {e!r}")
            raise
    # a dependent job either fails, or finds the complete file
    for u in users:
        if u == "agg" or u == "res":
            others = [j for j in pipe.needs(u, order) if j != job]
            have = [x for j in others for x in needed(j, order) + [j] if x != job]
            ref = p01.reference(order, 1)
            for j in have:
                f = pipe.out_file(j, 1)
                if not os.path.exists(f):
                    with open(f, "wb") as fh:
                        fh.write(ref[j])
        uo = pipe.out_file(u, 1)
        try:
            pipe.run_job(u, order, 1)
        except (Exception, SystemExit):
            rec.require(not os.path.exists(uo), f"{u} failed after {job} was {what}, but wrote {uo}")
            rec.outcome(job, u, "failed")
        else:
            pipe.check_file(u, order, 1, rec)
            os.remove(uo)
            rec.outcome(job, u, "ok")
        rec.trans()
    # running it again repairs everything
    if case["mode"] == "torn" and job == "gen":
        os.remove(o)  # the generation does not replace an existing file
    again()
    if job == "gen2":
        check2(order, rec)
    else:
        pipe.check_file(job, order, 1, rec)
    for u in users[:2]:
        pipe.run_job(u, order, 1)
        pipe.check_file(u, order, 1, rec)
    rec.trans()

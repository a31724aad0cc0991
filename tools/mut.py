#!/usr/bin/env python3
"""Development aid: run checks against single-edit mutants of /repo in scratch copies under /tmp/mut.
usage: mut.py [-j N] [id ...]   (ids from mutants.py; prefix match; default all)
       mut.py --seed ID DIR      write DIR/patch.diff for a mutant"""
import os, subprocess, sys, shutil, json, concurrent.futures as cf, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "programs/mango-v4/src/"
MUT = []
def mut(id, props, file, *edits, why=""):
    """edits: (old, new[, count-th occurrence]) pairs; file may be overridden by a 4-tuple (file, old, new)"""
    MUT.append(dict(id=id, props=props.split(), file=file, edits=edits, why=why))
exec(open(os.path.join(V, "tools", "mutants.py")).read())

def edit(repo, m):
    for e in m["edits"]:
        file, old, new = (e if len(e) == 3 else (m["file"],) + tuple(e))
        p = os.path.join(repo, file if file.startswith(("programs/", "lib/", "bin/")) else M + file)
        t = open(p).read()
        if t.count(old) != 1:
            raise ValueError(f"{t.count(old)} matches in {file}: {old[:60]!r}")
        open(p, "w").write(t.replace(old, new))

def worker_dirs(k):
    d = f"/tmp/mut/{k}"
    if not os.path.exists(d + "/verif"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(f"mkdir -p {d}/verif && rsync -a --exclude target --exclude .git {V}/ {d}/verif/ && cp -a {V}/harness/target {d}/verif/harness/target", shell=True, check=True)
    subprocess.run(f"rsync -a --delete --exclude target --exclude .git --exclude mango/src --exclude margin-trade/src --exclude checked-math/src --exclude feeds-src --exclude evidence {V}/harness/ {d}/verif/harness/ && cp {V}/check.sh {V}/known-findings.jsonl {d}/verif/", shell=True, check=True)
    subprocess.run(f"mkdir -p {d}/repo && rsync -a --delete --exclude target --exclude .git --exclude node_modules /repo/programs /repo/lib /repo/bin {d}/repo/", shell=True, check=True)
    return d

def run_one(m, k):
    d = f"/tmp/mut/{k}"
    subprocess.run(f"rsync -a --delete --exclude target --exclude .git /repo/programs /repo/lib /repo/bin {d}/repo/", shell=True, check=True)
    edit(d + "/repo", m)
    env = dict(os.environ, REPO=d + "/repo")
    env.pop("VERIF_DIR", None)
    out = {}
    for p in m["props"]:
        r = subprocess.run([f"{d}/verif/check.sh", p, "quick"], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.strip().startswith("violation") or "error" in l[:8]]
        out[p] = (r.returncode, r.stdout)
    return out

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--seed":
        m = [m for m in MUT if m["id"] == a[1]][0]
        t = "/tmp/mut/seedrepo"
        shutil.rmtree(t, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(["git", "clone", "-q", "-s", "/repo", t], check=True)
        edit(t, m)
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(a[2], "patch.diff"), "w").write(diff)
        shutil.rmtree(t)
        sys.exit(0)
    jobs = 3
    if a and a[0] == "-j":
        jobs = int(a[1]); a = a[2:]
    ms = [m for m in MUT if not a or any(m["id"].startswith(x) for x in a)]
    jobs = min(jobs, len(ms))
    q = queue.Queue()
    for k in range(jobs):
        worker_dirs(k); q.put(k)
    def go(m):
        k = q.get()
        try:
            return m, run_one(m, k)
        except ValueError as e:
            return m, {"text": (-1, str(e))}
        finally:
            q.put(k)
    missed = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(go, m) for m in ms]):
            m, out = f.result()
            s = []
            hit = False
            for p, (rc, o) in out.items():
                det = ""
                if rc == 1:
                    hit = True
                    ls = [l for l in o.splitlines() if "VIOLATION" in l or "violation" in l]
                    det = (ls[0][:230] if ls else "")
                elif rc != 0:
                    det = o[-1500:]
                s.append(f"{p}:rc{rc} {det}")
            if not hit:
                missed.append(m["id"])
            print(("CAUGHT " if hit else "MISSED ") + m["id"] + " | " + " | ".join(s), flush=True)
    print("missed:", missed)

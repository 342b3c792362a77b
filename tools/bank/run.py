#!/usr/bin/env python3
"""Bank of hand-written breakages: apply each to a scratch clone of /repo and run the property's quick check there.
usage: run.py [-j N] [-t] FILE.py [ID...]     (-t: also build and run the repository's tests)
A bank file defines B = [(id, property, file, old, new), ...]; old must occur exactly once ("old", or (n, "old") for
the n-th occurrence counted from 0).  Behaviour-preserving edits use property "=C01" (the check must stay quiet)."""
import concurrent.futures as cf, os, queue, runpy, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]; N = 2
if args[0] == "-j": N = int(args[1]); args = args[2:]
B = runpy.run_path(args[0])["B"]; ids = set(args[1:])
pool = queue.Queue()
for i in range(N):
    d = "/tmp/bank%d_%d" % (os.getpid(), i)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True); pool.put(d)
def one(e):
    i, prop, f, old, new = e
    d = pool.get()
    try:
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
        edits = [(f, old, new)] if not isinstance(old, list) else None
        if edits is None: edits = [(f, o, n) for o, n in zip(old, new)]
        for f, o, n in edits:
            p = os.path.join(d, f); s = open(p).read()
            if isinstance(o, tuple):
                parts = s.split(o[1]); k = o[0]
                if len(parts) <= k + 1: return i, prop, "NOMATCH", ""
                s = o[1].join(parts[:k+1]) + n + o[1].join(parts[k+1:])
            else:
                if s.count(o) != 1: return i, prop, "NOMATCH%d" % s.count(o), ""
                s = s.replace(o, n)
            open(p, "w").write(s)
        pr = prop.lstrip("=")
        env = dict(os.environ, MC_FAST="1", MC_REPO=d, VERIF_TIER="quick", MC_EVIDENCE_DIR="/tmp")
        try:
            r = subprocess.run(["python3", V + "/check.py", pr, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return i, prop, "TIMEOUT", ""
        st = {0: "quiet", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)
        msg = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l][:2]
        flag = "" if (st == "caught") != prop.startswith("=") and not st.startswith("rc") else "   <<<<<<"
        return i, prop, st + flag, " ".join(msg)[:200]
    finally:
        pool.put(d)
todo = [e for e in B if not ids or e[0] in ids]
try:
    with cf.ThreadPoolExecutor(N) as ex:
        for r in ex.map(one, todo): print(*r, flush=True)
finally:
    while not pool.empty(): shutil.rmtree(pool.get())

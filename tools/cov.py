#!/usr/bin/env python3
"""Development aid: which lines of /repo do the quick checks execute?  usage: cov.py [C01 ...]; result /tmp/cov/report.txt"""
import sys, os, subprocess, re, collections, concurrent.futures as cf, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
R = check.REPO; W = "/tmp/cov"
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 23)]
shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/include/state-observation")
cfg = open(R + "/include/state-observation/config.h.in").read().replace("$<CONFIG:Debug>", "1")
open(W + "/include/state-observation/config.h", "w").write(re.sub(r"\$<CONFIG:\w+>", "0", cfg))
flags = ["-O1", "-g0", "--coverage", "-fprofile-update=atomic", "-w", "-DMC_COV", "-fno-gnu-unique", "-include", V + "/src/monitor.hpp",
         "-I", R + "/include", "-I", W + "/include", "-I", V + "/src", "-isystem", "/usr/include/eigen3"]
def cc(a):
    s, o, std = a
    subprocess.run(["g++", "-std=" + std] + flags + ["-c", s, "-o", o], check=True, cwd=W)
    return o
allsrc = sorted(f[:-4] for f in os.listdir(R + "/src") if f.endswith(".cpp"))
hit = collections.defaultdict(lambda: collections.defaultdict(int))
for p in props:
    d = W + "/" + p; os.makedirs(d)
    names = allsrc
    jobs = [(V + "/src/%s.cpp" % p.lower(), d + "/h.o", "c++17")] + [(R + "/src/%s.cpp" % n, d + "/%s.o" % n, "c++11") for n in sorted(set(names))]
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, jobs))
    subprocess.run(["g++", "--coverage", "-Wl,-z,muldefs", "-o", d + "/x"] + objs + ["-lboost_timer", "-lboost_system", "-lpthread"], check=True)
    w = d + "/w"; os.makedirs(w)
    subprocess.run([d + "/x", "--tier", "quick", "--out", w + "/o.json", "--work", w, "--workers", "8", "--budget", "120"],
                   cwd=w, env=dict(os.environ, MC_SCRATCH=w), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for o in objs:
        g = subprocess.run(["gcov", "-t", "-s", R, "-o", o, o], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
        f = None
        for l in g.splitlines():
            m = re.match(r"\s*(\S+):\s*(\d+):(.*)", l)
            if not m: continue
            n, k, t = m.group(1), int(m.group(2)), m.group(3)
            if k == 0:
                if t.startswith("Source:"): f = t[7:]
                continue
            if n == "-" or not f: continue
            if f.startswith("/") and not f.startswith(R + "/"): continue
            c = 0 if n.startswith(("#", "=")) else int(re.sub(r"\D", "", n) or 0)
            hit[f][k] += c
    print(p, flush=True)
    with open(W + "/report.txt", "w") as out:
        for f in sorted(hit):
            try: src = open(f if f.startswith("/") else R + "/" + f, errors="replace").read().splitlines()
            except OSError: continue
            miss = [k for k in sorted(hit[f]) if not hit[f][k]]
            out.write("== %s %d/%d\n" % (f, len(hit[f]) - len(miss), len(hit[f])))
            for k in miss: out.write("%5d %s\n" % (k, src[k - 1] if k <= len(src) else ""))

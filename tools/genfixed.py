#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from /repo's fix commits (development helper; checks never run it)."""
import subprocess, re, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + "/tools/fixmap.json"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b578af4..HEAD"], text=True)
out = [l for l in open(V + "/known-findings.txt").read().splitlines() if not l.startswith("fixed:")]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = [k for k, v in M.items() if h in v]
        if not p: print("UNMAPPED", l); continue
        out.append("fixed: property=%s %s %s" % (p[0], h, s[4:].strip()))
open(V + "/known-findings.txt", "w").write("\n".join(out) + "\n")

#!/usr/bin/env python3
# rewrites the 'fixed:' lines of KNOWN_FINDINGS.txt from tools/fixed.txt ("P03|subject of the fix commit|what failed") and /repo's history
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1); log[s] = h
p = H + "/KNOWN_FINDINGS.txt"; keep = [l for l in open(p) if not l.startswith("fixed:")]; out = []; seen = set()
for l in open(H + "/tools/fixed.txt"):
    l = l.rstrip("\n")
    if not l: continue
    pr, subj, what = l.split("|"); h = log.get("fix: " + subj); seen.add("fix: " + subj)
    if not h: raise SystemExit("no commit: " + subj)
    out.append("fixed: property=%s %s %s\n" % (pr, h, what))
for s in log:
    if s.startswith("fix:") and s not in seen: print("unlisted fix:", s)
open(p, "w").writelines(keep + out)

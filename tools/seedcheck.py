#!/usr/bin/env python3
"""which changed lines of a planted bug are not of the original repository"""
import sys, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    f = None; miss = []; n = 0
    for l in open(os.path.join(V, "seeded", i, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip(); orig = set(subprocess.run(["git", "-C", "/repo", "show", "9e5d6b7:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:].rstrip("\n") not in orig: miss.append(l.strip())
    print("%-26s %d removed lines, %d not original %s" % (i, n, len(miss), miss[:2]))

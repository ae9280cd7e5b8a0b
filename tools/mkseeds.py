#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (SEEDS lists)."""
import os, sys, json, shutil, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "tools", "seeds")
def load():
    S = {}
    for f in sorted(glob.glob(os.path.join(SD, "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in S, s["id"]
            S[s["id"]] = s
    return S
def main():
    S = load(); want = sys.argv[1:] or list(S)
    for i in want:
        s = S[i]; d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
        w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            if isinstance(old, tuple): old, k = old     # k-th occurrence (from 0)
            else:
                k = 0
                if t.count(old) != 1: raise SystemExit("%s: %d occurrences of %r" % (i, t.count(old), old))
            pos = -1
            for _ in range(k + 1):
                pos = t.index(old, pos + 1)
            open(p, "w").write(t[:pos] + new + t[pos + len(old):])
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        assert diff, i
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        run = s.get("run") or "timeout %d mpiexec --oversubscribe --mca btl_base_warn_component_unused 0 -n $NP ./demo" % s.get("timeout", 60)
        t = open(os.path.join(SD, "demo.sh")).read().replace("@NP@", str(s.get("np", 1))).replace("@ENV@", s.get("env", "")).replace("@RUN@", run)
        open(os.path.join(d, "demo.sh"), "w").write(t); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.c"), "w").write(("" if s.get("raw") else '#include "common.h"\n') + s["demo"].lstrip("\n"))
        for h in s.get("extra") or ["mini.h" if s.get("raw") else "common.h"]: shutil.copy(os.path.join(SD, h), d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(i)
    shutil.rmtree("/tmp/mkseed", ignore_errors=True)
main()

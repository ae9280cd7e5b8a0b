#!/usr/bin/env python3
"""seedtest.py [-j N] [-t] [-a] IDS..: each planted bug in private copies of /repo and /verif
(own mount and network namespace): applies, builds, passes the stable tests (-t), demo quiet
on the clean tree and failing with it, and what the check of its property says (-a: all checks)."""
import os, sys, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
SCRIPT = r'''
set -u
ip link set lo up
mount -t tmpfs none /tmp; mount -t tmpfs none /dev/shm
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "R cleanbuild FAIL"; tail -5 $W/b0.log; exit; }
bash $W/seed/demo.sh >$W/d0.log 2>&1; echo "R demo-clean $?"
git apply $W/patch.diff || { echo "R apply FAIL"; exit; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "R build FAIL"; grep -A3 error: $W/b1.log; tail -3 $W/b1.log; exit; }
bash $W/seed/demo.sh >$W/d1.log 2>&1; echo "R demo-patched $?"
if [ $T = 1 ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json')); s=b.get('stable') or b.get('passed') or b
print('R tests-missing', sorted(set(s)-set(t['passed']))[:5])"; fi
cd /verif
for p in $P; do VERIF_SEED=1 VERIF_TIER=quick VERIF_JOBS=$J timeout 900 python3 check.py $p quick >$W/c-$p.log 2>&1; echo "R check $p $?"; grep -m3 -A1 VIOLATION $W/c-$p.log | cut -c1-300; done
'''
def one(i, T, P, J):
    W = "/var/tmp/seedwt/" + i; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    os.makedirs(W + "/verif")
    subprocess.run("cp -a /verif/check.py /verif/vm /verif/spec /verif/harness /verif/known-findings.txt /verif/properties.jsonl %s/verif/; mkdir -p %s/verif/build; cp -a /verif/build/obj* /verif/build/mpi* /verif/build/gen %s/verif/build/ 2>/dev/null" % (W, W, W), shell=True)
    subprocess.run("cp -a %s/seeded/%s %s/seed; mv %s/seed/patch.diff %s/; rm -f %s/seed/meta.json" % (V, i, W, W, W, W), shell=True)
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    e = dict(os.environ, W=W, T=str(int(T)), P=" ".join(P or [meta["property"]]), J=str(J))
    r = subprocess.run(["unshare", "-mnpf", "--mount-proc", "bash", "-c", SCRIPT], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return i, meta["property"], r.stdout
def main():
    a = sys.argv[1:]; T = False; jobs = 4; P = None; keep = False
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-t": T = True
        if o == "-j": jobs = int(a.pop(0))
        if o == "-p": P = a.pop(0).split(",")
        if o == "-k": keep = True
    ids = a or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(jobs) as ex:
        for i, p, out in ex.map(lambda i: one(i, T, P, max(2, 8 // jobs)), ids):
            print("=== %s (%s)" % (i, p)); print("  " + out.strip().replace("\n", "\n  "), flush=True)
            if not keep: shutil.rmtree("/var/tmp/seedwt/" + i, ignore_errors=True)
main()

#!/usr/bin/env python3
"""mutate.py [-j N] [-n COUNT] [-s SEED] FILE.c..: random small changes of the library's code, each in
private copies of /repo and /verif; prints for each which check reports it first (or SURVIVED).
Only used to find gaps of the checks; survivors are looked at by hand."""
import os, sys, re, json, random, subprocess, shutil, time, signal
from concurrent.futures import ThreadPoolExecutor
PROPS = {
 "partitioner.c": "P01 P02 P05", "partitioning.c": "P02 P01 P04 P12 P05", "rangelist.c": "P02 P01 P03 P05 P09 P12",
 "space.c": "P03 P04 P01 P15 P12 P09", "action.c": "P06 P07 P08 P14 P05", "data.c": "P05 P06 P15 P09 P16 P12 P14",
 "layout.c": "P09 P15 P05 P16", "layout_lex.c": "P09 P15 P05 P16", "kvs.c": "P10 P12", "core.c": "P11 P12 P17 P18 P05",
 "backend-mpi.c": "P07 P06 P08 P11 P05", "backend-tcp2.c": "P13 P12 P07 P10 P11", "backend-single.c": "P05 P06 P14",
 "type.c": "P06 P05 P13", "external.c": "P17", "backend.c": "P07", "program.c": "P18 P17", "profiling.c": "P18", "logging.c": "P18",
}
def mutants(path):
    src = open(path).read().split("\n"); out = []; fn = None; inc = False
    for n, l in enumerate(src):
        s = l.strip()
        if re.match(r"^[a-zA-Z].*\(", l) and not s.endswith(";"): fn = re.sub(r"\(.*", "", l).split()[-1]
        if s.startswith("/*"): inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not l.startswith("    ") or s.startswith("//") or s.startswith("#") or not s: continue
        if re.match(r"(laik_log|assert|free|log_|printf|fprintf|laik_panic|exit|LOG|debug|int |unsigned|bool |static|const|char|//|\"|case|default)", s): continue
        if "laik_log" in s or "PRI" in s or '"' in s: continue
        if "malloc" in s or "assert" in s: continue
        if fn and re.search(r"log|print|debug|str$", fn): continue
        code = l.split("//")[0]
        def add(new, what):
            if new != l: out.append((n, l, new, what, fn))
        for a, b in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                     (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" + 1", ""), (" - 1", ""), ("++", "--"),
                     (" += ", " = "), (" -= ", " += "), (" * ", " + "), ("->from", "->to"), ("->to", "->from"), ("[0]", "[1]"), ("[1]", "[0]"),
                     ("[i]", "[0]"), (" = 0;", " = 1;"), (" = 1;", " = 0;"), ("true", "false"), ("false", "true"), ("from", "to")]:
            p = code.find(a)
            while p >= 0:
                if not (a in ("from", "to") and (code[p-1:p].isalnum() or code[p+len(a):p+len(a)+1].isalnum())):
                    add(code[:p] + b + code[p+len(a):], a.strip() + " -> " + b.strip())
                p = code.find(a, p + 1)
        m = re.match(r"(\s*)(?:\} else |else )?if \((.*)\)( \{| [a-z].*;)?$", code.rstrip())
        if m and code.count("(") == code.count(")"):
            add(code.replace("if (" + m.group(2) + ")", "if (!(" + m.group(2) + "))"), "negated"); add(code.replace("if (" + m.group(2) + ")", "if (0)"), "never")
        if re.match(r"^[a-zA-Z_][\w\->\.\[\]\+\(\), \*&!]*( [\+\-]?= .*|\(.*\)|\+\+|--);$", s) and not re.match(r"^[A-Za-z_]+ \**[a-z_]\w*( =|;)", s) and not s.startswith("return"):
            add(re.match(r"\s*", l).group(0) + ";", "deleted")
        if s in ("continue;", "break;") and not src[n-1].strip().startswith("case"): add(l.replace(s, ";"), "deleted")
    return out
def one(job):
    k, f, (n, old, new, what, fn), J = job
    W = "/var/tmp/mutwt/%03d" % k; shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/verif/build")
    subprocess.run(["cp", "-a", SNAP + "-repo", W + "/repo"], check=True)
    subprocess.run("cp -a %s/. %s/verif/" % (SNAP, W), shell=True)
    p = W + "/repo/src/" + f; t = open(p).read().split("\n"); assert t[n] == old; t[n] = new; open(p, "w").write("\n".join(t))
    res = "SURVIVED"; det = ""; tim = time.time(); first = True
    for pr in PROPS[f].split():
        sc = "ip link set lo up; mount -t tmpfs none /tmp; mount -t tmpfs none /dev/shm; mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_JOBS=%d timeout 900 python3 check.py %s quick 2>&1" % (J, pr)
        q = subprocess.Popen(["unshare", "-mnpf", "--mount-proc", "bash", "-c", sc], env=dict(os.environ, W=W), stdout=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        txt = ""
        for line in q.stdout:
            txt += line
            if "VIOLATION property" in line:
                det = next(q.stdout, "").strip(); res = pr
                try: os.killpg(q.pid, signal.SIGKILL)
                except OSError: pass
                break
        q.wait()
        if res != "SURVIVED": break
        if q.returncode != 0:
            res = "%s:exit%d" % (pr, q.returncode); det = " | ".join(txt.strip().split("\n")[-3:])[-300:]; break
    shutil.rmtree(W, ignore_errors=True)
    return k, f, n, old, new, what, fn, res, det, time.time() - tim
def main():
    a = sys.argv[1:]; jobs = 4; cnt = 40; seed = 1
    while a and a[0].startswith("-"):
        o = a.pop(0); v = int(a.pop(0))
        if o == "-j": jobs = v
        if o == "-n": cnt = v
        if o == "-s": seed = v
    global SNAP
    SNAP = "/var/tmp/mutsnap%d" % os.getpid(); os.makedirs(SNAP + "/build")
    subprocess.run("cp -a /verif/check.py /verif/vm /verif/spec /verif/harness /verif/known-findings.txt /verif/properties.jsonl %s/; cp -a /verif/build/mpi /verif/build/sim* /verif/build/agent* /verif/build/gen %s/build/; cp -a /repo %s-repo" % (SNAP, SNAP, SNAP), shell=True)
    work = []
    for f in a:
        ms = mutants("/repo/src/" + f); random.Random("%s-%d" % (f, seed)).shuffle(ms)
        # at most 1 per line
        seen = set(); l = []
        for m in ms:
            if m[0] in seen: continue
            seen.add(m[0]); l.append(m)
        work += [(f, m) for m in l[:cnt]]
    with ThreadPoolExecutor(jobs) as ex:
        for k, f, n, old, new, what, fn, res, det, t in ex.map(one, [(i, f, m, max(2, 8 // jobs)) for i, (f, m) in enumerate(work)]):
            print("%s %s:%d %s [%s]\n   - %s\n   + %s\n   %s (%.0f s)" % (res, f, n + 1, fn, what, old.strip(), new.strip(), det[:160], t), flush=True)
if __name__ == "__main__":
    main()
    shutil.rmtree(SNAP); shutil.rmtree(SNAP + "-repo")

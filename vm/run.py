"""Runs scenarios on the real library and has TLC validate what was recorded."""
import json, os, subprocess, sys, re, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class BuildError(Exception): pass

def sources():
    """identity of everything that is compiled"""
    import hashlib
    repo = os.environ.get("REPO", "/repo"); h = hashlib.sha256(repo.encode())
    for top in (os.path.join(repo, "src"), os.path.join(repo, "include"), os.path.join(repo, "external", "simple"), os.path.join(VERIF, "harness")):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".cpp", "Makefile")):
                    h.update(os.path.join(d, f).encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()

def build(*targets):
    os.makedirs(B, exist_ok=True)
    # times of files say nothing: what was built from other contents is built again
    stamp = os.path.join(B, "sources"); now = sources()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        for d, _, files in os.walk(B):
            for f in files:
                if f.endswith((".o", ".so", ".d")): os.unlink(os.path.join(d, f))
        open(stamp, "w").write(now)
    r = subprocess.run(["make", "-s", "-j%d" % JOBS, "-f", os.path.join(VERIF, "harness", "Makefile"), "B=" + B] + [t if t in ("all", "agents") else os.path.join(B, t) for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])

def workdir(tag):
    d = os.path.join(B, "work", tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0"

def sim(scns, wd, binary="sim-mpi", jobs=None):
    """-> {id: output}"""
    jobs = jobs or JOBS
    if not scns: return {}
    # biggest first, dealt out round robin
    order = sorted(range(len(scns)), key=lambda i: -scns[i].n * len(scns[i].steps))
    k = min(jobs, len(scns))
    chunks = [[scns[i] for i in order[j::k]] for j in range(k)]
    def one(j):
        f = os.path.join(wd, "scen%d.txt" % j); o = os.path.join(wd, "out%d.ndjson" % j)
        with open(f, "w") as h: h.write("".join(s.text() for s in chunks[j]))
        env = dict(os.environ); env["ASAN_OPTIONS"] = ASAN; env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        for v in list(env):
            if v.startswith("LAIK_"): del env[v]
        r = subprocess.run([os.path.join(B, binary), f, o], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode: raise RuntimeError("simulator failed: " + r.stdout[-2000:])
        return o
    res = {}
    with ThreadPoolExecutor(k) as ex:
        for o in ex.map(one, range(k)):
            with open(o, errors="replace") as h:
                for l in h:
                    d = json.loads(l); res[d["id"]] = d
    return res

def tlc(module, cfg, wd, tag, env=None, workers=1, args=(), timeout=None, heap="2g"):
    """run TLC, -> (returncode, output)"""
    md = os.path.join(wd, "tlc-" + tag); os.makedirs(md, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-XX:TieredStopAtLevel=4", "-cp", TLAJARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
    shutil.rmtree(md, ignore_errors=True)
    return rc, out

def tlc_states(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
    if not m: return (0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

class Verdicts:
    def __init__(self):
        self.done, self.rejected, self.states, self.trans = set(), {}, 0, 0

def validate(records, wd, module="TraceLaik", jobs=None, heap="2g", depth=0):
    """TLC on recorded scenarios -> Verdicts (rejected: id -> (step, reason))"""
    V = Verdicts()
    if not records: return V
    jobs = jobs or JOBS
    records = [r for r in records]
    k = max(1, min(jobs, (len(records) + 3) // 4))
    order = sorted(range(len(records)), key=lambda i: -len(json.dumps(records[i])))
    chunks = [[records[i] for i in order[j::k]] for j in range(k)]
    def one(j):
        f = os.path.join(wd, "trace-%s-%d-%d.ndjson" % (module, depth, j))
        with open(f, "w") as h:
            for r in chunks[j]: h.write(json.dumps(r) + "\n")
        rc, out = tlc(module + ".tla", module + ".cfg", wd, "%s%d-%d" % (module, depth, j), env={"TRACE": f}, heap=heap)
        with open(f + ".tlc", "w") as h: h.write(out)
        return rc, out
    again = []
    with ThreadPoolExecutor(k) as ex:
        for j, (rc, out) in enumerate(ex.map(one, range(k))):
            ids = {r["id"] for r in chunks[j]}
            flat = re.sub(r"\s+", " ", out)
            for m in re.finditer(r'<< ?"DONE", "([^"]*)" ?>>', flat): V.done.add(m.group(1))
            for m in re.finditer(r'<< ?"REJECT", "([^"]*)", (-?\d+), "((?:[^"\\]|\\.)*)" ?>>', flat): V.rejected[m.group(1)] = (int(m.group(2)), m.group(3))
            g, d = tlc_states(out)
            V.states += d; V.trans += max(0, g - len(ids))
            left = ids - V.done - set(V.rejected)
            if left:
                if "Error:" not in out: raise RuntimeError("TLC gave no answer:\n" + out[-3000:])
                # evaluation failed inside one scenario: name it from the error trace and go on without it
                e = out[out.index("Error:"):]
                ms = re.findall(r"/\\ sid = (\d+)", e); mp = re.findall(r"/\\ pos = (-?\d+)", e)
                if not ms: raise RuntimeError("TLC failed:\n" + out[-3000:])
                bad = chunks[j][int(ms[-1]) - 1]["id"]
                V.rejected[bad] = (int(mp[-1]), "record cannot be evaluated: " + re.sub(r"\s+", " ", e)[:300])
                again += [r for r in chunks[j] if r["id"] in left and r["id"] != bad]
    if again:
        if depth > 6:
            return V
        W = validate(again, wd, module, jobs, heap, depth + 1)
        V.done |= W.done; V.rejected.update(W.rejected); V.states += W.states; V.trans += W.trans
    return V

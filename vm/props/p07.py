"""P07: communication under all schedules and with any buffering"""
import hashlib, json, os
from .. import gen, run
from ..ctx import Broken
from ..scn import Scn
from . import p08, p10

def norm_calls(out, n):
    """per process: the calls, communicators named in the order the process got to know them"""
    res, com = [""] * n, [{} for _ in range(n)]
    for c in out.get("calls", []):
        r = c["r"]; m = com[r].setdefault(c["m"], len(com[r]))
        res[r] += "%s %d %d %d %d %d;" % (c["c"], c["p"], c["t"] if c["c"] != "wait" else 0, m, c["n"], c["d"])
    return res

def digest(out):
    return hashlib.sha256(json.dumps(out.get("obs", {}), sort_keys=True).encode()).hexdigest()[:24]

def attach(s, alts, limit):
    """have the scenario recorded as a program of calls, with what other schedules did"""
    def merge(out):
        n = s.n; prog = [[] for _ in range(n)]
        for c in out.get("calls", []):
            prog[c["r"]].append({"c": c["c"], "p": c["p"] + 1, "t": c["t"], "m": c["m"], "n": c["n"], "q": c["q"], "d": c["d"]})
        comms = [{"id": int(k), "mem": [x + 1 for x in v]} for k, v in out.get("comms", {}).items()]
        size = 1
        for p in prog: size *= len(p) + 1
        ev = lambda o: ["T%d step %d: %s" % (e["r"], e["k"], e["e"]) for e in o["ev"]]
        full = int(size <= limit)
        if full: s.meta.setdefault("feats", []).append("all interleavings")
        s.ncalls = sum(map(len, prog))
        return {"id": s.id, "n": n, "end": out["end"], "ev": ev(out), "full": full, "prog": prog, "comms": comms,
                "calls": norm_calls(out, n), "res": digest(out),
                "alt": [{"end": a["end"], "ev": ev(a), "calls": norm_calls(a, n), "res": digest(a)} for a in alts.get(s.id, [])]}
    s.merge = merge

def variant(s, seed, mode):
    v = Scn(s.id, s.n, seed=seed, mode=mode, env=s.env, calls=1); v.lines = s.lines; v.steps = s.steps
    return v

def again(c, s):
    group(c, [s], "replay", s.limit, len(s.pick), [s.pick])

def group(c, scns, label, limit, nalt, pick=None):
    alts = {}
    for s in scns:
        s.mode, s.calls = 0, 1
        attach(s, alts, limit)
    pick = pick or [[(c.rng.randint(1, 10**6), m) for m in [1] + c.rng.sample([0, 2, 3, 16, 17, 18, 32, 33, 34], nalt - 1)] for _ in scns]
    for s, p in zip(scns, pick): s.pick, s.limit = p, limit
    def sim(sc, wd):
        for a in range(nalt):
            vs = [variant(s, *pick[scns.index(s)][a]) for s in sc]
            o = run.sim(vs, wd)
            for s in sc: alts.setdefault(s.id, []).append(o[s.id])
        out = run.sim(sc, wd)
        for s in sc: alts[s.id] = alts[s.id][-nalt:]
        return out
    c.run(scns, label, module="TraceMsg", sim=sim, corrupt=CORRUPT)
    c.calls = getattr(c, "calls", 0) + sum(getattr(s, "ncalls", 0) for s in scns)

# corrupted records
def c_swap(rec, rng):
    """a process receives before it sends what the other one waits for"""
    p = rng.choice(rec["prog"])
    k = [i for i, x in enumerate(p) if x["c"] in ("send", "isend", "recv", "irecv")]
    if not k: return False
    del p[rng.choice(k)]
    return True
def c_size(rec, rng):
    p = rng.choice(rec["prog"]); k = [x for x in p if x["c"] in ("send", "isend", "recv", "irecv")]
    if not k: return False
    x = rng.choice(k); x[rng.choice(["n", "t", "d"])] += 1
    return True
def c_alt(rec, rng):
    if not rec["alt"]: return False
    a = rng.choice(rec["alt"]); a["calls"] = list(a["calls"]); a["calls"][0] += "send 0 0 0 0 0;"
    return True
CORRUPT = [c_swap, c_size, c_alt]

def walks(c, tag, count, **kw):
    out = []
    for k in range(count):
        env = {}
        if c.rng.random() < .4: env["LAIK_MPI_REDUCE"] = "0"
        if c.rng.random() < .4: env["LAIK_MPI_ASYNC"] = "0"
        if c.rng.random() < .2: env["LAIK_LAYOUT_GENERIC"] = "1"
        s = gen.walk(c.rng, "%s%d" % (tag, k), env=env, **kw)
        s.meta["feats"] += ["%s=%s" % e for e in env.items()]
        out.append(s)
    return out

def matrix(c, id, n, pairs, back=True, env=None):
    """a switch whose messages are those of the given pairs of processes, and the way back"""
    s = Scn(id, n, seed=c.rng.randint(1, 10**6), mode=0, env=env or {}, calls=1, meta={"feats": ["matrix"]})
    cells = [x for x in pairs for _ in range(c.rng.choice([1, 1, 2]))] + [(c.rng.randrange(n),) * 2 for _ in range(c.rng.randint(0, 3))]
    c.rng.shuffle(cells)
    f = c.rng.choice([0, 0, -3, 7]); sp = [f, f + len(cells)]
    s.world(0); s.space(0, sp)
    for p, k in ((0, 0), (1, 1)):
        raw = [(x[k], 0, [f + i, f + i + 1]) for i, x in enumerate(cells)]
        c.rng.shuffle(raw); s.part(p, 0, 0, ("list", 0, raw))
    s.data(0, 0, c.rng.choice(["int32", "double", "char"]))
    s.sw(0, 0, "none", "none"); s.wr(0, 0, c.rng.randint(0, 99)); s.sw(0, 1, "pres", "none"); s.rd(0)
    if back: s.wr(0, 5, c.rng.randint(0, 99)); s.sw(0, 0, "pres", "none"); s.rd(0)
    s.fin(); return s

def env(c):
    e = {}
    if c.rng.random() < .5: e["LAIK_MPI_ASYNC"] = "0"
    if c.rng.random() < .3: e["LAIK_MPI_REDUCE"] = "0"
    return e

def matrices(c):
    out = []
    for n in (2, 3):
        pr = [(a, b) for a in range(n) for b in range(n) if a != b]
        for k in range(1, 1 << len(pr)):
            for e in [{"LAIK_MPI_ASYNC": "0"}, {}] if n == 3 or not c.quick else [{}]:
                out.append(matrix(c, "m%d_%d_%d" % (n, k, len(e)), n, [x for i, x in enumerate(pr) if k >> i & 1], back=False, env=e))
    for k in range(c.n(60, 800)):
        n = c.rng.randint(4, 6 if c.quick else 8); d = c.rng.choice([.2, .4, .7, 1.])
        pr = [(a, b) for a in range(n) for b in range(n) if a != b and c.rng.random() < d] or [(0, 1)]
        out.append(matrix(c, "M%d" % k, n, pr, env=env(c)))
    return out

def check(c):
    c.tcp = .15
    c.model("MCMsg"); c.model("MCExec")
    if not c.quick: c.model("MCMsg", "MCMsgThorough.cfg", timeout=3000); c.model("MCExec", "MCExecRounds.cfg"); c.model("MCExec", "MCExecThorough.cfg", timeout=3000)
    limit = c.n(3000, 60000); nalt = c.n(2, 4); nm = 4 if c.quick else 6
    small = walks(c, "s", c.n(120, 1200), nmin=2, nmax=3, nd=(1,), parts=(2, 2), steps=(1, 2), groups=.1, res=.1)
    group(c, small, "small", limit, nalt)
    scns = walks(c, "a", c.n(150, 1500), nmin=2, nmax=nm, groups=.3, res=.2)
    scns += walks(c, "x", c.n(60, 600), nmin=3, nmax=nm + 1, dims=(1,), parts=(3, 4), tys=["int32", "double"], steps=(3, 6))
    scns += [rename(p08.scenario(c.rng, k, not c.quick), "q%d" % k) for k in range(c.n(80, 800))]
    scns += [rename(p10.scenario(c.rng, k, False), "v%d" % k) for k in range(c.n(40, 400))]
    group(c, scns, "large", limit, nalt)
    group(c, matrices(c), "matrices", limit, nalt)
    c.notes.append("%d transport calls in the recorded programs" % c.calls)
    c.assume += ["the transport delivers messages of one pair of processes, tag and communicator in order"]

def rename(s, id):
    s.id = id; return s

"""P18: observing a program: log output, measured times, iterations and phases"""
import json, os, re
from .. import gen, run
from ..ctx import Broken
from ..scn import Scn

TARGETS = ["sim-mpi"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;:-+*/()[]{}<>=!?#'_%$&|@^~`"

def word(rng, big):
    r = rng.random()
    n = rng.randint(1, 9) if r < .8 else rng.randint(10, 60) if r < .93 or not big else rng.choice([99, 100, 101, 104, 110, 150, 199, 200, 260, 1023, 1024, 1500, 5000])
    return "".join(rng.choice(LETTERS) for _ in range(n))
def text(rng, big):
    """a message: lines with indentation, without spaces at the end of a line"""
    lines = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 6])):
        k = rng.choice([0, 1, 2, 5, 12]) if rng.random() < .7 else rng.choice([20, 45, 100, 300 if big else 30])
        ind = rng.choice([0, 0, 0, 1, 2, 4, 9, 30]) if k else 0
        lines.append(" " * ind + rng.choice([" ", " ", "  "]).join(word(rng, big) for _ in range(k)))
    t = "\n".join(lines) + ("\n" if rng.random() < .2 else "")
    while t.startswith(("Warning: ", "ERROR  : ", "       : ")): t = "x" + t
    return t
def pieces(rng, t):
    if rng.random() < .3: return [t]
    cuts = sorted(rng.randint(0, len(t)) for _ in range(rng.choice([1, 2, 5, 20])))
    return [t[a:b] for a, b in zip([0] + cuts, cuts + [len(t)])]

class Watched(Scn):
    """a scenario with observing steps between the others"""
    rate, big, sync = .5, True, True
    def watch(self, rng):
        self.rng, self.busy, self.nf = rng, False, {}
        self.open, self.on = {}, {}
    def step(self, rec, text, who=None):
        if not hasattr(self, "rng"): return Scn.step(self, rec, text, who)
        if not self.busy:
            self.busy = True
            while self.rng.random() < self.rate: self.observe()
            if rec["op"] == "fin": self.ending()
            self.busy = False
        return Scn.step(self, rec, text, who)
    def who(self):
        if self.rng.random() < .5: return list(range(self.n))
        return sorted(self.rng.sample(range(self.n), self.rng.randint(1, self.n)))
    def ending(self):
        ws = list(range(self.n))
        for w in ws:
            if self.open.get(w): self.pwr([w])
        self.pq(); self.itg(); self.pcl()
        for w in ws:
            for k in range(self.nf.get(w, 0)): self.pfget(k, [w])
    def observe(self):
        rng = self.rng; ws = self.who(); r = rng.random()
        if r < .35:
            t = text(rng, self.big); m = rng.choice([0, 1, 2, 3]); p = [t] if m == 0 else pieces(rng, t)
            self.log(rng.choice([1, 2, 3, 3, 4, 4]), m, p, ws)
        elif r < .39: self.lset(rng.choice([1, 2, 3, 4, 4, 5]), ws)
        elif r < .42: self.lsh(ws)
        elif r < .49: self.its(rng.randint(-3, 1000), ws)
        elif r < .51: self.itr(ws)
        elif r < .57: self.phs(rng.randint(-2, 9), rng.randrange(12), ws)
        elif r < .6: self.itg(ws)
        elif r < .68: self.tick(rng.choice([1, 7, 500, 20000, 999999, 61000000, 3 * 60000000]), ws)
        elif r < .73:
            on = int(rng.random() < .8)
            for w in ws:
                self.on[w] = on
            self.pen(on, ws)
        elif r < .78:
            # not while a file is open and profiling is off: nobody would close that one
            ws = [w for w in ws if self.nf.get(w, 0) < 14 and not (self.open.get(w) and not self.on.get(w))]
            for w in ws:
                self.pfile(self.nf.get(w, 0), [w]); self.nf[w] = self.nf.get(w, 0) + 1; self.open[w] = self.on[w] = 1
        elif r < .8: self.prs(ws)
        elif r < .86: self.pus(int(rng.random() < .5), ws)
        elif r < .9: self.pq(ws)
        elif r < .95: self.pwr(ws)
        elif r < .97: self.ppr("w%d,%d" % (rng.randrange(99), rng.randrange(9)), ws)
        elif r < .98:
            self.pcl(ws)
            for w in ws: self.open[w] = 0

def settings(rng, n):
    lvl = rng.choice([None, 1, 1, 2, 3, 4, 5]); env = {}; cfg = {"lvl": 4, "from": -1, "to": -1, "pfx": 2}
    if lvl:
        o = rng.choice(["", "", "s", "n"]); f = rng.choice(["", "", "one", "range"]); t = ""
        a = rng.randint(0, n); b = rng.randint(a, n + 1)
        if f == "one": t = ":%d" % a; cfg.update({"from": a, "to": a})
        if f == "range": t = ":%d-%d" % (a, b); cfg.update({"from": a, "to": b})
        cfg["lvl"] = lvl; cfg["pfx"] = {"": 2, "s": 1, "n": 0}[o]
        env["LAIK_LOG"] = "%s%d%s" % (o, lvl, t)
    if rng.random() < .25: env["LAIK_LOG_FILE"] = "@"
    return env, cfg

def scenario(rng, k, backend=None):
    b = backend or rng.choice(["mpi", "mpi", "mpi", "tcp2", "single"])
    nmax = 1 if b == "single" else 4
    env, cfg = settings(rng, nmax)
    env["LAIK_BACKEND"] = b
    rate = rng.choice([.2, .5, .75]); big = rng.random() < .6
    class W(Watched): pass
    W.rate, W.big = rate, big
    def make(*a, **kw):
        s = W(*a, **kw); s.watch(rng); return s
    s = gen.walk(rng, "ob%d" % k, nmax=nmax, env=env, cls=make, modes=[0, 1, 2, 3, 16, 32], steps=(2, 6), nd=(1, 1, 2), acc=.7)
    if b == "tcp2": s.env["LAIK_SIZE"] = str(s.n); s.env["LAIK_TCP2_BIN"] = str(rng.randint(0, 1))
    s.extra["log"] = cfg
    s.meta["feats"] += [b, "log level %d" % cfg["lvl"]] + (["log file"] if "LAIK_LOG_FILE" in env else [])
    return s

def c_log(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] == "log" for w in s["who"] if s["obs"][w]["l"]]
    if not c: return False
    s, w = rng.choice(c); l = s["obs"][w]["l"]; x = rng.choice([x for x in l if x["w"]] or l); r = rng.randrange(4)
    if r == 0 or not x["w"]: l.append(dict(x))
    elif r == 1: x["w"][rng.randrange(len(x["w"]))] += "x"
    elif r == 2: x["h"] = "?"
    elif x["k"]: x["loc"] += 1
    else: l.remove(x)
    return True
def c_time(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] in ("pq", "itg") for w in s["who"]]
    if not c: return False
    s, w = rng.choice(c); s["obs"][w][rng.randrange(2)] += 1
    return True
def c_file(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] == "pfget" for w in s["who"] if s["obs"][w]]
    if not c: return False
    s, w = rng.choice(c); l = s["obs"][w]; k = rng.randrange(len(l))
    if rng.random() < .5: del l[k]
    else: l[k] = l[k] + ["1"]
    return True

def history(rng, id, hist):
    """a history of ObserveScripts, on all processes"""
    b = rng.choice(["mpi", "mpi", "tcp2", "single"]); n = 1 if b == "single" else 2
    s = Scn(id, n, seed=rng.randint(1, 10**6), mode=1, env={"LAIK_BACKEND": b}, backend="mpi", meta={"feats": [b]})
    if b == "tcp2": s.env["LAIK_SIZE"] = str(n)
    s.extra["log"] = {"lvl": 4, "from": -1, "to": -1, "pfx": 2}
    s.world(0); s.space(0, [0, rng.randint(4, 20)]); s.part(0, 0, 0, ("master",)); s.part(1, 0, 0, ("block", 0, 1, 0, 0))
    s.data(0, 0, "int32"); s.sw(0, 0, "init", "sum"); cur = nf = 0; s.kvs(0, "6b")
    for op, on in hist:
        if op == "work":
            if rng.random() < .7: cur = 1 - cur; s.sw(0, cur, "pres", "sum")
            else: s.kset(0, 0, "61", "%02x" % rng.randrange(1, 200)); s.ksync(0)
        elif op == "tick": s.tick(rng.choice([3, 5000, 2000000]))
        elif op == "its": s.its(rng.randint(1, 50))
        elif op == "pfile": s.pfile(nf); nf += 1
        elif op in ("pen", "pus"): getattr(s, op)(on)
        elif op == "ppr": s.ppr("t%d" % rng.randrange(99))
        else: getattr(s, op)()
        if rng.random() < .5: s.pq()
    s.pwr(); s.pq(); s.itg(); s.pcl()
    for k in range(nf): s.pfget(k)
    s.rd(0); s.fin()
    return s

def histories(c, quota, ops):
    wd = run.workdir("%s-%s-hist%d" % (c.pid, c.tier, ops)); cfg = os.path.join(wd, "ObserveScripts.cfg")
    open(cfg, "w").write("CONSTANTS\n  MaxOps = %d\nSPECIFICATION Spec\nINVARIANTS MeasuredIsSpent Bounded ClosedStays Complete %s\nCHECK_DEADLOCK FALSE\n" % (ops, "Emit" if quota else ""))
    rc, out = run.tlc("ObserveScripts.tla", cfg, wd, "h", workers=4, timeout=800, heap="6g")
    if rc != 0: raise Broken("ObserveScripts failed:\n" + out[-3000:])
    g, d = run.tlc_states(out); c.states += d; c.trans += g
    hs = sorted(set(re.findall(r'<<"HIST", "(.*)">>', out))); total = len(hs)
    # at least something is measured
    if len(hs) > quota: hs = c.rng.sample([h for h in hs if "work" in h and ("pen" in h or "pfile" in h)], quota)
    c.models.append({"model": "ObserveScripts", "config": "%d operations, up to 2 files" % ops, "distinct_states": d, "generated": g, "histories": total, "histories_replayed": len(hs)})
    return [history(c.rng, "h%d-%d" % (ops, k), json.loads(h.replace('\\"', '"'))) for k, h in enumerate(hs)]

def check(c):
    c.run(histories(c, c.n(300, 6000), 5), "hist", corrupt=[c_time, c_file])
    if c.tier == "thorough": histories(c, 0, 6)
    c.run([scenario(c.rng, k) for k in range(c.n(300, 5000))], "rand", corrupt=[c_log, c_time, c_file])
    c.assume += ["a profile file is closed before profiling is switched off and a new file opened", "lines of a message do not end with spaces"]

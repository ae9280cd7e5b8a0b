"""P17: agents reporting failures"""
import json, os, re
from .. import run
from ..ctx import Broken
from ..scn import Scn

TARGETS = ["sim-mpi", "agents"]

def name(rng, k):
    r = rng.random()
    t = "n%d" % k if r < .6 else "node-%d.example/%%s" % k if r < .8 else ("%d-" % k + "y" * 63)[:63] if r < .95 else "same"
    return t.encode().hex()

class Agents:
    """a process loading agents, with the libraries still free"""
    def __init__(self, rng, s, who):
        self.rng, self.s, self.who = rng, s, who
        self.nr = self.names = 0
        self.reset()
    def reset(self):
        self.ag = []                 # (number, kind, pending), at most 10
        self.free = list(range(12)) + list(range(100, 112)) + [12]
        self.rng.shuffle(self.free)
        self.ready = False
    def load(self, kind=None):
        if not self.free or self.nr >= 40: return
        lib = self.free.pop(); a = self.nr; self.nr += 1
        kind = "simple" if lib == 12 else kind or self.rng.choice(["ft", "ft", "ft", "flag", "def", "prof"])
        if len(self.ag) >= 10: self.free.append(lib)
        else: self.ag.append([a, kind, 0])
        self.ready = True
        self.s.agld(a, kind, lib, self.who)
    def report(self, most=40):
        c = [x for x in self.ag if x[1] != "simple" and x[2] < most]
        if not c: return
        x = self.rng.choice(c); n = self.rng.choice([1, 1, 2, 3, most])
        n = min(n, (32 if x[1] == "flag" else most) - x[2])
        if n < 1: return
        self.s.agrep(x[0], [name(self.rng, self.names + i) for i in range(n)], self.who); self.names += n; x[2] += n
    def total(self): return sum(x[2] for x in self.ag if x[1] in ("ft", "flag")) + sum(1 for x in self.ag if x[1] == "simple")
    def query(self, mx=None):
        t = self.total()
        few = any(x[1] == "flag" and x[2] > 1 for x in self.ag)
        if mx is None: mx = t + self.rng.choice([0, 0, 1, 20]) if few or self.rng.random() < .6 else self.rng.randint(0, t)
        self.s.agq(mx, self.who)
        # what is left if there is not enough room: not tracked further, delivered now
        if mx < t: self.s.agq(t + 5, self.who)
        for x in self.ag:
            if x[1] in ("ft", "flag"): x[2] = 0
    def iterate(self):
        for x in self.ag:
            if x[1] == "simple": self.s.agit(x[0], self.rng.choice([0, 3, 4, 5, 6, 9, -1]), self.who)
    def clean(self):
        if self.ready: self.s.agcl(self.who); self.reset()
    def init(self):
        if not self.ready: self.s.agini(self.who); self.ready = True

def scenario(rng, k):
    n = rng.choice([1, 1, 2, 3])
    s = Scn("ag%d" % k, n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": []})
    s.world(0); s.space(0, [0, 6], [0, 0, 0]); s.data(0, 0, "int32"); s.part(0, 0, 0, ("block", 0, 1, 0, 0)); s.part(1, 0, 0, ("all",))
    s.sw(0, 0, "none", "none"); s.wr(0, 5, 3)
    ps = [Agents(rng, s, [w]) for w in range(n)] if rng.random() < .6 else [Agents(rng, s, list(range(n)))]
    many = rng.random() < .3
    at = 0
    for _ in range(rng.randint(4, 26)):
        p = rng.choice(ps); r = rng.random()
        if many and len(p.ag) < 10 and r < .5: p.load()
        elif many and r < .1: p.load(); p.load()
        elif r < .25: p.load()
        elif r < .6: p.report()
        elif r < .8:
            p.init(); p.query()
        elif r < .86: p.iterate()
        elif r < .9: p.clean()
        elif r < .95: at = 1 - at; s.sw(0, at, "pres", "sum" if at == 0 else "none"); s.rd(0)
    for p in ps:
        if p.ready and rng.random() < .7: p.query()
        elif p.ready and rng.random() < .3: p.clean()
    if any(len(p.ag) == 10 for p in ps): s.meta["feats"].append("ten agents")
    s.rd(0); s.agfin()
    return s

def history(rng, id, h):
    """a history written out by TLC, with libraries and names chosen here"""
    s = Scn(id, 1, seed=1, mode=1, meta={"feats": ["history written out by TLC"]})
    s.world(0)
    p = Agents(rng, s, [0]); p.free = [x for x in p.free if x != 12]
    loads = 0
    for op, x, y in h:
        if op == "load": p.load(x)
        elif op == "report": s.agrep(int(x), [name(rng, p.names + i) for i in range(y)], [0]); p.names += y
        elif op == "ask": p.init(); s.agq(int(x), [0])
        else: p.clean()
    s.agfin()
    return s

def histories(c, quota, ops, kinds, rooms):
    wd = run.workdir("%s-%s-hist%d" % (c.pid, c.tier, ops)); cfg = os.path.join(wd, "AgentScripts.cfg")
    open(cfg, "w").write("CONSTANTS\n  MaxOps = %d\n  Kinds = {%s}\n  Rooms = {%s}\nSPECIFICATION Spec\nINVARIANTS OnceEach NoneInvented Emit\nCHECK_DEADLOCK FALSE\n" % (ops, ", ".join('"%s"' % k for k in kinds), ", ".join(map(str, rooms))))
    rc, out = run.tlc("AgentScripts.tla", cfg, wd, "h", workers=4, timeout=800, heap="4g")
    if rc != 0: raise Broken("AgentScripts failed:\n" + out[-3000:])
    g, d = run.tlc_states(out); c.states += d; c.trans += g
    hs = sorted(set(re.findall(r'<<"HIST", "(.*)">>', out))); total = len(hs)
    if len(hs) > quota: hs = c.rng.sample(hs, quota)
    c.models.append({"model": "AgentScripts", "config": "%d operations, up to 3 agents of kinds %s" % (ops, ", ".join(kinds)), "distinct_states": d, "generated": g, "histories": total, "histories_replayed": len(hs)})
    return [history(c.rng, "h%d%s-%d" % (ops, kinds[-1], k), json.loads(h.replace('\\"', '"'))) for k, h in enumerate(hs)]

def c_query(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] == "agq" for w in s["who"] if s["obs"][w]["r"]]
    if not c: return False
    s, w = rng.choice(c); o = s["obs"][w]; k = rng.randrange(len(o["r"]))
    if rng.random() < .5: o["r"][k] += "00"
    else: del o["r"][k]; o["n"] -= 1
    return True
def c_close(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] in ("agfin", "agcl") for w in s["who"]]
    s, w = rng.choice(c); s["obs"][w][rng.randrange(3)] += 1
    return True

def check(c):
    c.run([scenario(c.rng, k) for k in range(c.n(400, 6000))], "rand", corrupt=[c_query, c_close])
    c.run(histories(c, c.n(300, 6000), 5, ["ft", "flag"], [0, 1, 3]) + histories(c, c.n(300, 6000), 5, ["ft", "def"], [1, 9]), "hist", corrupt=[c_query, c_close])
    c.assume += ["agent functions behave as their interface says (as many failures as announced, or a flag)", "a library is loaded for one agent at a time: its functions do not know which agent is meant"]

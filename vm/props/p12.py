"""P12: changing worlds (TCP2 backend on simulated sockets)"""
import os, re, json
from .. import gen, run
from ..ctx import Broken
from ..scn import Scn

TYS = ["int32", "int64", "double", "uchar", "float"]

class World:
    """what the generator knows about the world: bounds for its size"""
    def __init__(self, n): self.mem = set(range(n)); self.next = n; self.sure = True
    def lb(self): return len(self.mem) if self.sure else 1

def kind_for(rng, w, sp):
    """-> kind, coverage (one/multi)"""
    k = rng.choice(["block", "block", "block", "blockw", "all", "master", "list", "list", "bisect"])
    if k == "all": return (rng.choice(["all", "all2"]),), "multi"
    if k == "master": return ("master",), "one"
    if k == "list":
        n = w.lb(); dims = len(sp) // 2
        if dims == 1: l, cov, _ = gen.rand_list1d(rng, n, sp, rng.choice(["one", "skew" if n > 1 else "one", "multi"]))
        else: l, cov, _ = gen.rand_listnd(rng, n, sp)
        return ("list",) + l, cov
    d = rng.randrange(len(sp) // 2)
    if k == "bisect": return ("bisect",), "one"
    return ("block", d, 1 if k == "block" else rng.choice([1, 2]), rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])), "one"

class Con:
    def __init__(self, d, ty, sp, s): self.d, self.ty, self.sp, self.s, self.p, self.kind, self.cov, self.wrote, self.ot = d, ty, sp, s, -1, None, "one", False, None

class Walk:
    def __init__(self, rng, id, thorough=False, rounds=None):
        self.rng = rng; self.rounds = rounds; n = self.n = rng.choice([1, 2, 2, 3, 3, 4] if not thorough else [1, 2, 3, 3, 4, 5, 6])
        self.s = Scn(id, n, seed=rng.randint(1, 10**6), mode=rng.choice([0, 1, 1, 2, 2, 3]) | rng.choice([0, 0, 16, 32]))
        s = self.s; s.dyn = True; s.backend = "tcp2"
        s.env = {"LAIK_BACKEND": "tcp2", "LAIK_SIZE": str(n), "LAIK_TCP2_BIN": rng.choice("01")}
        self.feats = set()
        self.left = rng.choice([0, 1, 2, 3, 4]) if n > 1 else rng.choice([1, 2, 3])
        if rounds: self.left = rounds // 3
        s.join = self.left
        self.w = World(n); self.g = 0; self.gn = 1; self.pn = 0; self.sn = 0; self.cons = []; self.kv = 0; self.kvd = set()
    def part(self, c, g, jn=False):
        """new partitioning for container c over group g"""
        rng, s = self.rng, self.s
        kind, cov = kind_for(rng, self.w, c.sp)
        p = self.pn; self.pn += 1
        s.part(p, c.s, g, kind)
        ot = None
        if (kind[0] == "bisect" or kind[0] == "block" and kind[2] == 1) and rng.random() < .3:
            q = self.pn; self.pn += 1
            ot = (p, kind); kind = ("chalo" if kind[0] == "block" else rng.choice(["halo", "chalo"]), rng.randint(1, 2)); cov = "multi"
            s.part(q, c.s, g, kind, ot=p); p = q
        return p, kind, cov, ot
    def switch(self, c, p, kind, cov, ot):
        rng, s = self.rng, self.s
        one = len(c.sp) == 2
        if c.p < 0 or rng.random() < .12: f, r = "none", "none"
        elif one and rng.random() < .08: f, r = "init", rng.choice(gen.reds_for(c.ty))
        elif c.cov == "multi" and one: f, r = "pres", rng.choice(gen.reds_for(c.ty))
        else: f, r = "pres", "none"
        if f == "none": c.wrote = False
        s.sw(c.d, p, f, r)
        if f == "init": c.wrote = True
        c.p, c.kind, c.cov, c.ot = p, kind, cov, ot
    def write(self, c):
        rng = self.rng
        self.s.wr(c.d, rng.choice([0, 6] if c.ty == "uchar" else [0, 5, 6]) if (c.cov == "one" or len(c.sp) == 2) else 1, rng.randint(0, 99)); c.wrote = True
    def activity(self, k):
        rng, s = self.rng, self.s
        for _ in range(k):
            x = rng.random()
            c = rng.choice(self.cons) if self.cons else None
            if c and x < .2: self.write(c)
            elif c and x < .4: s.rd(c.d)
            elif c and x < .55:
                self.switch(c, *self.part(c, self.g))
                s.rd(c.d)
            elif x < .75:
                if self.kv == 0 or (self.kv < 2 and rng.random() < .2):
                    s.kvs(self.kv, "st%d" % self.kv)
                    s.al()
                    self.kv += 1
                k0 = rng.randrange(self.kv)
                for _ in range(rng.randint(1, 3)):
                    key = "%02x" % rng.randint(0x61, 0x65)
                    own = self.keyown.setdefault((k0, key), rng.randrange(self.n + s.join))
                    if rng.random() < .75: s.kset(k0, own, key, "".join("%02x" % rng.randint(0, 255) for _ in range(rng.choice([1, 2, 5]))))
                    else: s.krem(k0, own, key)
                if self.sync and rng.random() < .8: self.ksync(k0)
            elif x < .85 and self.kv and self.sync: self.ksync(rng.randrange(self.kv))
            elif x < .92 and self.sync: s.locsync(); s.locget(self.g); self.feats.add("locations")
            else: s.wst()
    keyown = None
    def ksync(self, k):
        self.s.ksync(k); self.feats.add("store synchronised")
        for x in [x for x in self.keyown if x[0] == k]: del self.keyown[x]
    def cut(self, put):
        rng, w = self.rng, self.w
        every = range(self.n + self.s.join)
        sure = rng.random() < .75
        y = rng.random()
        if y < .5: l = [rng.choice(sorted(w.mem))]
        elif y < .85: l = rng.sample(every, rng.randint(1, len(every)))
        else: l = list(every)
        pat = "." if len(l) == len(every) and rng.random() < .8 else "^L(%s):" % "|".join(map(str, l)) if len(l) > 1 or rng.random() < .5 else "^L%d:" % l[0]
        if len(pat) > 39: pat, l = ".", list(every)
        put(l, pat, sure, close=rng.choice([0, 1, 1, 2]), **({"times": 130} if put == self.s.cutoff and rng.random() < .05 else {})); self.feats.add("removal" if sure else "removal at any time")
        if sure: self.gone |= set(l) & self.w.mem - {0}
        else: w.sure = False
    def text(self):
        return self.rng.choice(["status\n", "help\n", "quit\n", "status\nquit\n", "\n\n# hello\n", "cutoff\n", "cutoff [\n", "nonsense\n", "\x04", "quit\nstatus\n", "quit", "stat", "myid\n", "register\n"])
    def other(self, put):
        rng = self.rng; self.feats.add("other commands")
        if rng.random() < .3: put(rng.choice(["register foo\n", "register foo - 0\nregister bar\n", "register a b 5\nquit\n", "register foo\ncutoff ^nobody\n", "register foo" + "o" * 300 + "\nstatus\n"]), 1, 0) # gone when let in
        else: put(self.text(), rng.choice([0, 1, 2]), rng.choice([0, 0, 1]))
    def startup(self):
        """requests arriving while the world starts"""
        rng = self.rng
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            x = rng.random()
            if x < .35 and self.left > 0 and self.n > 1: self.s.more(); self.left -= 1; self.w.sure = False; self.feats.add("join at any time")
            elif x < .75: self.cut(self.s.ecutoff); self.feats.add("requests during startup")
            else: self.s.early(self.text(), rng.choice([0, 1, 2]), rng.choice([0, 1])); self.feats.add("requests during startup")
    def requests(self):
        rng, s, w = self.rng, self.s, self.w
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            x = rng.random()
            if x < .45 and self.left > 0:
                sure = rng.random() < .75
                s.spawn(sure); self.left -= 1; self.feats.add("join" if sure else "join at any time")
                if not sure: w.sure = False
                else: self.joins += 1
            elif x < .85: self.cut(s.cutoff)
            else: self.other(s.outside)
    def run(self):
        rng, s, w = self.rng, self.s, self.w
        self.keyown = {}; self.sync = True; self.joins = 0; self.gone = set()
        s.world(0); self.startup(); gone0 = self.gone
        for d in range(rng.choice([1, 1, 2])):
            dims = rng.choice([1, 1, 1, 2, 3]); sp = gen.rand_space(rng, dims)
            s.space(d, sp, gen.rand_org(rng)); s.al()
            c = Con(d, rng.choice(TYS), sp, d); self.cons.append(c)
            s.data(d, d, c.ty); s.al()
        for c in self.cons:
            if rng.random() < .9:
                self.switch(c, *self.part(c, 0))
                if rng.random() < .9: self.write(c)
        self.activity(rng.randint(0, 3))
        phases = [0, -1, -5, 2**31 - 1, -2**31] if rng.random() < .2 else []; rng.shuffle(phases)
        for r in range(self.rounds or rng.choice([1, 2, 2, 3, 4])):
            self.joins = 0; self.gone = gone0; gone0 = set()
            self.requests()
            self.activity(rng.choice([0, 0, 1]))
            g = self.gn; self.gn += 1
            s.rsz(g, self.g, phases.pop() if phases and rng.random() < .5 else None)
            old = self.g; self.g = g
            w.mem = (w.mem - self.gone) | set(range(w.next, w.next + self.joins)); w.next += self.joins
            for c in self.cons:
                if c.p >= 0:
                    if c.ot: s.jpart(c.ot[0], c.s, old, c.ot[1])
                    s.jpart(c.p, c.s, old, c.kind, ot=c.ot[0] if c.ot else -1)
                    s.jinitp(c.d, c.p)
                    self.switch(c, *self.part(c, g))
                    if rng.random() < .5: s.rd(c.d)
            if rng.random() < .2: self.sync = False; self.activity(1); self.sync = True
            early = rng.random() < .3
            if early: s.frz()
            s.lv(g)
            if rng.random() < .4 and not early: self.activity(rng.randint(1, 2))
            if rng.random() < .4: s.frz()
            for c in self.cons:
                if c.p >= 0: s.rd(c.d)
            self.activity(rng.randint(0, 4))
        s.fin()
        s.meta["feats"] = sorted(self.feats) or ["no requests"]
        return s

def scripts(c, quota, n, joins, per, rounds):
    """all short histories of requests, written out by TLC"""
    wd = run.workdir("%s-%s-hist%d%d%d" % (c.pid, c.tier, n, joins, rounds)); cfg = os.path.join(wd, "ResizeScripts.cfg")
    open(cfg, "w").write("CONSTANTS\n  N = %d\n  MaxJoin = %d\n  PerRound = %d\n  Rounds = %d\nSPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % (n, joins, per, rounds))
    rc, out = run.tlc("ResizeScripts.tla", cfg, wd, "h", workers=2, timeout=800, heap="4g")
    if rc != 0: raise Broken("ResizeScripts failed:\n" + out[-3000:])
    g, d = run.tlc_states(out); c.states += d; c.trans += g
    hs = sorted(set(re.findall(r'<<"HIST", "(.*)">>', out))); total = len(hs)
    if len(hs) > quota: hs = c.rng.sample(hs, quota)
    c.models.append({"model": "ResizeScripts", "config": "%d processes, %d joins, %d requests before each of %d resizes" % (n, joins, per, rounds), "distinct_states": d, "generated": g, "histories": total, "histories_replayed": len(hs)})
    return [script(c.rng, "s%d%d%d-%d" % (n, joins, rounds, k), n, joins, json.loads(h.replace('\\"', '"'))) for k, h in enumerate(hs)]

def script(rng, id, n, joins, h):
    s = Scn(id, n, seed=rng.randint(1, 10**6), mode=rng.choice([0, 1, 2, 2, 3]) | rng.choice([0, 0, 16, 32]), meta={"feats": ["history written out by TLC"]})
    s.dyn = True; s.backend = "tcp2"; s.join = joins
    s.env = {"LAIK_BACKEND": "tcp2", "LAIK_SIZE": str(n), "LAIK_TCP2_BIN": rng.choice("01")}
    s.world(0); s.space(0, [0, 8], [0, 0, 0]); s.al(); s.data(0, 0, "int32"); s.al()
    s.part(0, 0, 0, ("block", 0, 1, 0, 0)); s.sw(0, 0, "none", "none"); s.wr(0, 5, 3)
    g = 0; p = 0
    for op, sure, m in h:
        if op == "join": s.spawn(sure)
        elif op == "cut": s.cutoff(m, "." if len(m) > 1 else "^L%d:" % m[0], sure, close=rng.choice([0, 1, 2]))
        else:
            s.rsz(g + 1, g); s.jpart(p, 0, g, ("block", 0, 1, 0, 0)); s.jinitp(0, p); g += 1; p += 1
            s.part(p, 0, g, ("block", 0, 1, 0, 0)); s.sw(0, p, "pres", "none"); s.lv(g); s.rd(0); s.locsync(); s.locget(g)
    s.fin(); return s

def check(c):
    rng = c.rng
    c.model("MCResize")
    if not c.quick:
        for f in ("MCResizeThorough.cfg", "MCResizeJoins.cfg", "MCResizeRounds.cfg"): c.model("MCResize", f, workers=4, timeout=3000, heap="8g")
    c.run(scripts(c, 500 if c.quick else 10**6, 2, 1, 2, 2), "histories")
    if not c.quick: c.run(scripts(c, 6000, 3, 2, 2, 2), "histories of 3"); c.run(scripts(c, 6000, 2, 2, 1, 3), "histories of 3 resizes")
    sc = [Walk(rng, "w%d" % k, not c.quick).run() for k in range(c.n(100, 6000))]
    c.run(sc, "walk")
    c.run([Walk(rng, "l%d" % k, rounds=rng.choice([10, 20, 30])).run() for k in range(4 if c.quick else 60)], "many resizes")
    c.assume += ["messages on one connection are delivered in order and not lost; connections of active processes do not break"]

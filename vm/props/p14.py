"""P14: memory of containers"""
from .. import gen
from ..scn import ES

def hook(rng, s, d, cur, ty, lay):
    s.mm()
    if cur[d] is not None: s.lo(d, ty[d], lay[d])
def pre(p):
    def f(rng, s, d, cur, ty, sp):
        if rng.random() < p:
            n = 1
            for k in range(0, len(sp), 2): n *= sp[k+1] - sp[k]
            if rng.random() < .15: s.prov(d, -1)
            else: s.prov(d, (n + rng.choice([0, 0, 0, 1, 5])) * ES[ty[d]]); s.meta["feats"].append("provided")
    return f
def post(rng, s, cur, ty, resv, held):
    """everything is returned in the end"""
    s.mm()
    for d in range(len(cur)):
        if resv[d] is not None and cur[d] is not None and cur[d].p in held[resv[d]]:
            s.sw(d, -1, "none", "none"); cur[d] = None; s.mm()
        if resv[d] is not None: s.fres(resv[d]); s.mm()
        if cur[d] is not None and rng.random() < .3: s.sw(d, -1, "none", "none"); cur[d] = None; s.mm()
        if rng.random() < .6:
            s.fd(d); s.mm(); s.meta["feats"].append("freed" if cur[d] is None else "freedactive")
            for e in range(d + 1, len(cur)):
                if cur[e] is not None: s.rd(e)

def c_mem(rec, rng):
    c = [o for s in rec["steps"] if s["op"] == "mm" for o in s["obs"] if o["mp"]]
    if not c: return False
    o = rng.choice(c)
    if rng.random() < .3: o["al"].append({"i": 9999, "d": o["mp"][0]["d"], "k": 0, "n": 4})
    elif rng.random() < .5: del o["mp"][rng.randrange(len(o["mp"]))]
    else: rng.choice(o["mp"])["at"][0] = 9999
    return True
def c_place(rec, rng):
    c = [x for s in rec["steps"] if s["op"] == "lo" for o in s["obs"] for x in o]
    if not c: return False
    rng.choice(rng.choice(c)["el"])[1][1] += 8
    return True

def check(c):
    kw = dict(acc=1, nmax=4, hook=hook, frees=.05, post=post, none=.15)
    sc = [gen.walk(c.rng, "a%d" % k, res=.2, groups=.2, steps=(4, 9), **kw) for k in range(c.n(180, 2000))]
    sc += [gen.walk(c.rng, "r%d" % k, res=.6, tagged=.9, groups=.1, parts=(3, 5), steps=(5, 10), **kw) for k in range(c.n(180, 2000))]
    sc += [gen.walk(c.rng, "p%d" % k, res=.1, pre=pre(.4), groups=.15, steps=(4, 9), nd=(1, 2), **kw) for k in range(c.n(180, 2000))]
    sc += [gen.walk(c.rng, "l%d" % k, res=.3, pre=pre(.2), dims=(2, 3), lay=.5, tagged=.7, groups=.1, steps=(3, 7), nd=(1, 2), **kw) for k in range(c.n(100, 1000))]
    c.run(sc, "memory", corrupt=[c_mem, c_place, c.CORRUPT[0]], ncorrupt=10)

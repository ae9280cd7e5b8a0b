"""P16: statistics of switches"""
from .. import gen
from ..scn import ES, Scn
from . import p08

def hook(rng, s, d, cur, ty, lay):
    s.mm(); s.sst(d)
def wrapdata(s, nd): pass
def post(rng, s, cur, ty, resv, held):
    for d in range(len(cur)):
        if resv[d] is not None and cur[d] is not None and cur[d].p in held[resv[d]]:
            s.sw(d, -1, "none", "none"); cur[d] = None; s.mm(); s.sst(d)
        if resv[d] is not None: s.fres(resv[d]); s.mm(); s.sst(d)
    if len(cur) > 1: s.ssa(rng.sample(range(len(cur)), rng.randint(1, len(cur))))
    else: s.ssa([0])
def pre(rng, s, d, cur, ty, sp):
    if not any(x["op"] == "cnt" for x in s.steps):
        s.raw("cnt", "cnt")
        for e in range(len(cur)): s.mm(); s.sst(e)
    else: s.sst(d)

def c_stat(rec, rng):
    c = [o for s in rec["steps"] if s["op"] == "sst" for o in s["obs"]]
    if not c: return False
    o = rng.choice(c); x = rng.random()
    if x < .5: o["st"][rng.choice([0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23])] += 4
    else: o["re"][rng.randrange(16)] += 4
    return True

ENVS = [{}, {"LAIK_MPI_ASYNC": "0"}, {"LAIK_MPI_REDUCE": "0"}, {"LAIK_MPI_REDUCE": "0", "LAIK_MPI_ASYNC": "0"}]
def check(c):
    c.tcp = .2
    kw = dict(acc=1, nmax=4, hook=hook, frees=0, post=post, pre=pre, none=.1, fin=True)
    sc = []
    for e, env in enumerate(ENVS):
        sc += [gen.walk(c.rng, "a%d-%d" % (e, k), env=env, res=.2, groups=.15, steps=(4, 8), xt=.3, **kw) for k in range(c.n(100, 1000))]
        sc += [gen.walk(c.rng, "b%d-%d" % (e, k), env=env, res=0, groups=0, dims=(1,), steps=(4, 8), xt=.5, **kw) for k in range(c.n(60, 600))]
    c.run(sc, "stat", corrupt=[c_stat], ncorrupt=10)

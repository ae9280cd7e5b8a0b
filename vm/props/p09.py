"""P09: memory layouts"""
from .. import gen
from ..scn import ES

def part(rng):
    """own range number and, per dimension, position and length (99: all of it)"""
    k = rng.randint(0, 5)
    return [k] + [99 if rng.random() < .35 else rng.randint(0, 20) for _ in range(6)]
def chunks(rng, es):
    c = [rng.choice([es, 2 * es, 3 * es, es * 5, es * 7, es + 1, 3 * es - 1, 4 * es, 1000, es - 1 or es]) for _ in range(rng.randint(1, 4))]
    if max(c) < es: c.append(2 * es)
    return c
def hook(rng, s, d, cur, ty, lay):
    if cur[d] is None: return
    s.lo(d, ty[d], lay[d])
    es = ES[ty[d]]
    s.wr(d, 0, rng.randint(0, 99))
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < .4: s.pk(d, ty[d], part(rng), chunks(rng, es))
        elif x < .7: s.pk(d, ty[d], part(rng), chunks(rng, es), un=True, seed=rng.randint(0, 99)); s.rd(d)
        else:
            o = [e for e in range(len(cur)) if cur[e] is not None and e != d and ES[ty[e]] == es and ty[e] == ty[d]]
            if o: e = rng.choice(o); s.lcp(d, e, part(rng)); s.rd(e); s.rd(d); s.meta["feats"].append("copy%d%d" % (lay[d], lay[e]))

def c_layout(rec, rng):
    c = [(s, o) for s in rec["steps"] if s["op"] == "lo" for o in s["obs"] if o]
    if not c: return False
    s, o = rng.choice(c); x = rng.choice(o)
    if rng.random() < .5: rng.choice(x["el"])[1][1] += s["es"]
    else: x["st"][-1] += 1; x["all"][1] += 1
    return True
def c_pack(rec, rng):
    c = [o for s in rec["steps"] if s["op"] == "pk" for o in s["obs"] if o["c"] and o["c"][0][3]]
    if not c: return False
    o = rng.choice(c); x = o["c"][0]
    if rng.random() < .5: x[1] += 1
    else: x[3][0] += 1
    return True

def check(c):
    kw = dict(acc=1, nmax=3, hook=hook, frees=.05, groups=.05, steps=(2, 5), aseq=0)
    sc = []
    for g in (0, 1):
        env = {"LAIK_LAYOUT_GENERIC": "1"} if g else {}
        sc += [gen.walk(c.rng, "a%d-%d" % (g, k), env=env, dims=(1, 2, 2, 3, 3), lay=.3, nd=(1, 2), samety=.7, **kw) for k in range(c.n(160, 1600))]
        sc += [gen.walk(c.rng, "b%d-%d" % (g, k), env=env, dims=(2, 3), lay=.5, nd=(2, 3), samety=1, tagged=.8, res=.5, **kw) for k in range(c.n(80, 800))]
        sc += [gen.walk(c.rng, "c%d-%d" % (g, k), env=env, dims=(1,), nd=(1, 2), samety=1, tagged=.9, res=.4, **kw) for k in range(c.n(60, 600))]
    c.run(sc, "layout", corrupt=[c_layout, c_pack], ncorrupt=10)

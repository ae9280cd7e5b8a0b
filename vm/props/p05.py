"""P05: values through switches"""
from .. import gen

def check(c):
    c.tcp = .2
    scns = [gen.walk(c.rng, "a%d" % k, nmax=4 if c.quick else 6, groups=.1, res=.12, steps=(3, 7) if c.quick else (3, 12), tagged=.2) for k in range(c.n(400, 4000))]
    scns += [gen.walk(c.rng, "b%d" % k, nmin=2, groups=.9, res=.1, swn=.2, parts=(3, 5), steps=(4, 9)) for k in range(c.n(200, 2000))]
    scns += [gen.walk(c.rng, "c%d" % k, res=.5, tagged=.8, nmax=3, parts=(3, 5), steps=(5, 10), nd=(1, 2)) for k in range(c.n(250, 2500))]
    scns += [gen.walk(c.rng, "d%d" % k, dims=(2, 2, 3), nmax=3, nd=(1,), parts=(3, 4), steps=(5, 9), tagged=.5) for k in range(c.n(150, 1500))]
    c.run(scns, "rand")

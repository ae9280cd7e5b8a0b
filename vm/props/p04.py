"""P04: transitions"""
from .. import gen
from ..scn import Scn

def scenario(rng, k, big):
    n = rng.choice([1, 2, 3, 4, 3, 4, 5, 6])
    dims = rng.choice([1, 1, 1, 1, 2, 3]); sp = gen.rand_space(rng, dims)
    s = Scn("t%d" % k, n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": ["%dd" % dims]})
    s.world(0); s.space(0, sp, gen.rand_org(rng))
    parts = []
    for p in range(rng.randint(2, 4)):
        kd, cov, tg = gen.rand_kind(rng, n, sp)
        if dims == 1 and n > 3 and rng.random() < .5:   # nearly everybody
            l, cov, _ = gen.rand_list1d(rng, n, sp, "crowd"); kd = ("list",) + l
        s.part(p, 0, 0, kd); parts.append((p, kd, cov))
    t = 0
    for _ in range(rng.randint(3, 8)):
        a, b = rng.choice(parts), rng.choice(parts)
        f = rng.choice(["pres"] * 4 + ["init", "none"])
        r = "none"
        if f == "init":
            if dims > 1: continue
            r = rng.choice(gen.REDS)
        elif f == "pres":
            if dims == 1:
                if a[2] != "one" or rng.random() < .4: r = rng.choice(gen.REDS)
            elif a[1][0] in ("all", "all2") and b[1][0] in ("all", "all2", "master", "master2"): r = rng.choice(["none"] + gen.REDS)
        fr = -1 if f != "pres" and rng.random() < .2 else a[0]
        s.tr(t, 0, fr, b[0], f, r); t += 1
        s.meta["feats"].append(f + "-" + ("red" if r != "none" and f == "pres" else "plain"))
    s.fin()
    return s

def check(c):
    scns = [scenario(c.rng, k, not c.quick) for k in range(c.n(700, 6000))]
    c.run(scns, "rand")

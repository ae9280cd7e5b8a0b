"""P03: ranges and spaces as sets of indexes"""
from .. import gen
from ..scn import Scn

SC1 = [1, 1, 1, 1 << 20, 1 << 31, 1 << 33, 1 << 40]
def scale_for(rng, dims):
    return rng.choice(SC1 if dims == 1 else [1, 1, 1 << 20, 1 << 28] if dims == 2 else [1, 1, 1 << 18])

def rrange(rng, sp, out=2):
    """a range near the space: inside, across its border, empty, turned around"""
    r = []
    for d in range(len(sp) // 2):
        f, t = sp[2*d], sp[2*d+1]
        x = rng.random()
        if x < .15: a, b = f, t
        else:
            a, b = rng.randint(f - out, t + out), rng.randint(f - out, t + out)
            if x < .5: a, b = max(f, min(a, t)), max(f, min(b, t))
            if a > b and rng.random() < .9: a, b = b, a
            if a == b and rng.random() < .6: b += 1
        r += [a, b]
    return r
def related(rng, r, sp):
    x = rng.random()
    if x < .15: return list(r)
    if x < .6:
        q = list(r); k = rng.randrange(len(q)); q[k] += rng.choice([-2, -1, 1, 2]); return q
    return rrange(rng, sp)

def rscen(rng, k):
    dims = rng.choice([1, 2, 3]); s = Scn("rng%d" % k, 1, seed=1, mode=1, meta={"feats": ["ranges", "%dd" % dims]})
    s.world(0)
    sc = scale_for(rng, dims)
    if sc != 1: s.raw("scale", "scale %d" % sc, k=sc); s.meta["feats"].append("scaled")
    sp = gen.rand_space(rng, dims); org = gen.rand_org(rng, .5)
    s.space(0, sp, org)
    for _ in range(rng.randint(1, 3)):
        prs = []
        for _ in range(12):
            a = rrange(rng, sp); prs.append((a, related(rng, a, sp)))
        s.rng(0, prs)
        if rng.random() < .7:
            sp = gen.rand_space(rng, dims)
            if rng.random() < .15: d = rng.randrange(dims); sp[2*d+1] = sp[2*d]
            s.chs(0, sp)
    s.fin()
    return s

def full(rng, sp, n):
    """nearly all / single / covering lists, 1 defect or none"""
    dims = len(sp) // 2
    style = rng.choice(["all", "all", "single", "cover", "cover", "holes"])
    if style == "all":
        raw = [(q, rng.choice([0, 0, 1]), list(sp)) for q in range(n)]
        x = rng.random()
        if x < .2 and n > 1: raw[rng.randrange(n)] = (rng.randrange(n), 0, list(sp))
        elif x < .5:
            k = rng.randrange(n); r = list(sp); j = rng.randrange(len(r)); r[j] += 1 if j % 2 == 0 else -1
            if r[j - j % 2] < r[j - j % 2 + 1]: raw[k] = (raw[k][0], 0, r)
        elif x < .6: raw.append((rng.randrange(n), 0, list(sp)))
        elif x < .7: raw.pop()
    elif style == "single":
        raw = [(rng.randrange(n), 0, list(sp))]
        x = rng.random()
        if x < .2: raw.append((rng.randrange(n), 0, list(sp)))
        elif x < .4:
            r = list(sp); j = rng.randrange(len(r)); r[j] += 1 if j % 2 == 0 else -1
            if r[j - j % 2] < r[j - j % 2 + 1]: raw = [(raw[0][0], 0, r)]
    else:
        if dims == 1:
            l, _, _ = gen.rand_list1d(rng, n, sp, "one" if style == "cover" else "gaps"); raw = l[1]
        else: raw = gen.rand_listnd(rng, n, sp, rng.choice(["one", "multi"]))[0][1]
        raw = [list(e) for e in raw]
        if style == "holes" and dims > 1 or rng.random() < .25:
            k = rng.randrange(len(raw)); r = list(raw[k][2]); j = rng.randrange(len(r)); r[j] += 1 if j % 2 == 0 else -1
            if r[j - j % 2] < r[j - j % 2 + 1]: raw[k][2] = r
            elif len(raw) > 1: raw.pop(k)
        raw = [tuple(e) for e in raw]
    rng.shuffle(raw)
    return raw or [(0, 0, list(sp))]

def lscen(rng, k):
    dims = rng.choice([1, 1, 2, 3]); n = rng.randint(1, 4)
    s = Scn("list%d" % k, n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": ["lists", "%dd" % dims]})
    s.world(0)
    sc = scale_for(rng, dims)
    if sc != 1: s.raw("scale", "scale %d" % sc, k=sc); s.meta["feats"].append("scaled")
    sp = gen.rand_space(rng, dims); s.space(0, sp, gen.rand_org(rng))
    raws = []
    for p in range(rng.randint(2, 5)):
        if raws and rng.random() < .55:
            raw = [list(e) for e in rng.choice(raws)]
            x = rng.random()
            if x < .25: k2 = rng.randrange(len(raw)); raw[k2][0] = rng.randrange(n)
            elif x < .5:
                k2 = rng.randrange(len(raw)); r = list(raw[k2][2]); j = rng.randrange(len(r)); r[j] += 1 if j % 2 == 0 else -1
                if r[j - j % 2] < r[j - j % 2 + 1]: raw[k2][2] = r
            elif x < .6: k2 = rng.randrange(len(raw)); raw[k2][1] = 1 - min(1, raw[k2][1])
            elif x < .7 and len(raw) > 1: raw.pop()
            raw = [tuple(e) for e in raw]; rng.shuffle(raw)
        else: raw = full(rng, sp, n)
        raws.append(raw)
        s.part(p, 0, 0, ("list", 4, raw))
        if p: s.peq(rng.randrange(p), p); s.peq(p, rng.randrange(p))
    s.fin()
    return s

def crumbs(rng, k):
    """many uncovered parts: every second index of a 2d space covered"""
    a, b = rng.randint(8, 16), rng.randint(8, 16); n = 2
    s = Scn("crumbs%d" % k, n, seed=1, mode=1, meta={"feats": ["crumbs"]})
    s.world(0); s.space(0, [0, a, 0, b])
    pts = [(x, y) for x in range(a) for y in range(b)]
    rng.shuffle(pts); pts.sort(key=lambda p: (p[0] + p[1]) % 2 if k % 2 else 0)
    if k % 4 >= 2: pts.pop(rng.randrange(len(pts)))
    s.part(0, 0, 0, ("list", 4, [(rng.randrange(n), 1, [x, x + 1, y, y + 1]) for x, y in pts]))
    s.fin()
    return s

def check(c):
    scns = [rscen(c.rng, k) for k in range(c.n(500, 6000))] + [lscen(c.rng, k) for k in range(c.n(400, 5000))] + [crumbs(c.rng, k) for k in range(c.n(6, 40))]
    c.run(scns, "rand", corrupt=[c_rng] + c.CORRUPT)
    c.assume += ["laik_range_size is asked only for ranges with from <= to in each dimension (asserted by the library)"]

def c_rng(rec, rng):
    x = [e for s in rec["steps"] if s["op"] == "rng" for o in s["obs"] for e in o]
    if not x: return False
    e = rng.choice(x); f = rng.choice(["e", "w", "q"]); k = rng.randrange(len(e[f])); e[f][k] = 1 - e[f][k]
    return True

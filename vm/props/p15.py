"""P15: location names and published spaces"""
from .. import gen
from ..scn import Scn

def hexs(s): return s.encode("latin1").hex()
NAMES = [hexs(x) for x in ["a", "ab", "abc", "1d-space", "space-0", "space-1", "space-2", "a b", "%d%s", "x" * 60, "\xe9t\xe9", "1(0/5)", "-"]]
ORGS = [(0, 0, 0)] * 3 + [(1 << 40, -(1 << 40), 7), (-5000000000, 5000000000, -5000000000), (-9000000000000000000, -8999999999999999000, -9000000000000000000), (9000000000000000000,) * 3]

def moved(rng, r):
    r = list(r)
    for _ in range(rng.choice([0, 1, 1, 2])):
        d = rng.randrange(len(r) // 2)
        if rng.random() < .5: r[2*d] -= rng.randint(0, 3)
        else: r[2*d+1] += rng.randint(0, 3)
        if rng.random() < .3 and r[2*d+1] - r[2*d] > 1: r[2*d] += 1
    return r

def scenario(rng, k):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    s = Scn("st%d" % k, n, seed=rng.randint(1, 10**6), mode=rng.choice([0, 1, 1, 2]), meta={"feats": ["%d processes" % n]})
    s.world(0); ng = 1
    W = list(range(n))
    for _ in range(rng.choice([0, 0, 1, 2])):
        if n > 1 and rng.random() < .7: s.shrink(ng, 0, sorted(rng.sample(W, rng.randint(1, n - 1))))
        else: s.clone(ng, 0)
        ng += 1
    names = rng.sample(NAMES, rng.randint(1, 4))
    org = {x: rng.choice(ORGS) for x in names}
    handle = {}                  # name -> number
    cur = {x: [None] * n for x in names}
    has = {x: set() for x in names}
    own = [0, 0]                 # counters for partitionings and containers
    synced = False
    if rng.random() < .3: s.locget(rng.randrange(ng))
    for rnd in range(rng.randint(1, 4)):
        changer = {}
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            x = rng.choice(names); r = rng.random()
            if x not in handle:
                h = handle[x] = len(handle)
                who = rng.choice([W, [rng.randrange(n)], sorted(rng.sample(W, rng.randint(1, n)))])
                b = gen.rand_space(rng, rng.choice([1, 2, 3]))
                s.space(h, b, org[x], who)
                if rng.random() < .3: b = moved(rng, b); s.chs(h, b, who)
                if rng.random() < .3: s.spq(h, who)
                s.spset(h, x, who)
                for w in who: cur[x][w] = b; has[x].add(w)
                changer[x] = set(who)
                if rng.random() < .3: s.spget(h, x, org[x], who)
                elif rng.random() < .3 and len(who) < n: s.spget(90, x, org[x], [rng.choice([w for w in W if w not in who])])
                continue
            h = handle[x]; p = sorted(has[x])
            if r < .55:
                if x in changer: who = sorted(changer[x])
                else: who = rng.choice([p, [rng.choice(p)], sorted(rng.sample(p, rng.randint(1, len(p))))])
                # processes changing the same space agree on the result
                if len({tuple(cur[x][w]) for w in who}) > 1: continue
                if x not in changer: changer[x] = set(who)
                b = moved(rng, cur[x][who[0]])
                if rng.random() < .2 and rnd: b = cur[x][next((w for w in p if w not in who), p[0])]
                s.chs(h, b, who)
                for w in who: cur[x][w] = list(b)
            elif r < .8: s.spq(h, [rng.choice(p)])
            else:
                w = rng.choice(p); s.spget(h, x, org[x], [w])
        if rng.random() < .4: s.locsync(); synced = True
        if rng.random() < .4: s.locget(rng.randrange(ng), sorted(rng.sample(W, rng.randint(1, n))))
        s.spsync()
        for x in handle:
            v = cur[x][sorted(changer[x])[0]] if x in changer else cur[x][sorted(has[x])[0]]
            cur[x] = [list(v) for _ in W]
        for x in names:
            who = rng.choice([W, W, sorted(rng.sample(W, rng.randint(1, n)))])
            if x not in handle:
                if rng.random() < .3: s.spget(95, x, org[x], who)
                continue
            s.spget(handle[x], x, org[x], who); has[x] |= set(who)
            if rng.random() < .5: s.spq(handle[x], sorted(has[x]))
            if has[x] == set(W) and rng.random() < .6: use(s, rng, n, handle[x], cur[x][0], own)
        if rng.random() < .2: s.spsync()
    if rng.random() < .7: s.locsync(); s.locget(rng.randrange(ng)); s.locget(0)
    s.fin()
    return s

def use(s, rng, n, h, b, own):
    """work with a published space like with any other"""
    d = len(b) // 2
    kinds = [("all",), ("master",), ("block1",) if d == 1 else ("bisect",), ("bisect",)]
    ps = []
    # everybody owning everything only at the end
    for kd in sorted(rng.sample(kinds, 2), key=lambda x: x == ("all",)): p = own[0]; own[0] += 1; s.part(p, h, 0, kd); ps.append(p)
    if rng.random() < .4:
        p = own[0]; own[0] += 1
        f, _, _ = gen.rand_list1d(rng, n, b, "one") if d == 1 else gen.rand_listnd(rng, n, b, "one")
        s.part(p, h, 0, ("list",) + tuple(f)); ps.insert(0, p)
    c = own[1]; own[1] += 1
    s.data(c, h, rng.choice(["int32", "double", "char"])); s.sw(c, ps[0], "none", "none"); s.wr(c, 1, rng.randint(1, 99))
    for p in ps[1:]: s.sw(c, p, "pres", "none"); s.rd(c)
    s.rng(h, [(b, b), (b, [x + 1 for x in b])])
    if rng.random() < .3: s.tr(own[0], h, ps[0], ps[1], "pres", "none")

def many(rng, k, n):
    s = Scn("many%d" % k, n, seed=k + 1, mode=1, meta={"feats": ["many spaces"]})
    s.world(0); cnt = 40
    rs = [gen.rand_space(rng, rng.choice([1, 2, 3])) for _ in range(cnt)]
    for i in range(cnt): s.space(i, rs[i], who=[i % n]); s.spset(i, hexs("s%d" % (i * 7 % cnt)), [i % n])
    s.spsync()
    for i in range(cnt): s.spget(i, hexs("s%d" % (i * 7 % cnt)))
    for i in rng.sample(range(cnt), 10): rs[i] = moved(rng, rs[i]); s.chs(i, rs[i], [rng.randrange(n)])
    s.spsync()
    for i in range(cnt): s.spq(i)
    s.locsync(); s.locget(0); s.fin()
    return s

def c_view(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] in ("spget", "spq") for w in s["who"] if s["obs"][w]]
    if not c: return False
    s, w = rng.choice(c)
    if rng.random() < .3 and s["op"] == "spget": s["obs"][w] = []
    else: s["obs"][w][2][rng.randrange(len(s["obs"][w][2]))] += 1
    return True
def c_loc(rec, rng):
    c = [(s, w) for s in rec["steps"] if s["op"] == "locget" for w in s["who"]]
    if not c: return False
    s, w = rng.choice(c); o = s["obs"][w]; k = rng.randrange(len(o)); o[k] = "-" if o[k] != "-" else "x"
    return True

def check(c):
    c.run([scenario(c.rng, k) for k in range(c.n(500, 5000))], "rand", corrupt=[c_view, c_loc])
    c.run([many(c.rng, k, 1 + k % 4) for k in range(c.n(4, 16))], "many", corrupt=[c_view, c_loc])
    c.assume += ["processes changing the same published space between two synchronisations agree on its borders", "a name is published with one space object per process"]

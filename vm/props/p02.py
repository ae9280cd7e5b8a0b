"""P02: what partitionings store and answer"""
from .. import gen
from ..scn import Scn

def raw1d(rng, n, sp, flags):
    """ranges for a list partitioner with flags"""
    if flags & 16:
        idx = list(range(sp[0], sp[1])); rng.shuffle(idx)
        raw = []
        for i in idx:
            for q in rng.sample(range(n), rng.choice([0, 1, 1, 1, n])): raw.append((q, 0, [i, i + 1]))
        if rng.random() < .3 and raw: raw.append(rng.choice(raw)); 
        return raw
    l, cov, own = gen.rand_list1d(rng, n, sp, rng.choice(["one", "multi", "gaps", "blocks", "skew"]), tags=rng.choice([0, 1, 2]))
    raw = l[1]
    if flags & 8:
        # overlapping and touching ranges
        raw = list(raw)
        for t, g, r in list(raw):
            if rng.random() < .4:
                a = rng.randint(r[0], r[1] - 1); b = rng.randint(a + 1, min(sp[1], r[1] + 2)); raw.append((t, g, [a, b]))
        rng.shuffle(raw)
    return raw

def scenario(rng, k, big):
    dims = rng.choice([1, 1, 1, 2, 3]); n = rng.randint(1, 6 if big else 5); feats = ["%dd" % dims]
    s = Scn("p%d" % k, n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": feats})
    s.world(0)
    scaled = rng.random() < .15
    if scaled: s.raw("scale", "scale %d" % (1 << (rng.choice([20, 31, 33]) if dims == 1 else 18)), k=2); feats.append("scaled")
    sp = gen.rand_space(rng, dims, 25 if dims == 1 and rng.random() < .3 else None); s.space(0, sp, gen.rand_org(rng))
    mem = {0: list(range(n))}
    if n > 1 and rng.random() < .6:
        for g in range(1, rng.choice([2, 3])):
            out = sorted(rng.sample(range(n), rng.randint(1, n - 1))); s.shrink(g, 0, out)
            mem[g] = [x for x in range(n) if x not in out]
    parts = {}  # p -> (group, raw, mode)
    p = 0
    def newp(g, raw, flags, mode="full", kind=None):
        nonlocal p
        st = s.part(p, 0, g, kind or ("list", flags, raw), mode=mode)
        parts[p] = [g, raw, mode]; p += 1
        return p - 1, st
    for _ in range(rng.randint(1, 4)):
        g = rng.choice(list(mem)); m = len(mem[g]); flags = 0
        if dims == 1:
            flags = rng.choice([0, 0, 8, 16]) if not scaled else rng.choice([0, 8])
            raw = raw1d(rng, m, sp, flags)
        else: raw = gen.rand_listnd(rng, m, sp, rng.choice(["one", "multi"]), tags=rng.choice([0, 1, None]))[0][1]
        if not raw: raw = [(0, 0, [x for d in range(dims) for x in (sp[2*d], sp[2*d] + 1)])]
        if dims > 1 and rng.random() < .5: raw = [(t, rng.randint(0, 2), r) for t, _, r in raw]
        feats.append("flags%d" % flags)
        a, _ = newp(g, raw, flags | 4)
        tids = list(range(m)) * 2; rng.shuffle(tids); s.tq(a, tids[:rng.randint(1, len(tids))])
        if rng.random() < .5:  # only own ranges: same answers
            s2 = list(raw); rng.shuffle(s2)
            if flags & 8 and rng.random() < .5: s2.append(rng.choice(s2))
            newp(g, s2, flags | 4, mode="my"); feats.append("my")
            if rng.random() < .3: s.dp(p - 1)
        # migration
        if rng.random() < .5 and len(mem) > 1:
            if g == 0:
                h = rng.choice([x for x in mem if x])
                raw2 = [e for e in raw if mem[0][e[0]] in mem[h]]
                if raw2:
                    b, _ = newp(0, raw2, flags | 4, mode=rng.choice(["full", "full", "my"])); s.mig(b, h); parts[b][0] = h; feats.append("shrinkmig")
                    if parts[b][2] == "full": s.tq(b, list(range(len(mem[h])))[::-1])
                    if parts[b][2] == "full" and rng.random() < .5: s.mig(b, 0); parts[b][0] = 0; s.dp(b)
            else:
                b, _ = newp(g, raw, flags | 4); s.mig(b, 0); parts[b][0] = 0; feats.append("growmig")
                if parts[b][2] == "full": s.tq(b, list(range(n)))
        if rng.random() < .3:
            q = rng.choice([x for x in parts if parts[x][0] == g and parts[x][2] == "full"] or [a])
            if parts[a][0] == parts[q][0]: s.peq(a, q)
    # containers: conversion of indexes
    if dims == 1 and not scaled and rng.random() < .5:
        s.data(0, 0, rng.choice(["char", "int32", "double"])); feats.append("convert")
        c = [x for x in parts if parts[x][0] == 0 and parts[x][2] == "full"]
        rng.shuffle(c)
        for x in c[:2]:
            s.sw(0, x, "none", "none")
            idx = list(range(sp[0] - 1, sp[1] + 1)); rng.shuffle(idx); s.g2l(0, idx)
    s.fin()
    return s

def iscen(rng, k, big):
    """ranges kept for a pair of partitionings, transitions computed from them"""
    n = rng.randint(1, 6 if big else 5)
    s = Scn("i%d" % k, n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": ["inter"]})
    s.world(0); sp = gen.rand_space(rng, 1, rng.choice([8, 20])); s.space(0, sp, gen.rand_org(rng))
    st = [rng.choice(["one", "skew", "blocks"]), rng.choice(["one", "multi", "skew", "gaps", "blocks"])]
    for p in range(2):
        flags = rng.choice([4, 4, 12])
        l, cov, _ = gen.rand_list1d(rng, n, sp, st[p], tags=rng.choice([0, 0, 1, 2])); raw = l[1]
        s.part(p, 0, 0, ("list", flags, raw), mode=rng.choice(["my", "my", "full"]))
    s.inter(0, 1)
    s.fin()
    return s

def check(c):
    scns = [scenario(c.rng, k, not c.quick) for k in range(c.n(600, 6000))] + [iscen(c.rng, k, not c.quick) for k in range(c.n(250, 3000))]
    c.run(scns, "rand", corrupt=[c_tq] + c.CORRUPT)
    c.assume += ["keeping only ranges intersecting own ranges is done for 1-dimensional spaces (asserted by the library)", "migration between a group and its direct parent (precondition)"]

def c_tq(rec, rng):
    x = [e for s in rec["steps"] if s["op"] == "tq" for o in s["obs"] for e in o]
    if not x: return False
    e = rng.choice(x); e[rng.choice(["rc", "mc"])] += 1
    return True

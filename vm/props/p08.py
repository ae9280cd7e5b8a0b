"""P08: prepared action sequences"""
from .. import gen
from ..scn import Scn

def scenario(rng, k, big):
    n = rng.choice([1, 2, 2, 3, 3, 4] + ([5, 6] if big else [])); dims = rng.choice([1, 1, 1, 2, 3]); sp = gen.rand_space(rng, dims)
    env = {}
    if rng.random() < .4: env["LAIK_MPI_REDUCE"] = "0"
    if rng.random() < .4: env["LAIK_MPI_ASYNC"] = "0"
    if rng.random() < .2: env["LAIK_LAYOUT_GENERIC"] = "1"
    feats = ["%dd" % dims] + ["%s=%s" % kv for kv in env.items()]
    s = Scn("q%d" % k, n, seed=rng.randint(1, 10**6), mode=rng.choice(gen.MODES), env=env, meta={"feats": feats})
    s.world(0); s.space(0, sp, gen.rand_org(rng))
    g = 0; mem = list(range(n))
    if n > 2 and rng.random() < .2:
        out = rng.sample(range(n), rng.randint(1, n - 2)); s.shrink(1, 0, out); g = 1; mem = [x for x in mem if x not in out]; feats.append("subgroup")
    m = len(mem); non = [x for x in range(n) if x not in mem]
    useres = rng.random() < .6
    parts = []
    for p in range(rng.randint(2, 4)):
        for _ in range(10):
            if dims == 1 and rng.random() < .6: l, cov, _ = gen.rand_list1d(rng, m, sp, tags=rng.choice([1, 2]) if useres else None); kd = ("list",) + l
            elif dims > 1 and rng.random() < .6: l, cov, _ = gen.rand_listnd(rng, m, sp, tags=1 if useres else None); kd = ("list",) + l
            else: kd, cov, _ = gen.rand_kind(rng, m, sp)
            if not useres or gen.res_ok(kd, cov) or rng.random() < .1: break
        s.part(p, 0, g, kd); parts.append(gen.Part(p, 0, g, kd, cov, gen.res_ok(kd, cov)))
    nd = rng.choice([1, 1, 2]); ty = [rng.choice(gen.INT_T + gen.FLT_T) for _ in range(nd)]
    lay = [int(dims > 1 and rng.random() < .15) for _ in range(nd)]
    res = {}; nres = 0   # reservation -> (container, parts)
    for d in range(nd):
        s.data(d, 0, ty[d], acc=rng.random() < .6)
        if lay[d]: s.setlay(d, 1)
        if useres:
            for _ in range(rng.choice([1, 1, 2])):
                cand = [p.p for p in parts if p.resok]
                if cand:
                    ps = rng.sample(cand, rng.randint(1, len(cand))); s.res(nres, d, ps); res[nres] = (d, ps); nres += 1
    act = [None] * nd          # reservation in use
    cur = [None] * nd; curres = [None] * nd   # partitioning and the reservation its memory is from
    trs = {}; seqs = {}; nt = 0; ns = 0
    def inres(r, p): return r is not None and p in res[r][1]
    def use(d, r):
        if act[d] != r: s.ures(d, -1 if r is None else r); act[d] = r
    def flow(d, p, q):
        fp = parts[p].cov if p is not None else None
        f = rng.choice(["pres"] * 5 + ["init", "none"])
        if p is None and f == "pres": f = "init"
        if f == "init" and dims > 1: f = "none"
        r = "none"
        if f == "init" or f == "pres" and dims == 1 and (fp != "one" or rng.random() < .3): r = rng.choice(gen.reds_for(ty[d]))
        return f, r
    def ready(d, q):           # values at the new owners that can be checked
        for e in range(nd):
            if cur[e] is not None: s.rd(e)
        if cur[d] is not None and rng.random() < .7: s.wr(d, gen.wmode_for(rng, ty[d], rng.choice(["sum", "prod", "max", "or"]) if ty[d] in gen.INT_T else "sum"), rng.randint(0, 99))
    for _ in range(rng.randint(6, 16)):
        x = rng.random(); d = rng.randrange(nd)
        if x < .35 or not seqs:      # prepare another one
            p = cur[d] if rng.random() < .5 else rng.choice([None] + [p.p for p in parts] * 3); q = rng.randrange(len(parts))
            f, r = flow(d, p, q)
            key = (p, q, f, r)
            if key not in trs or rng.random() < .3:
                s.tr(nt, 0, -1 if p is None else p, q, f, r); trs[key] = nt; nt += 1
            r1 = rng.choice([-1, -1] + [z for z in res if res[z][0] == d and p is not None and inres(z, p)] * 3)
            r2 = rng.choice([-1, -1] + [z for z in res if res[z][0] == d and inres(z, q)] * 3)
            s.ca(ns, d, trs[key], r1, r2, who=mem); seqs[ns] = (d, p, q, f, r, r1, r2); ns += 1
            if r1 >= 0 or r2 >= 0: feats.append("prepres%d%d" % (r1 >= 0, r2 >= 0))
        elif x < .42 and len(seqs) > 1:
            a = rng.choice(list(seqs)); s.fa(a, who=mem); del seqs[a]
        else:                        # execute one
            own = [a for a in seqs if seqs[a][0] == d]
            fit = [a for a in own if seqs[a][1] == cur[d] and (seqs[a][5] < 0 or curres[d] == seqs[a][5])]
            if not own: continue
            a = rng.choice(fit) if fit and rng.random() < .8 else rng.choice(own)
            d, p, q, f, r, r1, r2 = seqs[a]
            if a not in fit:         # get there by a direct switch
                if p is None:
                    if cur[d] is not None: s.sw(d, -1, "none", "none"); cur[d] = curres[d] = None
                else:
                    use(d, r1 if r1 >= 0 else rng.choice([None] + [z for z in res if res[z][0] == d]))
                    if cur[d] == p and r1 >= 0 and curres[d] != r1:   # in other memory: leave first
                        s.sw(d, -1, "none", "none"); cur[d] = None
                    f1, r_1 = flow(d, cur[d], p)
                    s.sw(d, p, f1, r_1); cur[d] = p; curres[d] = act[d] if inres(act[d], p) else None
                    ready(d, p)
            if r2 >= 0: use(d, r2)
            elif rng.random() < .2: use(d, rng.choice([None] + [z for z in res if res[z][0] == d]))
            s.xa(a, who=mem)
            if non: s.step({"op": "nop"}, "sw %d %d none none" % (d, q), non)
            cur[d] = q; curres[d] = act[d] if inres(act[d], q) else None
            feats.append("xa" + f)
            ready(d, q)
    s.fin()
    return s

def check(c):
    c.tcp = .2
    c.run([scenario(c.rng, k, not c.quick) for k in range(c.n(800, 8000))], "rand")

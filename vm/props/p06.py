"""P06: reductions"""
from .. import gen
from ..scn import Scn
MODES = gen.MODES

def scenario(rng, k, big):
    many = rng.random() < .1
    n = rng.randint(9, 12) if many else rng.choice([2, 3, 4] + ([5, 6] if big else [])); sp = gen.rand_space(rng, 1, 6 if many else None)
    env = {}
    if many: env["LAIK_MPI_REDUCE"] = rng.choice("000001")
    elif rng.random() < .5: env["LAIK_MPI_REDUCE"] = "0"
    if rng.random() < .3: env["LAIK_MPI_ASYNC"] = "0"
    s = Scn("r%d" % k, n, seed=rng.randint(1, 10**6), mode=rng.choice(MODES), env=env, meta={"feats": []})
    s.world(0); s.space(0, sp, gen.rand_org(rng))
    parts = []
    for p in range(rng.randint(2, 4)):
        kd, cov, tg = gen.rand_kind(rng, n, sp, want=rng.choice(["multi", "multi", None]))
        # nearly everybody contributes, and who collects may be none of them
        if many and p == 0: l, cov, _ = gen.rand_list1d(rng, n, sp, "crowd"); kd = ("list",) + l
        if many and p == 1: l, cov, _ = gen.rand_list1d(rng, n, sp, rng.choice(["one", "skew", "gaps"])); kd = ("list",) + l
        s.part(p, 0, 0, kd); parts.append(p)
    ty = rng.choice(gen.INT_T + gen.FLT_T); s.data(0, 0, ty)
    op = rng.choice(gen.reds_for(ty))
    s.meta["feats"] += [ty, op] + (["noreduce"] if "LAIK_MPI_REDUCE" in env else [])
    p = rng.choice(parts) if not many else 0
    if rng.random() < .5: s.sw(0, p, "init", op); s.rd(0)
    else: s.sw(0, p, "none", "none")
    for _ in range(rng.randint(1, 2 if many else 4)):
        if rng.random() < .85: s.wr(0, gen.wmode_for(rng, ty, op), rng.randint(0, 99))
        if rng.random() < .3: op = rng.choice(gen.reds_for(ty)); s.wr(0, gen.wmode_for(rng, ty, op), rng.randint(0, 99))
        q = rng.choice(parts) if not many or p > 1 else 1 - p
        p = q
        s.sw(0, q, "pres", op); s.rd(0)
    s.fin()
    return s

def check(c):
    c.tcp = .2
    scns = [scenario(c.rng, k, not c.quick) for k in range(c.n(900, 8000))]
    c.run(scns, "rand")

"""P01: provided partitioners"""
from .. import gen
from ..scn import Scn

KINDS = ["all", "master", "copy", "halo", "chalo", "bisect", "grid", "block", "blockw", "reassign"]

def scenario(rng, k, kind, big):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7] if big else [1, 2, 3, 4, 5])
    dims = 3 if kind == "grid" else 1 if kind == "reassign" else rng.choice([1, 1, 2, 3])
    if dims == 1:
        f = rng.choice([0, 0, 0, -7, 5]); sp = [f, f + rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 24, 31] + ([24, 31, 41, 60] if kind in ("blockw", "reassign") else []) + ([47, 64] if big else []))]
    else: sp = gen.rand_space(rng, dims)
    s = Scn("%s%d" % (kind, k), n, seed=rng.randint(1, 10**6), mode=1, meta={"feats": [kind, "%dd" % dims]})
    s.world(0); g = 0
    org = gen.rand_org(rng)
    s.space(0, sp, org)
    if n > 2 and rng.random() < .2 and kind != "reassign":
        out = rng.sample(range(n), rng.randint(1, n - 1)); s.shrink(1, 0, out); g = 1; n -= len(out)
    p = 0
    for rep in range(rng.randint(1, 3)):
        if kind in ("all", "master"): kd = (rng.choice([kind, kind + "2"]),); base = -1
        elif kind == "bisect": kd = ("bisect",); base = -1
        elif kind == "grid":
            f = [(a, b, c) for a in range(1, n + 1) for b in range(1, n + 1) for c in range(1, n + 1) if a * b * c <= n]
            kd = ("grid",) + rng.choice(f[-6:] if rng.random() < .6 else f); base = -1
        elif kind == "block":
            d = rng.randrange(dims); kd = ("block", d, rng.choice([1, 1, 1, 2, 3]), 0, 0) if d or rng.random() < .7 else ("block1",); base = -1
        elif kind == "blockw":
            kd = rng.choice([("block", rng.randrange(dims), rng.choice([1, 1, 2, 3, 4]), rng.randrange(4), rng.randrange(4)), ("blocki", rng.randint(1, 3)), ("blockt", rng.randint(1, 3))]); base = -1
            if kd[0] == "block" and kd[4] == 3 and n == 2 and False: pass
        else:
            # needs a base
            if kind in ("halo", "chalo"):
                tags = rng.choice([1, 2])
                bk = ("bisect",) if rng.random() < .5 and kind == "chalo" or rng.random() < .3 else ("list",) + (gen.rand_list1d(rng, n, sp, rng.choice(["one", "blocks", "skew", "multi"]), tags=tags) if dims == 1 else gen.rand_listnd(rng, n, sp, "one", tags=1))[0]
                if kind == "chalo" and rng.random() < .4: bk = ("block", rng.randrange(dims), 1, 0, 0)
                kd = (kind, rng.choice([1, 1, 2, 3]))
                s.part(p, 0, g, bk); base = p; p += 1
            elif kind == "copy":
                # base space may have other dimensions
                bd = rng.choice([1, 2, 3]); bsp = gen.rand_space(rng, bd)
                td = rng.randrange(dims); fd = rng.randrange(bd)
                # same extent of the two dimensions involved
                bsp[2*fd], bsp[2*fd+1] = sp[2*td], sp[2*td+1]
                o2 = [0, 0, 0]; o2[fd] = org[td]
                s.space(1, bsp, o2)
                kb = ("block", fd, rng.choice([1, 2]), rng.randrange(3), 0)
                if rng.random() < .5:
                    kb = ("list",) + (gen.rand_list1d(rng, n, bsp, rng.choice(["one", "one", "multi", "blocks", "skew"]), tags=rng.choice([1, 2, 2])) if bd == 1 else gen.rand_listnd(rng, n, bsp, tags=1))[0]
                s.part(p, 1, g, kb); base = p; p += 1
                kd = ("copy", fd, td)
            elif kind == "reassign":
                if n < 2: kd, base = ("block1",), -1
                else:
                    out = rng.sample(range(n), rng.randint(1, n - 1))
                    s.shrink(2 + rep, 0, out)
                    bk = rng.choice([("block", 0, rng.choice([1, 2, 3]), 0, 0), ("list",) + gen.rand_list1d(rng, n, sp, rng.choice(["one", "skew", "blocks"]), tags=0)[0]])
                    s.part(p, 0, 0, bk); base = p; p += 1
                    kd = ("reassign", 2 + rep, rng.randrange(4))
        s.part(p, 0, g, kd, base); p += 1
    s.fin()
    return s

def check(c):
    per = c.n(100, 1500)
    scns = [scenario(c.rng, k, kind, not c.quick) for kind in KINDS for k in range(per)]
    c.run(scns, "rand")
    c.assume += ["weight functions used are integer valued (rounding of shares then is below one index per cycle)"]

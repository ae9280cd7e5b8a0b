"""Random scenario generators. All of them respect the preconditions of the library
(what it answers with an assertion or panic by design)."""
import random
from .scn import Scn

INT_T = ["char", "uchar", "int32", "uint32", "int64", "uint64"]
FLT_T = ["float", "double"]
REDS = ["sum", "prod", "min", "max", "and", "or"]

def reds_for(ty): return REDS if ty in INT_T else REDS[:4]
def wmode_for(rng, ty, red):
    if red == "prod": return 2
    if red in ("and", "or"): return 4
    if red in ("min", "max") and rng.random() < .6: return 7
    if ty in ("uchar", "uint32", "uint64"): return rng.choice([0, 6, 0])
    return rng.choice([0, 5, 5, 6])

def rand_space(rng, dims, maxn=None):
    if dims == 1:
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]) if not maxn else rng.randint(1, maxn)
        f = rng.choice([0, 0, 0, 0, -4, 3])
        return [f, f + n]
    if dims == 2:
        a, b = rng.randint(1, 6), rng.randint(1, 6)
        f, g = rng.choice([0, 0, 0, -2, 1]), rng.choice([0, 0, -3, 2])
        return [f, f + a, g, g + b]
    a, b, c = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    f, g, h = rng.choice([0, 0, -1]), rng.choice([0, 0, 1]), rng.choice([0, 0, -2])
    return [f, f + a, g, g + b, h, h + c]

def rand_org(rng, big=0.3):
    if rng.random() > big: return (0, 0, 0)
    return tuple(rng.choice([0, 1000, -1000, 5000000000, -5000000000, 1 << 40]) for _ in range(3))

def runs(idx):
    """sorted indexes -> maximal ranges"""
    out = []
    for i in idx:
        if out and out[-1][1] == i: out[-1][1] = i + 1
        else: out.append([i, i + 1])
    return out

class PI:
    """what the generator knows about a partitioning"""
    def __init__(self, p, kind, cov, own=None, tagged=False, full=True, single=True):
        self.p, self.kind, self.cov, self.own, self.tagged, self.full, self.single = p, kind, cov, own, tagged, full, single

def rand_list1d(rng, n, sp, style=None, tags=None, flags=0):
    """-> (raw, cov, owners per index)"""
    style = style or rng.choice(["one", "one", "one", "multi", "gaps", "blocks", "skew"])
    f, t = sp
    own = {}
    tasks = list(range(n))
    if style == "skew" and n > 1:   # some processes without anything
        tasks = rng.sample(tasks, rng.randint(1, n - 1)); 
    cur = rng.choice(tasks)
    for i in range(f, t):
        if style in ("one", "skew"):
            if rng.random() < 0.6: cur = rng.choice(tasks)
            own[i] = [cur]
        elif style == "blocks":
            own[i] = [min(n - 1, (i - f) * n // max(1, (t - f)))]
        elif style == "crowd":
            if i == f or rng.random() < .7: cur = rng.sample(range(n), rng.choice([n, n - 1, n - 1, n - 2, n - 2]))
            own[i] = list(cur)
        elif style == "multi":
            k = rng.randint(1, n); own[i] = rng.sample(range(n), k)
        else:
            k = rng.randint(0, n); own[i] = rng.sample(range(n), k)
    if style == "gaps": flags |= 4
    if tags is None: tags = rng.choice([0, 0, 1, 2])
    raw = []
    for q in range(n):
        rs = runs([i for i in range(f, t) if q in own[i]])
        # now and then split ranges
        rs2 = []
        for a, b in rs:
            if b - a > 1 and rng.random() < 0.3:
                m = rng.randint(a + 1, b - 1); rs2 += [[a, m], [m, b]]
            else: rs2.append([a, b])
        for r in rs2:
            g = 0 if tags == 0 else 1 if tags == 1 else rng.randint(1, 3)
            raw.append((q, g, r))
    rng.shuffle(raw)
    if not raw:
        raw = [(0, 0, [f, f + 1])]; own[f] = [0]
    cov = "one" if all(len(v) == 1 for v in own.values()) else "multi"
    return (flags, raw), cov, own

def rand_listnd(rng, n, sp, style=None, tags=None):
    """random boxes: guillotine cuts of the space dealt to processes (some to several)"""
    dims = len(sp) // 2
    boxes = [list(sp)]
    for _ in range(rng.randint(0, 4)):
        b = boxes.pop(rng.randrange(len(boxes)))
        d = rng.randrange(dims)
        if b[2*d+1] - b[2*d] < 2: boxes.append(b); continue
        m = rng.randint(b[2*d] + 1, b[2*d+1] - 1)
        x, y = list(b), list(b); x[2*d+1] = m; y[2*d] = m
        boxes += [x, y]
    style = style or rng.choice(["one", "one", "multi"])
    if tags is None: tags = rng.choice([0, 1])
    raw = []
    for b in boxes:
        k = 1 if style == "one" else rng.randint(1, n)
        for q in rng.sample(range(n), k): raw.append((q, 0 if tags == 0 else 1, b))
    rng.shuffle(raw)
    return (0, raw), ("one" if style == "one" else "multi"), None

def rand_kind(rng, n, sp, want=None, base=None):
    """-> (kind tuple, cov, tagged, base needed)"""
    dims = len(sp) // 2
    size = sp[1] - sp[0]
    opts = []
    if want in (None, "one"): opts += ["master", "block", "bisect", "list1", "list1", "blockw"]
    if want in (None, "multi"): opts += ["all", "listm"]
    if dims == 3: opts += ["grid"] if want in (None, "one") else []
    k = rng.choice(opts)
    if k == "all": return (rng.choice(["all", "all2"]),), ("multi" if n > 1 else "one"), False
    if k == "master": return (rng.choice(["master", "master2"]),), "one", False
    if k == "block":
        return ("block", rng.randrange(dims), 1, 0, 0), "one", False
    if k == "blockw":
        return ("block", rng.randrange(dims), rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2])), "one", False
    if k == "bisect": return ("bisect",), "one", True
    if k == "grid":
        f = [(a, b, c) for a in range(1, n + 1) for b in range(1, n + 1) for c in range(1, n + 1) if a * b * c <= n]
        return ("grid",) + rng.choice(f), "one", True
    if dims == 1:
        l, cov, own = rand_list1d(rng, n, sp, "one" if k == "list1" else rng.choice(["multi", "gaps"]))
    else:
        l, cov, own = rand_listnd(rng, n, sp, "one" if k == "list1" else "multi")
    return ("list",) + l, cov, False

# ------------------------------------------------------------------ walks
MODES = [0, 1, 2, 3, 16, 32, 17, 33, 18, 34]

class Part:
    def __init__(self, p, s, g, kind, cov, resok):
        self.p, self.s, self.g, self.kind, self.cov, self.resok = p, s, g, kind, cov, resok

def res_ok(kind, cov):
    """usable in a reservation: own ranges of several mappings need tags"""
    k = kind[0]
    if k in ("all", "all2", "master", "master2", "bisect", "grid", "block1"): return True
    if k == "block": return kind[2] == 1
    if k == "list":
        per = {}
        for t, g, r in kind[2]: per.setdefault(t, []).append(g)
        return all(len(v) == 1 or 0 not in v for v in per.values())
    return False

DEF = dict(nmax=4, dims=(1, 1, 1, 2, 3), groups=.25, res=.25, steps=(3, 8), acc=.3, swn=.08, aseq=0., xt=.15, none=.08, nd=(1, 1, 2, 3),
           initp=.08, frees=.1, maxsize=None, env=None, parts=(2, 4), tagged=.35, tys=None, fin=True, modes=MODES, backend="mpi", nmin=1, nest=0, lay=0., cls=None, hook=None, pre=None, post=None, nonelast=0, samety=0.)

def walk(rng, id, **cfg):
    """a random history of container switches. Every process takes part in each step
    unless it is in none of the groups involved."""
    c = dict(DEF); c.update(cfg)
    n = rng.randint(c["nmin"], c["nmax"]); dims = rng.choice(c["dims"])
    sp = rand_space(rng, dims, c["maxsize"])
    feats = ["%dd" % dims]
    s = (c["cls"] or Scn)(id, n, seed=rng.randint(1, 10**6), mode=rng.choice(c["modes"]), env=c["env"] or {}, meta={"feats": feats})
    s.world(0); s.space(0, sp, rand_org(rng))
    mem = {0: list(range(n))}; par = {0: -1}
    if n > 1 and rng.random() < c["groups"]:
        feats.append("groups")
        for g in range(1, rng.choice([2, 3, 4]) + 2 * c["nest"]):
            a = rng.choice(list(mem))
            if len(mem[a]) < 2: continue
            out = sorted(rng.sample(range(len(mem[a])), rng.randint(1, len(mem[a]) - 1)))
            if a != 0 and not c["nest"]: continue
            if c["nest"] and rng.random() < .25:
                s.clone(g, a); mem[g] = list(mem[a]); par[g] = a; feats.append("clone"); continue
            if a != 0: feats.append("nested")
            s.shrink(g, a, out)
            mem[g] = [x for k, x in enumerate(mem[a]) if k not in out]; par[g] = a
    parts = []; pid = [0]
    def newpart(g, want=None, tagged=None):
        m = len(mem[g])
        if tagged and dims == 1 and rng.random() < .7:
            l, cov, _ = rand_list1d(rng, m, sp, rng.choice(["one", "multi", "gaps", "blocks", "skew"]) if want is None else want, tags=rng.choice([1, 2]))
            kind = ("list",) + l
        elif tagged and rng.random() < .6:
            l, cov, _ = rand_listnd(rng, m, sp, tags=1); kind = ("list",) + l
        else: kind, cov, _ = rand_kind(rng, m, sp, want=want)
        return kind, cov
    tagmode = rng.random() < c["tagged"]
    for _ in range(rng.randint(*c["parts"])):
        g = rng.choice(list(mem)) if rng.random() < .6 else 0
        kind, cov = newpart(g, tagged=tagmode)
        p = pid[0]; pid[0] += 1
        s.part(p, 0, g, kind); parts.append(Part(p, 0, g, kind, cov, res_ok(kind, cov)))
    nd = rng.choice(c["nd"]); ty = [rng.choice(c["tys"] or INT_T + FLT_T) for _ in range(nd)]
    if rng.random() < c["samety"]: ty = [ty[0]] * nd
    lay = [int(dims > 1 and rng.random() < c["lay"]) for d in range(nd)]
    for d in range(nd):
        s.data(d, 0, ty[d], acc=rng.random() < c["acc"])
        if lay[d]: s.setlay(d, 1); feats.append("ownlayout")
    cur = [None] * nd; resv = [None] * nd; nres = [0]; tid = [0]; held = {}   # reservation -> parts
    live = [p for p in parts]
    def hook(d):
        for e in range(nd):
            if cur[e] is not None and (e == d or rng.random() < .3): s.rd(e)
        if c["hook"]: c["hook"](rng, s, d, cur, ty, lay)
    for st in range(rng.randint(*c["steps"])):
        d = rng.randrange(nd)
        if c["pre"]: c["pre"](rng, s, d, cur, ty, sp)
        # reservations
        if rng.random() < c["res"]:
            if resv[d] is None:
                g = rng.choice(list(mem)) if rng.random() < .3 else 0
                cand = [p for p in live if p.g == g and p.resok]
                if cand:
                    ps = rng.sample(cand, rng.randint(1, len(cand)))
                    r = nres[0]; nres[0] += 1
                    who = mem[g]
                    s.res(r, d, [p.p for p in ps]); s.ures(d, r)
                    resv[d] = r; held[r] = [p.p for p in ps]; feats.append("res")
            elif rng.random() < .35 and (cur[d] is None or cur[d].p not in held[resv[d]]):
                s.fres(resv[d]); resv[d] = None; feats.append("fres")
        def adj(a, b): return a == b or par[a] == b or par[b] == a
        cand = [p for p in live if cur[d] is None or adj(cur[d].g, p.g)]
        if not cand: continue
        r0 = rng.random()
        if cur[d] is not None and r0 < c["none"]:
            s.sw(d, -1, "none", "none"); cur[d] = None; feats.append("tonone"); hook(d); continue
        q = rng.choice(cand)
        new = None
        if rng.random() < c["swn"]:
            g = rng.choice([x for x in mem if cur[d] is None or adj(cur[d].g, x)])
            kind, cov = newpart(g, tagged=tagmode)
            new = Part(pid[0], 0, g, kind, cov, res_ok(kind, cov)); pid[0] += 1; q = new
        if cur[d] is None:
            # the first use
            x = rng.random()
            if new is None and resv[d] is not None and q.p in held[resv[d]] and x < 3 * c["initp"]: s.initp(d, q.p); feats.append("initp"); f = "none"
            else:
                f, r = ("init", rng.choice(reds_for(ty[d]))) if dims == 1 and x < .4 else ("none", "none")
                if new: k = s.swn(d, q.p, q.g, q.kind, f, r); s.later(k, s.dp(q.p)); live.append(q); feats.append("swn")
                else: s.sw(d, q.p, f, r)
        else:
            f = rng.choice(["pres"] * 5 + ["init", "none"])
            if f == "init" and dims > 1: f = "none"
            r = "none"
            if f == "init": r = rng.choice(reds_for(ty[d]))
            elif f == "pres" and dims == 1 and (cur[d].cov != "one" or rng.random() < .3): r = rng.choice(["sum", "min", "max"])
            same = cur[d].g == q.g
            if not same: feats.append("chgroup")
            if new: k = s.swn(d, q.p, q.g, q.kind, f, r); s.later(k, s.dp(q.p)); live.append(q); feats.append("swn")
            elif f == "init" and rng.random() < .3: s.swf(d, f, r); q = cur[d]
            elif same and rng.random() < c["xt"] and cur[d].g == 0:
                s.tr(tid[0], 0, cur[d].p, q.p, f, r); s.xt(d, tid[0])
                if rng.random() < .5: s.ftr(tid[0])
                tid[0] += 1; feats.append("xt")
            else: s.sw(d, q.p, f, r)
            feats.append(f)
        cur[d] = q
        hook(d)
        if rng.random() < .75: s.wr(d, wmode_for(rng, ty[d], "sum"), rng.randint(0, 99))
        if rng.random() < c["frees"]:
            used = {x.p for x in cur if x is not None} | {p for d2 in range(nd) if resv[d2] is not None for p in held[resv[d2]]}
            cand = [p for p in live if p.p not in used]
            if cand and len(live) > 1:
                p = rng.choice(cand); s.fp(p.p); live.remove(p); feats.append("fp")
    for d in range(nd):
        if cur[d] is not None: s.rd(d)
    if c["post"]: c["post"](rng, s, cur, ty, resv, held)
    if c["fin"]: s.fin()
    return s

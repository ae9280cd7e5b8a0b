"""P11: process groups"""
from .. import gen
from ..scn import Scn

def groups(rng, k, big):
    """any sequence of group operations, processes with any location ids (no communication)"""
    n = rng.randint(1, 8 if big else 6)
    s = Scn("g%d" % k, n, seed=1, mode=1, meta={"feats": ["groups"]})
    loc = list(range(n))
    if rng.random() < .6: loc = sorted(rng.sample(range(20), n))
    if rng.random() < .3: rng.shuffle(loc); s.meta["feats"].append("unordered")
    s.loc = loc
    s.raw("dummy", "dummy %d %s" % (n, " ".join(map(str, loc))))
    s.world(0); mem = {0: list(range(n))}
    for g in range(1, rng.randint(3, 14 if big else 10)):
        a = rng.choice(list(mem)); x = rng.random()
        if x < .1: s.clone(g, a); mem[g] = list(mem[a])
        elif x < .6 and mem[a]:
            m = len(mem[a])
            out = [r for r in range(m) if rng.random() < rng.choice([.2, .5])]
            if len(out) == m: out = out[1:]
            rng.shuffle(out)
            if out and rng.random() < .1: out.append(out[0])
            s.shrink(g, a, out); mem[g] = [w for r, w in enumerate(mem[a]) if r not in out]
        elif x < .65: s.world(g); mem[g] = list(mem[0])
        else:
            b = rng.choice(list(mem)); s.union(g, a, b); s.meta["feats"].append("union")
            A, B = set(mem[a]), set(mem[b])
            mem[g] = mem[a] if B <= A else mem[b] if A <= B else sorted(A | B, key=lambda w: loc[w])
    s.fin()
    return s

def check(c):
    c.tcp = .2
    big = not c.quick
    scns = [groups(c.rng, k, big) for k in range(c.n(700, 8000))]
    scns += [gen.walk(c.rng, "w%d" % k, groups=1, nest=1, nmin=2, nmax=6 if big else 5, res=.05, xt=.1, frees=0, dims=(1, 1, 2), nd=(1, 2)) for k in range(c.n(350, 4000))]
    c.run(scns, "rand", corrupt=[c_grp] + c.CORRUPT)
    c.assume += ["uniting groups is checked without communication (the MPI backend supports derived groups only if they are subsets: asserted)", "switches between a group and its direct parent (precondition of migration)"]

def c_grp(rec, rng):
    x = [o for s in rec["steps"] if s["op"] == "grp" for o in s["obs"] if o["loc"]]
    if not x: return False
    o = rng.choice(x); f = rng.choice(["me", "loc", "tp", "fp"])
    if f == "me": o["me"] -= 1
    elif not o[f]: return False
    else: o[f][rng.randrange(len(o[f]))] += 1
    return True

"""P13: the same program gives the same results with every backend and every option"""
import copy
from .. import gen
from ..scn import Scn
from . import p08, p10, p15

MPIOPT = [{}, {"LAIK_MPI_REDUCE": "0"}, {"LAIK_MPI_ASYNC": "0"}, {"LAIK_MPI_REDUCE": "0", "LAIK_MPI_ASYNC": "0"}]

def variants(rng, s, ntcp=2, nmpi=1):
    """the program under several backends, options and orders of delivery"""
    out = []
    lay = {k: v for k, v in s.env.items() if k == "LAIK_LAYOUT_GENERIC"}
    def add(tag, env, mode):
        v = copy.copy(s)
        v.id = "%s-%s" % (s.id, tag); v.env = dict(env, **lay); v.mode = mode; v.seed = rng.randint(1, 10**6)
        if rng.random() < .1: v.env["LAIK_LAYOUT_GENERIC"] = "1"
        v.meta = dict(s.meta); v.meta["feats"] = ["/".join([env.get("LAIK_BACKEND", "mpi")] + sorted(x for x in env if x.startswith(("LAIK_MPI", "LAIK_TCP_R")))) + (" binary" if env.get("LAIK_TCP2_BIN") == "1" else "")] + list(s.meta.get("feats", ()))
        out.append(v)
    for i in range(nmpi): add("m%d" % i, rng.choice(MPIOPT), rng.choice(gen.MODES))
    for i in range(ntcp):
        add("t%d" % i, {"LAIK_BACKEND": "tcp2", "LAIK_SIZE": str(s.n), "LAIK_TCP2_BIN": str((i + rng.randint(0, 9) // 9) % 2)}, rng.choice([0, 1, 2, 2, 3]) | rng.choice([0, 0, 16, 32]))
    add("o", rng.choice([{"LAIK_BACKEND": "tcp"}, {"LAIK_BACKEND": "tcp", "LAIK_TCP_REDUCE": "0"}]), rng.choice(gen.MODES))
    if s.n == 1: add("s", {"LAIK_BACKEND": "single"}, 1)
    return out

def large(rng, k):
    """more data between two processes than fits into one message of a backend"""
    n = rng.choice([2, 2, 3]); dims = rng.choice([1, 1, 2, 3]); ty = rng.choice(["double", "double", "int64", "int32"])
    per = {1: (rng.choice([1023, 1024, 1025, 1100]),), 2: (rng.choice([40, 64]), rng.choice([17, 33])), 3: (12, 9, 11)}[dims]
    sp = []
    for x in per: f = rng.choice([0, 0, -3, 5]); sp += [f, f + x]
    s = Scn("large%d" % k, n, meta={"feats": ["large transfers", "%dd" % dims]})
    s.world(0); s.space(0, sp, gen.rand_org(rng))
    s.part(0, 0, 0, ("master",)); s.part(1, 0, 0, ("all",))
    s.data(0, 0, ty); s.sw(0, 0, "none", "none"); s.wr(0, 0 if dims == 1 else 1, rng.randint(0, 99))
    s.sw(0, 1, "pres", "none"); s.rd(0)
    if dims == 1: s.wr(0, 1, rng.randint(1, 9)); s.sw(0, 0, "pres", "sum"); s.rd(0)
    s.fin()
    return s

def check(c):
    rng = c.rng; sc = []
    def put(s, **kw): sc.extend(variants(rng, s, **kw))
    for k in range(c.n(150, 1500)): put(gen.walk(rng, "w%d" % k, nmax=4 if c.quick else 6, groups=.3, res=.25))
    for k in range(c.n(25, 250)): put(gen.walk(rng, "one%d" % k, nmax=1, res=.3, initp=.2, steps=(4, 9)))
    for k in range(c.n(50, 500)): put(gen.walk(rng, "r%d" % k, dims=(1,), nmax=5, steps=(5, 10), tys=["int32", "int64", "double", "uchar"], none=.02))
    for k in range(c.n(60, 600)): put(p08.scenario(rng, 10**4 + k, not c.quick))
    c.run(sc, "data")
    sc = []
    for k in range(c.n(80, 800)): put(p10.scenario(rng, k, not c.quick))
    for k in range(c.n(60, 600)): put(p15.scenario(rng, k))
    put(p10.many(rng, 0, 3, 1010)); put(p15.many(rng, 1, 3))
    c.run(sc, "stores", corrupt=p10.CORRUPT + [p15.c_view])
    sc = []
    for k in range(c.n(8, 60)): put(large(rng, k), ntcp=3)
    c.run(sc, "large")
    c.assume += ["messages on one connection are delivered in order and not lost; connections do not break"]

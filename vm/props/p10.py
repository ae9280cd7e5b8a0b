"""P10: key-value stores"""
import json, os, re
from .. import gen, run
from ..scn import Scn
from ..ctx import Broken

def hexs(s): return s.encode("latin1").hex()
KEYS = [hexs(x) for x in ["a", "ab", "abc", "b", "B", "key 1", "key 10", "key", "\xe9", "~", "T1-v", "T10-v", "x" * 60, "x" * 59 + "y", "%d%s", "-1"]] + [""]

def val(rng, old=()):
    r = rng.random()
    if old and r < .35:  # related to an existing value: prefix, continuation, other tail
        o = rng.choice(list(old))
        k = rng.random()
        if k < .35 and len(o) > 2: return o[:2 * rng.randint(1, len(o) // 2 - 1)]
        if k < .7: return o + "".join(rng.choice(["00", "01", "61"]) for _ in range(rng.randint(1, 3)))
        return o[:-2] + "%02x" % rng.randrange(256)
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 8, 16, 30, 200])
    if r < .6: return "".join(rng.choice(["00", "00", "61", "62", "ff"]) for _ in range(n))
    return "".join("%02x" % rng.randrange(256) for _ in range(n))

def scenario(rng, k, big):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    s = Scn("kvs%d" % k, n, seed=rng.randint(1, 10**6), mode=rng.choice([0, 1, 1, 2]), meta={"feats": ["%d processes" % n]})
    s.world(0)
    ns = rng.choice([1, 1, 2, 3])
    for i in range(ns): s.kvs(i, "store%d" % (i % 2))
    keys = rng.sample(KEYS, rng.randint(1, min(len(KEYS), 8)))
    cur = [[{} for _ in range(n)] for _ in range(ns)]
    for rnd in range(rng.randint(1, 4)):
        owner = [{} for _ in range(ns)]
        shared = [set() for _ in range(ns)]
        for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
            i = rng.randrange(ns); w = rng.randrange(n); key = rng.choice(keys); c = cur[i][w]
            if key in shared[i]: continue
            r = rng.random()
            if r < .04 and all(x == w for x in owner[i].values()) and n * rng.random() < 2:
                # removes everything: only if nobody else changes something
                if any(key2 in c for key2 in shared[i]): continue
                s.kclean(i, w)
                for key2 in list(c): owner[i][key2] = w
                c.clear()
                continue
            if r < .14 and key not in owner[i] and n > 1:  # several processes the same
                ws = rng.sample(range(n), rng.randint(2, n)); v = val(rng, c.values())
                shared[i].add(key)
                for x in ws:
                    s.kset(i, x, key, v); cur[i][x][key] = v
                continue
            if owner[i].setdefault(key, w) != w: continue
            if r < .35:
                how = rng.randint(0, 1); s.krem(i, w, key, how); c.pop(key, None)
            else:
                v = c[key] if key in c and rng.random() < .15 else val(rng, c.values())
                s.kset(i, w, key, v); c[key] = v
            if rng.random() < .15: s.kget(i, rng.sample(keys, min(3, len(keys))), [rng.randrange(n)])
        for i in rng.sample(range(ns), ns):
            s.ksync(i)
            cur[i] = resync(s, i, n, keys, owner[i], shared[i], cur[i])
            if rng.random() < .5: s.kget(i, rng.sample(keys, min(4, len(keys))))
    s.fin()
    return s

def sh(s, i, key):
    """processes which set a shared key since the last synchronisation"""
    r = []
    for st in reversed(s.steps[:-1]):
        if st["op"] == "ksync" and st["k"] == i: break
        if st["op"] == "kset" and st["k"] == i and st["key"] == key: r.append((st["who"][0], key))
    return r

def resync(s, i, n, keys, owner, shared, src):
    m = {}
    for key in keys:
        if key in owner: v = src[owner[key]].get(key)
        elif key in shared: v = next((src[w][key] for w, _ in sh(s, i, key)), None)
        else: v = src[0].get(key)
        if v is not None: m[key] = v
    return [dict(m) for _ in range(n)]

def many(rng, k, n, count):
    """more entries than a store has room for at first"""
    s = Scn("many%d" % k, n, seed=k + 1, mode=1, meta={"feats": ["many entries"]})
    s.world(0); s.kvs(0, "big")
    ks = ["%04x" % (0x2121 + i * 3 + i // 80 * 7 * 3) for i in range(count)]
    ks = [x for x in ks if "00" not in (x[:2], x[2:])]
    order = list(ks); rng.shuffle(order)
    for j, key in enumerate(order): s.kset(0, j % n, key, "%02x" % rng.randrange(256) * rng.randint(1, 3))
    s.ksync(0)
    for j in range(20): s.kset(0, j % n, "7a7a%02x" % (j + 32), "01")
    s.kget(0, rng.sample(ks, 10) + ["7a7a20"])
    s.ksync(0); s.ksync(0); s.fin()
    return s

def histories(c, quota, procs, maxops, rounds):
    """complete histories of the model, written out by TLC"""
    wd = run.workdir("%s-%s-hist%d%d" % (c.pid, c.tier, procs, maxops))
    cfg = os.path.join(wd, "MCKvs.cfg")
    t = open(os.path.join(run.SPEC, "MCKvs.cfg")).read()
    t = re.sub(r"Procs = .*", "Procs = {%s}" % ", ".join(map(str, range(procs))), t)
    t = re.sub(r"MaxOps = .*", "MaxOps = %d" % maxops, t); t = re.sub(r"Rounds = .*", "Rounds = %d" % rounds, t)
    open(cfg, "w").write(t)
    rc, out = run.tlc("MCKvs.tla", cfg, wd, "h", env={"EMIT": "1"}, workers=4, timeout=800, heap="4g")
    if rc != 0: raise Broken("MCKvs failed:\n" + out[-3000:])
    g, d = run.tlc_states(out); c.states += d; c.trans += g
    c.models.append({"model": "MCKvs", "config": "%d processes, %d changes per round, %d rounds" % (procs, maxops, rounds), "distinct_states": d, "generated": g})
    hs = sorted(set(re.findall(r'<<"HIST", "(.*)">>', out)))
    total = len(hs)
    if len(hs) > quota: hs = c.rng.sample(hs, quota)
    c.models[-1]["histories"] = total; c.models[-1]["histories_replayed"] = len(hs)
    scns = []
    for k, h in enumerate(hs):
        h = json.loads(h.replace('\\"', '"'))
        s = Scn("h%d-%d-%d" % (procs, maxops, k), procs, seed=k + 1, mode=1, meta={"feats": ["history of the model"]})
        s.world(0); s.kvs(0, "s")
        for op, w, key, v in h:
            if op == "kset": s.kset(0, w, key, v)
            elif op == "krem": s.krem(0, w, key)
            else: s.ksync(0); s.kget(0, ["61", "6162"])
        s.fin(); scns.append(s)
    return scns

def c_dump(rec, rng):
    c = [o for s in rec["steps"] if s["op"] == "ksync" for o in s["obs"] if o["dump"]]
    if not c: return False
    o = rng.choice(c); k = rng.randrange(len(o["dump"]))
    if rng.random() < .5: del o["dump"][k]
    else: o["dump"][k][1] = "%02x" % (int(o["dump"][k][1][:2], 16) ^ 1) + o["dump"][k][1][2:]
    return True
def c_calls(rec, rng):
    c = [o for s in rec["steps"] if s["op"] == "ksync" for o in s["obs"] if o["calls"]]
    if not c: return False
    o = rng.choice(c); k = rng.randrange(len(o["calls"]))
    if rng.random() < .5: del o["calls"][k]
    else: o["calls"][k][0] = "u" if o["calls"][k][0] != "u" else "c"
    return True
CORRUPT = [c_dump, c_calls]

def check(c):
    c.tcp = .2
    c.run([scenario(c.rng, k, not c.quick) for k in range(c.n(400, 4000))], "rand", corrupt=CORRUPT)
    c.run([many(c.rng, k, 1 + k % 3, 1010 + 40 * k) for k in range(c.n(2, 6))], "many", corrupt=None)
    hs = histories(c, c.n(350, 100000), 3, 2, 2)
    if not c.quick: hs += histories(c, 20000, 2, 3, 2)
    for a in range(0, len(hs), 4000): c.run(hs[a:a + 4000], "hist%d" % a, corrupt=CORRUPT)
    c.assume += ["processes changing the same key between two synchronisations give it the same value (anything else is reported as inconsistency by the library)", "values have at least one byte"]

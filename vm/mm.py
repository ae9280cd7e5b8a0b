"""programs of mini-MPI calls (the TCP backend's own message passing), run by real processes"""
import json, os, random, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import run

INT = ["int64", "int32", "int8", "uint64", "uint32", "uint8"]
TYPES = INT + ["double", "float"]
OPS = ["sum", "prod", "min", "max", "land", "lor", "band", "bor"]
DEF = {"w": "", "c": 0, "a": 0, "b": 0, "tag": 0, "t": "int32", "n": 0, "v": [0], "o": "sum", "ip": 0, "nw": 0}
OBS = {"e": -1, "n": 0, "g": 1, "v": [], "r": -1, "s": -1, "i": 0, "t": [0, 0], "len": 0}

class Mini:
    def __init__(self, id, n, seed=1, conf=None, faults=(0, 0, 0, 0, 0), alarm=False, tcp=False, meta=None):
        self.id, self.n, self.seed, self.conf, self.faults, self.alarm, self.tcp = id, n, seed, dict(conf or {}), faults, alarm, tcp
        self.prog = [[] for _ in range(n)]; self.lines = []; self.steps = []; self.env = {"LAIK_BACKEND": "tcp"}
        self.meta = meta or {"feats": []}
        self.comm = [{0: tuple(range(n))} for _ in range(n)]   # of each process: name -> members
        self.names = 1
    def op(self, p, w, text, **k):
        o = dict(DEF); o.update(k); o["w"] = w; o["p"] = p
        self.prog[p].append(o); self.steps.append({"op": "mm " + w}); self.lines.append("%d %s %s" % (p, w, text))
    def send(self, p, c, a, tag, t, n, v): self.op(p, "send", "%d %d %d %s %d %s" % (c, a, tag, t, n, ":".join(map(str, v))), c=c, a=a, tag=tag, t=t, n=n, v=v)
    def recv(self, p, c, a, tag, t, n): self.op(p, "recv", "%d %d %d %s %d" % (c, a, tag, t, n), c=c, a=a, tag=tag, t=t, n=n)
    def bcast(self, p, c, a, t, n, v): self.op(p, "bcast", "%d %d %s %d %s" % (c, a, t, n, ":".join(map(str, v))), c=c, a=a, t=t, n=n, v=v)
    def red(self, p, c, a, t, o, n, ip, v):
        w = "allred" if a < 0 else "reduce"; a = max(a, 0)
        self.op(p, w, "%d %d %s %s %d %d %s" % (c, a, t, o, n, ip, ":".join(map(str, v))), c=c, a=a, t=t, o=o, n=n, ip=ip, v=v)
    def bar(self, p, c): self.op(p, "bar", "%d" % c, c=c)
    def split(self, p, c, nw, col, hint): self.op(p, "split", "%d %d %d %d" % (c, nw, col, hint), c=c, nw=nw, a=col, b=hint)
    def dup(self, p, c, nw): self.op(p, "dup", "%d %d" % (c, nw), c=c, nw=nw)
    def name(self, p): self.op(p, "name", "")
    def sleep(self, p, ms): self.op(p, "sleep", "%d" % ms, n=ms)
    # all members of a communicator
    def allsplit(self, c, mem, args):
        """args: (colour, hint) of each member"""
        nw = self.names; self.names += 1
        for p, (col, h) in zip(mem, args): self.split(p, c, nw, col, h)
        for k, p in enumerate(mem):
            col = args[k][0]
            self.comm[p][nw] = (p,) if col == -1 else tuple(x for _, _, x in sorted((args[j][1], j, q) for j, q in enumerate(mem) if args[j][0] == col))
        return nw
    def alldup(self, c, mem):
        nw = self.names; self.names += 1
        for p in mem: self.dup(p, c, nw); self.comm[p][nw] = mem
        return nw
    def text(self): return "# %s n %d seed %d conf %s faults %s alarm %d tcp %d\n" % (self.id, self.n, self.seed, self.conf, self.faults, self.alarm, self.tcp) + "".join(l + "\n" for l in self.lines)
    def merge(self, out): return {"id": self.id, "n": self.n, "end": out["end"], "ev": out["ev"], "prog": self.prog, "obs": [[dict(OBS, **o) for o in p] for p in out["obs"]]}

def start(s, wd, k, hang):
    """-> output"""
    d = os.path.join(wd, "m%d" % k); os.makedirs(d, exist_ok=True)
    pf = os.path.join(d, "prog"); open(pf, "w").write("".join(l + "\n" for l in s.lines))
    cf = os.path.join(d, "conf"); of = os.path.join(d, "out")
    for r in range(s.n):
        if os.path.exists(of + ".%d" % r): os.unlink(of + ".%d" % r)
    u = (os.getpid() * 4096 + k) * 8
    if s.tcp: adr = ["127.%d.%d.%d %d" % (1 + (u >> 16 & 127), u >> 8 & 255, (u & 255) + r, 7411) for r in range(s.n)]
    else: adr = ["laikmm-%d-%d-%s-%d" % (os.getpid(), k, s.id, r) for r in range(s.n)]
    open(cf, "w").write("[addresses]\n" + "".join("r%d = %s\n" % (r, a) for r, a in enumerate(adr)) + "[general]\n" + "".join("%s = %s\n" % kv for kv in s.conf.items()))
    env = {v: x for v, x in os.environ.items() if not v.startswith(("LAIK_", "OMPI_", "PMI_", "MM_"))}
    env.update(ASAN_OPTIONS=run.ASAN, LAIK_TCP_CONFIG=cf, MM_FAULTS=" ".join(map(str, s.faults)), MM_BASE=str(int(time.clock_gettime(time.CLOCK_MONOTONIC)) * 10**6))
    if s.alarm: env["MM_ALARM"] = "1"
    ps = []
    for r in range(s.n):
        env["MM_SEED"] = str(s.seed + 7 * r)
        ps.append(subprocess.Popen([os.path.join(run.B, "mmvm"), pf, of], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True))
    diag = [b""] * s.n
    def drain(r): diag[r] = ps[r].stderr.read()
    ts = [threading.Thread(target=drain, args=(r,)) for r in range(s.n)]
    for t in ts: t.start()
    end = "ok"; t0 = time.time()
    while True:
        rc = [p.poll() for p in ps]
        if any(x not in (None, 0) for x in rc): end = "crash"; break
        if all(x == 0 for x in rc): break
        if time.time() - t0 > hang: end = "hang"; break
        time.sleep(.002)
    for p in ps:
        if p.poll() is None: p.kill()
        p.wait()
    for t in ts: t.join()
    obs = [[] for _ in range(s.n)]
    for r in range(s.n):
        if os.path.exists(of + ".%d" % r):
            for l in open(of + ".%d" % r):
                try: obs[r].append(json.loads(l))
                except ValueError: pass
    dg = "".join("process %d (rc %s): %s\n" % (r, ps[r].returncode, diag[r].decode(errors="replace")[-1500:]) for r in range(s.n) if diag[r] or ps[r].returncode)
    return {"id": s.id, "end": end, "ev": [], "obs": obs, "diag": dg}

def sim(scns, wd):
    hangs = [0]; res = {}
    def one(k):
        s = scns[k]
        if hangs[0] >= 3: return {"id": s.id, "end": "skipped", "ev": [], "obs": [[] for _ in range(s.n)], "diag": ""}
        o = start(s, wd, k, 40)
        if o["end"] == "hang": hangs[0] += 1
        return o
    with ThreadPoolExecutor(max(2, run.JOBS - 1)) as ex:
        for o in ex.map(one, range(len(scns))): res[o["id"]] = o
    return res

# ---- generation
def values(rng, t, o, k):
    if o == "prod": c = [0, 1, 1, 2] if t[0] == "u" else [-2, -1, 0, 1, 1, 2]
    elif o in ("land", "lor"): c = [0, 0, 1, 2]
    elif o in ("band", "bor"): c = list(range(0, 16)) + [0, 15, 31, 64]
    elif t[0] == "u" or o is None and rng.random() < .3: c = list(range(0, 20)) + [40]
    else: c = list(range(-20, 20))
    v = [rng.choice(c) for _ in range(k)]
    if o is None and rng.random() < .2 and t in ("int32", "int64", "double", "uint32", "uint64"): v[0] = rng.choice([10**6, 2**30, 2**31 - 1 - 2**20])
    return v

def config(rng):
    c = {"receive_attempts": 1000000, "send_attempts": 1000000, "receive_delay": rng.choice([.005, .01, .02]), "receive_timeout": rng.choice([0, 0, .003, .05]), "send_delay": rng.choice([.002, .01])}
    f = []
    if rng.random() < .5: c["inbox_size"] = rng.choice([0, 1, 8, 40, 300, -1]); f.append("inbox %d" % c["inbox_size"])
    if rng.random() < .4: c["outbox_size"] = rng.choice([0, 1, 8, 40, 300, -1]); f.append("outbox %d" % c["outbox_size"])
    if rng.random() < .5: c["client_threads"] = rng.choice([1, 1, 2, 3]); f.append("client threads")
    if rng.random() < .5: c["server_threads"] = rng.choice([1, 1, 2, 3]); f.append("server threads")
    if rng.random() < .4: c["client_connections"] = rng.choice([0, 1, 2]); f.append("client connections")
    if rng.random() < .4: c["server_connections"] = rng.choice([0, 1, 2]); f.append("server connections")
    if rng.random() < .3: c["socket_backlog"] = rng.choice([0, 1, 2]); f.append("backlog")
    # all send before anybody receives: needs room in the outbox
    if rng.random() < .5 and c.get("outbox_size", -1) == -1: c["minimpi_async_split"] = "false"; f.append("split not asynchronous")
    return c, f

def slow(conf, fl):
    # a receiver asks again and again: not faster than it gets answers
    fl[3] = min(fl[3], 12)
    if fl[3] or fl[0] > 20 or fl[1] > 15: conf["receive_delay"] = .06

def scenario(rng, k, big=False):
    n = rng.choice([2, 2, 3, 3, 4, 5] + ([6, 7] if big else []))
    conf, f = config(rng)
    fl = [0] * 5
    for i, (ch, hi) in enumerate([(.4, 60), (.3, 30), (.3, 40), (.4, 30), (.25, 20)]):
        if rng.random() < ch: fl[i] = rng.randint(1, hi); f.append(["partial transfers", "spurious EAGAIN", "refused connections", "delays", "interrupted polls"][i])
    slow(conf, fl)
    s = Mini("mm%d" % k, n, seed=rng.randint(1, 10**6), conf=conf, faults=fl, alarm=rng.random() < .15, tcp=rng.random() < .25)
    f.append("TCP" if s.tcp else "unix sockets")
    if s.alarm: f.append("signals")
    reorder = conf.get("outbox_size", -1) == -1
    pend = []     # receives not yet in the program: (p, args)
    def flush(prob):
        """in any order which keeps the order of each flow"""
        rng.shuffle(pend)
        seen = set(); keep = []
        order = sorted(pend, key=lambda x: x[-1])   # order of sending
        pick = [x for x in pend if rng.random() < prob]
        for x in pick:
            key = x[:4]
            for y in [y for y in order if y[:4] == key and y[-1] <= x[-1] and y in pend]:
                pend.remove(y); s.recv(*y[:-1])
    cnt = 0; types = rng.sample(TYPES, 3); t0 = rng.choice([0, 0, 1, -1, rng.getrandbits(31)]); bit = rng.randrange(31)
    tags = [t0, t0, t0, t0 ^ 1 << bit, t0 ^ 1 << rng.randrange(31), rng.choice([0, 1, 5, -3])]
    for _ in range(rng.randint(4, 14) if not big else rng.randint(6, 30)):
        p0 = rng.randrange(n); c = rng.choice(list(s.comm[p0])); mem = s.comm[p0][c]
        w = rng.choice(["p2p"] * 5 + ["bcast", "reduce", "reduce", "allred", "bar", "split", "split", "dup", "sleep"])
        t = rng.choice(types); m = rng.choice([0, 1, 1, 2, 3, 7] + ([200, 9000] if rng.random() < .2 else [])); tag = rng.choice(tags)
        if w == "p2p" and reorder and len(mem) > 1 and rng.random() < .35:
            # several at once between two, with different tags, received in any order
            a, b = rng.sample(range(len(mem)), 2); many = rng.sample(range(31), 4); many = [t0 ^ 1 << j for j in many] + [t0]
            if any(y[0] == mem[b] and y[1] == c and y[2] == a and y[3] in many for y in pend): continue
            f.append("many tags")
            for j, tag in enumerate(many): s.send(mem[a], c, b, tag, t, 1, [10 + j])
            rng.shuffle(many)
            for tag in many: s.recv(mem[b], c, a, tag, t, 1)
            continue
        if w == "p2p":
            if len(mem) < 2: continue
            a, b = rng.sample(range(len(mem)), 2)
            for _ in range(rng.choice([1, 1, 2, 4])):
                mm = max(0, m - rng.choice([0, 0, 0, 1])); cnt += 1
                s.send(mem[a], c, b, tag, t, mm, values(rng, t, None, rng.randint(1, 3)))
                room = mm + rng.choice([0, 0, 0, 3, -1]); room = max(room, 0)
                if reorder and rng.random() < .5: pend.append((mem[b], c, a, tag, t, room, cnt))
                elif any(y[:4] == (mem[b], c, a, tag) for y in pend): pend.append((mem[b], c, a, tag, t, room, cnt))
                else: s.recv(mem[b], c, a, tag, t, room)
        elif w == "bcast":
            r = rng.randrange(len(mem)); v = values(rng, t, None, 2)
            for p in mem: s.bcast(p, c, r, t, m, v)
        elif w in ("reduce", "allred"):
            o = rng.choice(OPS[:6] if t in ("double", "float") else OPS); r = -1 if w == "allred" else rng.randrange(len(mem))
            for p in rng.sample(mem, len(mem)): s.red(p, c, r, t, o, m, rng.randint(0, 1), values(rng, t, o, 2))
        elif w == "bar":
            for p in mem: s.bar(p, c)
        elif w == "split":
            cols = rng.choice([[0], [0, 1], [0, 0, -1], [0, 1, 2, -1], [7]]); hint = rng.choice([lambda j: 0, lambda j: j, lambda j: -j, lambda j: rng.randint(-3, 3), lambda j: rng.choice([2**31 - 1, -2**31 + 1, 0, 5])])
            s.allsplit(c, mem, [(rng.choice(cols), hint(j)) for j in range(len(mem))])
        elif w == "dup": s.alldup(c, mem)
        else: s.sleep(p0, rng.choice([1, 5, 30]))
        if rng.random() < .1: s.name(p0)
        if rng.random() < .4: flush(.5)
    flush(1)
    s.meta = {"feats": f + ["%d processes" % n]}
    return s

def history(rng, id, h):
    """a program of MiniScripts, with values as written there; afterwards all communicators are used at once"""
    n = 3; conf, f = config(rng)
    fl = [0] * 5
    if rng.random() < .3: fl[rng.randrange(5)] = rng.randint(1, 30)
    reorder = conf.get("outbox_size", -1) == -1
    if not reorder and any(x["w"] == "recv" and h[k - 1]["w"] != "send" for k, x in enumerate(h)): conf.pop("outbox_size"); reorder = True
    if not reorder and any(x["w"] == "send" and h[k + 1]["w"] != "recv" for k, x in enumerate(h)): conf.pop("outbox_size"); reorder = True
    slow(conf, fl)
    s = Mini(id, n, seed=rng.randint(1, 10**6), conf=conf, faults=fl, meta={"feats": f + ["program of MiniScripts"]})
    t = rng.choice(TYPES); t = "int32" if t == "int8" else t
    t0 = rng.getrandbits(31); t1 = t0 ^ 1 << rng.randrange(31)
    for x in h:
        q = [dict(y, tag=[t0, t1][y["tag"]]) if "tag" in y and y["tag"] in (0, 1) else y for y in x["q"]]; o = q[0]
        if x["w"] == "split": s.allsplit(o["c"], [y["p"] for y in q], [(y["a"], y["b"]) for y in q]); assert s.names == o["nw"] + 1
        elif x["w"] == "dup": s.alldup(o["c"], tuple(y["p"] for y in q))
        elif x["w"] == "send": s.send(o["p"], o["c"], o["a"], o["tag"], t, 1, o["v"])
        elif x["w"] == "recv": s.recv(o["p"], o["c"], o["a"], o["tag"], t, 1)
        elif x["w"] == "bcast":
            for y in q: s.bcast(y["p"], o["c"], o["a"], t, 1, y["v"])
        else:
            for y in q: s.red(y["p"], o["c"], -1, t, o["o"], 1, rng.randint(0, 1), y["v"])
    for p in range(n):
        for q in range(n):
            both = [c for c in s.comm[p] if c in s.comm[q] and s.comm[p][c] == s.comm[q][c] and q in s.comm[p][c] and p in s.comm[p][c]]
            if p == q: continue
            for k, c in enumerate(both):
                s.send(p, c, s.comm[p][c].index(q), 0, t, 2, [k + 1, 100 + p])
                if not reorder: s.recv(q, c, s.comm[p][c].index(p), 0, t, 2)
            if reorder:
                for c in reversed(both): s.recv(q, c, s.comm[p][c].index(p), 0, t, 2)
    for c in sorted({c for p in range(n) for c in s.comm[p]}, reverse=True):
        for mem in sorted({s.comm[p][c] for p in range(n) if c in s.comm[p]}):
            for p in mem: s.red(p, c, -1, t, "max", 1, 0, [10 * c + p])
    return s

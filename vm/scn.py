"""Scenarios: a list of collective steps, as text for the interpreter (laikvm.c) and as
records for the validators (Trace*.tla)."""
import json, re

PART0 = {"has": 0, "all": [], "rc": 0, "mc": 0, "my": [], "mr": [], "me": -1, "q": [0, 0, 0]}
ES = {"char": 1, "uchar": 1, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "float": 4, "double": 8}
FLOWS = ("none", "pres", "init")

def ent(e):
    return {"t": e[0], "g": e[1], "m": e[2], "r": e[3:]}

def n_part(o):
    if not isinstance(o, dict) or "all" not in o: return dict(PART0)
    o = dict(o)
    o["all"] = [ent(e) for e in o["all"]]
    o["my"] = [ent(e) for e in o["my"]]
    if not o["q"]: o["q"] = [0, 0, 0]
    return o

def n_plan(o):
    if o is None: return {"nil": 1, "l": [], "i": [], "s": [], "r": [], "x": []}
    return {"nil": o["nil"],
            "l": [{"f": e[0], "t": e[1], "r": e[2:]} for e in o["l"]],
            "i": [{"m": e[0], "o": e[1], "r": e[2:]} for e in o["i"]],
            "s": [{"m": e[0], "p": e[1], "r": e[2:]} for e in o["s"]],
            "r": [{"m": e[0], "p": e[1], "r": e[2:]} for e in o["r"]],
            "x": o["x"]}

def n_rd(o):
    return [] if o is None else [{"m": e[0], "r": e[1], "v": e[2]} for e in o]

def n_line(h):
    """a line of log output, taken apart"""
    t = bytes.fromhex(h).decode("latin1")
    r = {"h": "?", "k": 0, "ctr": -1, "loc": -1, "n": -1, "ln": -1, "us": -1, "lv": 0, "i": 0, "w": [t]}
    m = re.match(r"(==|\.\.) (?:LAIK-(\d{4,})-L(\d\d+) (\d{4,})\.(\d\d+) ([ \d]\d):(\d\d\.\d{3}) \| |L(\d\d+) \| )?(.*)$", t, re.S)
    if not m: return r
    r["h"] = m.group(1); rest = m.group(9)
    if m.group(2) is not None:
        r.update(k=2, ctr=int(m.group(2)), loc=int(m.group(3)), n=int(m.group(4)), ln=int(m.group(5)), us=int(m.group(6)) * 60000000 + int(round(float(m.group(7)) * 1e6)))
    elif m.group(8) is not None: r.update(k=1, loc=int(m.group(8)))
    m = re.match(r"(Warning|ERROR  |       ): (.*)$", rest, re.S)
    if m: r["lv"] = {"Warning": 3, "ERROR  ": 4, "       ": 9}[m.group(1)]; rest = m.group(2)
    r["i"] = len(rest) - len(rest.lstrip(" ")); r["w"] = rest.split()
    return r
def n_pline(h):
    t = bytes.fromhex(h).decode("latin1")
    if t.startswith("======MEASUREMENT START AT: ") and t.endswith("======"): return ["start"]
    if t.startswith("======MEASUREMENT END AT: ") and t.endswith("======"): return ["end"]
    if t.startswith("======Application ") and t.endswith("======"): return ["app"]
    m = re.match(r"(\S*), (-?\d+), (-?\d+), (-?\d+\.\d+), (-?\d+\.\d+), (-?\d+\.\d+)$", t)
    if m: return ["rec", m.group(1), m.group(2), m.group(3)] + [str(int(round(float(m.group(k)) * 1e6))) for k in (4, 5, 6)]
    return ["text", t]

NORM = {
    "log": lambda o: {"c": o["c"], "l": [n_line(x) for x in o["l"]]} if o else {"c": 0, "l": []},
    "lsh": lambda o: o or [], "itg": lambda o: o or [], "pen": lambda o: o or [0, 0], "pfile": lambda o: o or [0, 0], "prs": lambda o: o or [0, 0],
    "pwr": lambda o: o or [0, 0], "pq": lambda o: o or [-1, -1, 0, 0], "pus": lambda o: 0 if o is None else o,
    "pfget": lambda o: [n_pline(x) for x in o] if o else [],
    "grp": lambda o: o or {"n": -1, "me": -1, "loc": [], "id": -1, "par": -1, "par2": -1, "tp": [], "fp": [], "tp2": [], "fp2": []},
    "rsz": lambda o: o or {"n": -1, "me": -1, "loc": [], "id": -1, "par": -1, "par2": -1, "tp": [], "fp": [], "tp2": [], "fp2": [], "epoch": -1, "phase": -1, "lid": -1},
    "wst": lambda o: o or [],
    "space": lambda o: o or [],
    "jpart": n_part, "part": n_part, "dp": n_part, "mig": n_part, "swn": n_part,
    "inter": lambda o: {"a": [ent(e) for e in o["a"]], "b": [ent(e) for e in o["b"]]} if o else {"a": [], "b": []},
    "peq": lambda o: -1 if o is None else o,
    "tr": n_plan, "rd": n_rd,
    "chs": lambda o: o or [], "rng": lambda o: o or [], "g2l": lambda o: o or [],
    "lo": lambda o: o or [], "pk": lambda o: o or {"m": -1, "r": [], "c": []}, "unpk": lambda o: o or {"m": -1, "r": [], "c": []}, "lcp": lambda o: o or [],
    "mm": lambda o: o or {"al": [], "mp": []}, "prov": lambda o: -1 if o is None else o, "sst": lambda o: o or {"st": [0] * 25, "re": [0] * 16},
    "ssa": lambda o: o or {"l": [], "s": [0] * 25},
    "spget": lambda o: o or [], "spq": lambda o: o or [], "locsync": lambda o: o or "-", "locget": lambda o: o or [],
    "agld": lambda o: -1 if o is None else o, "agq": lambda o: o or {"n": -1, "r": [], "left": []}, "agcl": lambda o: o or [1, 1, 1], "agfin": lambda o: o or [1, 1, 1],
    "kget": lambda o: o or [], "krem": lambda o: -1 if o is None else o, "ksync": lambda o: o or {"calls": [], "dump": []},
    "tq": lambda o: [dict(e, r=[ent(x) for x in e["r"]], m=[[ent(x) for x in y] for y in e["m"]]) for e in o] if o else [],
}

class Scn:
    def __init__(self, id, n, seed=1, mode=1, env=None, calls=0, backend="mpi", meta=None):
        self.id, self.n, self.seed, self.mode, self.calls = id, n, seed, mode, calls
        self.env = dict(env or {})
        self.lines, self.steps = [], []
        self.backend = backend
        self.meta = meta or {}
        self.mem = list(range(n)); self.loc = list(range(n))
        self.extra = {}        # further scenario-level fields for the validators
        self.join = 0          # how many processes may join; > 0 or dyn: the world may change
        self.dyn = False

    def step(self, rec, text, who=None):
        who = list(range(self.n + self.join)) if who is None else sorted(who)
        k = len(self.steps) + 1
        rec = dict(rec); rec["n"] = k; rec["who"] = who
        self.steps.append(rec)
        mask = sum(1 << w for w in who)
        self.lines.append("%d %x %s" % (k, mask, text))
        return k

    # --- operations
    def world(self, g, who=None): return self.step({"op": "grp", "g": g, "k": "world", "a": -1, "b": -1, "ranks": []}, "grp %d world" % g, who)
    def clone(self, g, a, who=None): return self.step({"op": "grp", "g": g, "k": "clone", "a": a, "b": -1, "ranks": []}, "grp %d clone %d" % (g, a), who)
    def shrink(self, g, a, ranks, who=None):
        return self.step({"op": "grp", "g": g, "k": "shrink", "a": a, "b": -1, "ranks": list(ranks)}, "grp %d shrink %d %d %s" % (g, a, len(ranks), " ".join(map(str, ranks))), who)
    def union(self, g, a, b, who=None): return self.step({"op": "grp", "g": g, "k": "union", "a": a, "b": b, "ranks": []}, "grp %d union %d %d" % (g, a, b), who)
    def space(self, s, r, org=(0, 0, 0), who=None):
        d = len(r) // 2
        return self.step({"op": "space", "s": s, "r": list(r)}, "space %d %d %d %d %d %s" % (s, d, *org, " ".join(map(str, r))), who)
    def _kind(self, kind):
        """kind: tuple (name, args..) as understood by mkPartitioner -> (spec fields, text)"""
        k, a = kind[0], list(kind[1:])
        if k == "list":
            flags, raw = a
            t = "list %d %d %s" % (flags, len(raw), " ".join("%d %d %s" % (t, g, " ".join(map(str, r))) for t, g, r in raw))
            return {"kind": "list", "kp": [], "flags": flags, "raw": [{"t": t, "g": g, "m": 0, "r": list(r)} for t, g, r in raw]}, t
        f = {"kind": k, "kp": a, "flags": 0, "raw": []}
        t = " ".join([k] + [str(x) for x in a])
        if k in ("all2", "master2"): f["kind"] = k[:-1]
        if k == "block1": f["kind"], f["kp"] = "block", [0, 1, 0, 0]
        if k == "blocki": f["kind"], f["kp"] = "block", [0, 1, a[0], 0]
        if k == "blockt": f["kind"], f["kp"] = "block", [0, 1, 0, a[0]]
        return f, t
    def part(self, p, s, g, kind, ot=-1, mode="full", who=None):
        f, t = self._kind(kind)
        rec = {"op": "part", "p": p, "s": s, "g": g, "ot": ot, "src": "obs" if mode != "lazy" else "later"}
        rec.update(f)
        return self.step(rec, "part %d %d %d %d %s %s" % (p, s, g, ot, mode, t), who)
    def later(self, partstep, dpstep):
        self.steps[partstep - 1]["laterstep"] = dpstep
    def dp(self, p, who=None): return self.step({"op": "dp", "p": p}, "dp %d" % p, who)
    def mig(self, p, g, who=None): return self.step({"op": "mig", "p": p, "g": g}, "mig %d %d" % (p, g), who)
    def peq(self, p, q, who=None): return self.step({"op": "peq", "p": p, "q": q}, "peq %d %d" % (p, q), who)
    def inter(self, p, q, who=None): return self.step({"op": "inter", "p": p, "q": q}, "inter %d %d" % (p, q), who)
    def data(self, d, s, ty, acc=False, who=None): return self.step({"op": "data", "d": d, "s": s, "ty": ty, "acc": int(acc)}, "data %d %d %s%s" % (d, s, ty, " acc" if acc else ""), who)
    def sw(self, d, p, f, r, who=None): return self.step({"op": "sw", "d": d, "p": p, "f": f, "r": r}, "sw %d %d %s %s" % (d, p, f, r), who)
    def swf(self, d, f, r, who=None): return self.step({"op": "swf", "d": d, "f": f, "r": r}, "swf %d %s %s" % (d, f, r), who)
    def swn(self, d, p, g, kind, f, r, who=None):
        fl, t = self._kind(kind)
        rec = {"op": "swn", "d": d, "p": p, "g": g, "f": f, "r": r, "ot": -1, "src": "later"}
        rec.update(fl)
        return self.step(rec, "swn %d %d %d %s %s %s" % (d, p, g, f, r, t), who)
    def initp(self, d, p, who=None): return self.step({"op": "initp", "d": d, "p": p}, "initp %d %d" % (d, p), who)
    def wr(self, d, mode, seed, who=None): return self.step({"op": "wr", "d": d, "mode": mode, "seed": seed}, "wr %d %d %d" % (d, mode, seed), who)
    def rd(self, d, who=None): return self.step({"op": "rd", "d": d}, "rd %d" % d, who)
    def tr(self, t, s, p, q, f, r, who=None): return self.step({"op": "tr", "t": t, "s": s, "p": p, "q": q, "f": f, "r": r}, "tr %d %d %d %d %s %s" % (t, s, p, q, f, r), who)
    def xt(self, d, t, who=None): return self.step({"op": "xt", "d": d, "t": t}, "xt %d %d" % (d, t), who)
    def res(self, r, d, ps, who=None): return self.step({"op": "res", "r": r, "d": d, "ps": list(ps)}, "res %d %d %d %s" % (r, d, len(ps), " ".join(map(str, ps))), who)
    def ures(self, d, r, who=None): return self.step({"op": "ures", "d": d, "r": r}, "ures %d %d" % (d, r), who)
    def fres(self, r, who=None): return self.step({"op": "fres", "r": r}, "fres %d" % r, who)
    def ca(self, a, d, t, r1=-1, r2=-1, who=None): return self.step({"op": "ca", "a": a, "d": d, "t": t, "r1": r1, "r2": r2}, "ca %d %d %d %d %d" % (a, d, t, r1, r2), who)
    def xa(self, a, who=None): return self.step({"op": "xa", "a": a}, "xa %d" % a, who)
    def fa(self, a, who=None): return self.step({"op": "fa", "a": a}, "fa %d" % a, who)
    def ftr(self, t, who=None): return self.step({"op": "ftr", "t": t}, "ftr %d" % t, who)
    def fp(self, p, who=None): return self.step({"op": "fp", "p": p}, "fp %d" % p, who)
    def fd(self, d, who=None): return self.step({"op": "fd", "d": d}, "fd %d" % d, who)
    def fin(self, who=None): return self.step({"op": "fin"}, "fin", who)
    def chs(self, s, r, who=None): return self.step({"op": "chs", "s": s, "r": list(r)}, "chs %d %s" % (s, " ".join(map(str, r))), who)
    def tq(self, p, tids, who=None): return self.step({"op": "tq", "p": p, "tids": list(tids)}, "tq %d %d %s" % (p, len(tids), " ".join(map(str, tids))), who)
    def g2l(self, d, idx, who=None): return self.step({"op": "g2l", "d": d, "idx": list(idx)}, "g2l %d %d %s" % (d, len(idx), " ".join(map(str, idx))), who)
    def rng(self, s, pairs, who=None): return self.step({"op": "rng", "s": s, "pairs": [list(map(list, p)) for p in pairs]}, "rng %d %d %s" % (s, len(pairs), " ".join(" ".join(map(str, r)) for p in pairs for r in p)), who)
    def kvs(self, k, name, cb=1, who=None): return self.step({"op": "kvs", "k": k}, "kvs %d %s %d" % (k, name, cb), who)
    def kset(self, k, w, key, val): return self.step({"op": "kset", "k": k, "key": key, "val": val}, "kset %d %s %s" % (k, key or "=", val), [w])
    def krem(self, k, w, key, how=0): return self.step({"op": "krem", "k": k, "key": key}, "krem %d %d %s" % (k, how, key or "="), [w])
    def kclean(self, k, w): return self.step({"op": "kclean", "k": k}, "kclean %d" % k, [w])
    def kget(self, k, keys, who=None): return self.step({"op": "kget", "k": k, "keys": list(keys)}, "kget %d %d %s" % (k, len(keys), " ".join(x or "=" for x in keys)), who)
    def ksync(self, k, who=None): return self.step({"op": "ksync", "k": k}, "ksync %d" % k, who)
    def setlay(self, d, lay, who=None): return self.step({"op": "lay", "d": d, "lay": lay}, "lay %d %d" % (d, lay), who)
    def lo(self, d, ty, lay=0, who=None): return self.step({"op": "lo", "d": d, "es": ES[ty], "lay": lay}, "lo %d" % d, who)
    def pk(self, d, ty, part, chunks, un=False, seed=0, who=None):
        op = "unpk" if un else "pk"
        return self.step({"op": op, "d": d, "es": ES[ty], "seed": seed}, "%s %d %s %d %d %s" % (op, d, " ".join(map(str, part)), seed, len(chunks), " ".join(map(str, chunks))), who)
    def lcp(self, d, e, part, who=None): return self.step({"op": "lcp", "d": d, "e": e}, "lcp %d %d %s" % (d, e, " ".join(map(str, part))), who)
    def mm(self, who=None): return self.step({"op": "mm"}, "mm", who)
    def prov(self, d, n, who=None): return self.step({"op": "prov", "d": d}, "prov %d %d" % (d, n), who)
    def sst(self, d, who=None): return self.step({"op": "sst", "d": d}, "sst %d" % d, who)
    def ssa(self, ds, who=None): return self.step({"op": "ssa"}, "ssa %d %s" % (len(ds), " ".join(map(str, ds))), who)
    def spset(self, s, name, who=None): return self.step({"op": "spset", "s": s, "name": name}, "spset %d %s" % (s, name), who)
    def spget(self, s, name, org=(0, 0, 0), who=None): return self.step({"op": "spget", "s": s, "name": name}, "spget %d %s %d %d %d" % ((s, name) + tuple(org)), who)
    def spq(self, s, who=None): return self.step({"op": "spq", "s": s}, "spq %d" % s, who)
    def spsync(self, who=None): return self.step({"op": "spsync"}, "spsync", who)
    def locsync(self, who=None): return self.step({"op": "locsync"}, "locsync", who)
    def locget(self, g, who=None): return self.step({"op": "locget", "g": g}, "locget %d" % g, who)
    # --- observing
    def log(self, lvl, mode, pieces, who=None):
        """mode 0: laik_log; 1: begin/append../flush; 2: last piece with flush; 3: as 1, also if nothing is to be logged"""
        ls = "".join(pieces).split("\n")
        if ls and ls[-1] == "": ls.pop()
        msg = [{"i": len(x) - len(x.lstrip(" ")), "w": x.split()} for x in ls]
        return self.step({"op": "log", "l": lvl, "msg": msg}, "log %d %d %d %s" % (lvl, mode, len(pieces), " ".join(x.encode().hex() or "=" for x in pieces)), who)
    def lset(self, l, who=None): return self.step({"op": "lset", "l": l}, "lset %d" % l, who)
    def lsh(self, who=None): return self.step({"op": "lsh"}, "lsh", who)
    def its(self, i, who=None): return self.step({"op": "its", "i": i}, "its %d" % i, who)
    def itr(self, who=None): return self.step({"op": "itr"}, "itr", who)
    def phs(self, p, k, who=None): return self.step({"op": "phs", "p": p, "k": k}, "phs %d %d" % (p, k), who)
    def itg(self, who=None): return self.step({"op": "itg"}, "itg", who)
    def tick(self, us, who=None): return self.step({"op": "tick", "us": us}, "tick %d" % us, who)
    def pen(self, on, who=None): return self.step({"op": "pen", "on": on}, "pen %d" % on, who)
    def pfile(self, k, who=None): return self.step({"op": "pfile", "f": k}, "pfile %d" % k, who)
    def prs(self, who=None): return self.step({"op": "prs"}, "prs", who)
    def pus(self, on, who=None): return self.step({"op": "pus", "on": on}, "pus %d" % on, who)
    def pq(self, who=None): return self.step({"op": "pq"}, "pq", who)
    def pwr(self, who=None): return self.step({"op": "pwr"}, "pwr", who)
    def ppr(self, text, who=None): return self.step({"op": "ppr", "t": text + " 42"}, "ppr %s" % text.encode().hex(), who)
    def pcl(self, who=None): return self.step({"op": "pcl"}, "pcl", who)
    def pfget(self, k, who=None): return self.step({"op": "pfget", "f": k}, "pfget %d" % k, who)
    # --- agents
    def agini(self, who=None): return self.step({"op": "agini"}, "agini", who)
    def agld(self, a, kind, lib, who=None): return self.step({"op": "agld", "a": a, "kind": kind}, "agld %d %d %d" % (a, {"ft": 0, "flag": 1, "def": 2, "prof": 3, "simple": 0}[kind], lib), who)
    def agrep(self, a, names, who=None): return self.step({"op": "agrep", "a": a, "names": list(names)}, "agrep %d %d %s" % (a, len(names), " ".join(names)), who)
    def agit(self, a, it, who=None): return self.step({"op": "agit", "a": a, "it": it}, "agit %d %d" % (a, it), who)
    def agq(self, mx, who=None): return self.step({"op": "agq", "max": mx}, "agq %d" % mx, who)
    def agcl(self, who=None): return self.step({"op": "agcl"}, "agcl", who)
    def agfin(self, who=None): return self.step({"op": "agfin"}, "agfin", who)
    # --- changing world: al: steps joining processes do first as well
    def spawn(self, sure): return self.step({"op": "spawn", "sure": int(sure)}, "spawn %d" % sure, [0])
    def cutoff(self, lids, pattern, sure=1, close=1, times=1): return self.step({"op": "cutoff", "lids": sorted(lids), "sure": int(sure)}, "outside %d %d %s" % (close, 0 if sure else 1, ("cutoff %s\n" % pattern).encode().hex() * times), [0])
    def early(self, text, close=1, lazy=0): self.env["SIM_EARLY%d" % len(self.env)] = "%d %d %s" % (close, lazy, text.encode().hex()) # while the world starts
    def ecutoff(self, lids, pattern, sure=1, close=1):
        self.early("cutoff %s\n" % pattern, close, 0 if sure else 1)
        return self.step({"op": "cutoff", "lids": sorted(lids), "sure": int(sure)}, "nop", [0])
    def more(self): # one more process started at the beginning
        self.env["SIM_MORE"] = str(int(self.env.get("SIM_MORE", 0)) + 1)
        return self.step({"op": "spawn", "sure": 0}, "nop", [0])
    def outside(self, text, close=1, lazy=0): return self.step({"op": "outside"}, "outside %d %d %s" % (close, lazy, text.encode().hex()), [0])
    def rsz(self, g, old, ph=None): # phase: different for every resize
        if ph is None: ph = 100 + len(self.steps)
        return self.step({"op": "rsz", "g": g, "old": old, "ph": ph}, "rsz %d %d %d" % (g, old, ph))
    def frz(self): return self.step({"op": "frz"}, "frz")
    def lv(self, g): return self.step({"op": "lv", "g": g}, "lv %d" % g)
    def wst(self): return self.step({"op": "wst"}, "wst")
    def al(self): a, b, c = self.lines[-1].split(" ", 2); self.lines[-1] = "%s %s al:%s" % (a, b, c)
    def jpart(self, p, s, g, kind, ot=-1):
        f, t = self._kind(kind)
        rec = {"op": "jpart", "p": p, "s": s, "g": g, "ot": ot}; rec.update(f)
        return self.step(rec, "jn:part %d %d %d %d full %s" % (p, s, g, ot, t))
    def jinitp(self, d, p): return self.step({"op": "jinitp", "d": d, "p": p}, "jn:initp %d %d" % (d, p))
    def raw(self, op, text, who=None, **rec):
        rec["op"] = op
        return self.step(rec, text, who)

    def text(self):
        return "\n".join(["SCEN %s %d %d %d %d %d" % (self.id, self.n, self.seed, self.mode, self.calls, self.join)] +
                         ["ENV %s %s" % kv for kv in self.env.items()] + self.lines + ["END"]) + "\n"

    def merge(self, out):
        """record for the validator from the output of a run"""
        obs = out.get("obs", {})
        steps = []; slots = self.n + self.join
        for s in self.steps:
            s = dict(s)
            nf = NORM.get(s["op"])
            if s["op"] == "part" and s["src"] == "later" or s["op"] == "swn":
                lo = obs.get(str(s.pop("laterstep")), [])
                s["later"] = [n_part(lo[w] if w < len(lo) else None) for w in range(slots)]
                s["obs"] = [0] * slots
            elif nf:
                o = obs.get(str(s["n"]), [])
                s["obs"] = [nf(o[w] if w < len(o) else None) for w in range(slots)]
            else:
                s["obs"] = [0] * slots
            steps.append(s)
        r = {"id": self.id, "n": self.n, "end": out["end"], "ev": ["T%d step %d: %s" % (e["r"], e["k"], e["e"]) for e in out["ev"]],
             "mem": self.mem, "loc": self.loc + list(range(self.n, slots)), "dyn": int(self.dyn), "steps": steps}
        r.update(self.extra)
        return r

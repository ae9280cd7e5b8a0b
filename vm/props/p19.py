"""P19: message passing of the TCP backend"""
import json, os, re
from .. import mm, run
from ..ctx import Broken
TARGETS = ["mmvm"]

def c_val(rec, rng):
    xs = [o for p in rec["obs"] for o in p if o["v"]]
    if not xs: return False
    o = rng.choice(xs); i = rng.randrange(len(o["v"])); o["v"][i] += 1; return True
def c_swap(rec, rng):
    p = rng.choice(rec["obs"]); k = [i for i in range(1, len(p) - 2) if p[i]["v"] != p[i + 1]["v"]]
    if not k: return False
    i = rng.choice(k); p[i], p[i + 1] = p[i + 1], p[i]; return True
def c_rank(rec, rng):
    xs = [o for p in rec["obs"] for o in p if o["s"] > 1]
    if not xs: return False
    o = rng.choice(xs); o[rng.choice("rs")] += 1; return True
CORRUPT = [c_val, c_swap, c_rank]

def histories(c, quota, ops):
    wd = run.workdir("%s-%s-prog%d" % (c.pid, c.tier, ops)); cfg = os.path.join(wd, "MiniScripts.cfg")
    open(cfg, "w").write("CONSTANTS\n  N = 3\n  MaxOps = %d\n  MaxSplits = 2\n  Explore = FALSE\nSPECIFICATION Spec\nINVARIANTS NumbersDiffer Emit\nCHECK_DEADLOCK FALSE\n" % ops)
    rc, out = run.tlc("MiniScripts.tla", cfg, wd, "h", workers=4, timeout=800, heap="6g")
    if rc != 0: raise Broken("MiniScripts failed:\n" + out[-3000:])
    g, d = run.tlc_states(out); c.states += d; c.trans += g
    hs = sorted(set(re.findall(r'<<"HIST", "(.*)">>', out))); total = len(hs)
    # most of those in which communicators are made
    two = [h for h in hs if h.count('w\\":\\"split\\",\\"q') + h.count('w\\":\\"dup\\",\\"q') == 2]
    k = min(len(two), 2 * quota // 3)
    if total > quota: hs = sorted(c.rng.sample(two, k) + c.rng.sample(hs, quota - k))
    c.models.append({"model": "MiniScripts", "config": "%d calls, 3 processes" % ops, "distinct_states": d, "generated": g, "programs": total, "programs_replayed": len(hs)})
    return [mm.history(c.rng, "h%d-%d" % (ops, k), json.loads(h.replace('\\"', '"'))) for k, h in enumerate(hs)]

def check(c):
    c.model("MiniScripts", "MiniScripts.cfg" if c.quick else "MiniScriptsThorough.cfg", workers=2, timeout=800)
    c.model("MCMessenger", "MCMessenger.cfg" if c.quick else "MCMessengerThorough.cfg", workers=2 if c.quick else 5, timeout=800 if c.quick else 3000)
    c.model("MCMessenger", "MCMessengerLive.cfg" if c.quick else "MCMessengerLiveThorough.cfg", workers=2, timeout=800 if c.quick else 3000)
    c.run([mm.scenario(c.rng, k, not c.quick) for k in range(c.n(300, 3000))], "rand", module="TraceMini", sim=mm.sim, corrupt=CORRUPT)
    c.run(histories(c, c.n(200, 3000), 3 if c.quick else 4), "prog", module="TraceMini", sim=mm.sim, corrupt=CORRUPT)
    c.assume += ["connections are refused, or closed while no answer is under way: one which breaks while its answer is in transit loses a message (documented limit)", "no process ends in between"]

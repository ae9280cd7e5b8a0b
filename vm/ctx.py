"""What every check shares: running scenarios, having TLC validate them, confirming
rejections, known findings, the self test with corrupted records, evidence."""
import base64, copy, json, os, pickle, random, sys, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from . import run

class Found(Exception):
    """a violation is confirmed: the rest of a quick check is not run any more"""

class Broken(Exception):
    """the machinery itself failed: no verdict"""

def load_known():
    """open findings: property id -> {finding id: text}"""
    res = {}
    f = os.path.join(run.VERIF, "known-findings.txt")
    for l in open(f):
        l = l.strip()
        if l.startswith("open: "):
            parts = l[6:].split(None, 2)
            p = parts[0].split("=")[1]; i = parts[1].split("=")[1]
            res.setdefault(p, {})[i] = parts[2]
    return res

# ---- corruption of records: each returns True if it changed something
def c_value(rec, rng):
    c = [(s, o) for s in rec["steps"] if s["op"] == "rd" for o in s["obs"] for e in o if e["v"]]
    if not c: return False
    s, o = rng.choice(c)
    e = rng.choice([e for e in o if e["v"]]); k = rng.randrange(len(e["v"])); e["v"][k] += 1
    return True
def c_own(rec, rng):
    c = [o for s in rec["steps"] if s["op"] in ("part", "dp", "mig") for o in s["obs"] if isinstance(o, dict) and o["my"]]
    if not c: return False
    o = rng.choice(c)
    if rng.random() < .5: del o["my"][rng.randrange(len(o["my"]))]
    else: rng.choice(o["my"])["r"][1] += 1
    return True
def c_plan(rec, rng):
    c = [(o, k) for s in rec["steps"] if s["op"] == "tr" for o in s["obs"] for k in ("s", "r", "l", "x") if o[k]]
    if not c: return False
    o, k = rng.choice(c); i = rng.randrange(len(o[k]))
    if k == "x" or rng.random() < .5: del o[k][i]
    else: o[k][i]["r"][0] -= 1
    return True
CORRUPT = [c_value, c_own, c_plan]

class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%d-%s" % (pid, seed, tier))
        self.quick = tier == "quick"
        self.t0 = time.time()
        d = os.path.join(run.B, "replay"); os.makedirs(d, exist_ok=True)
        for f in os.listdir(d) if tier != "replay" else []:
            if f.startswith(pid + "-"): os.unlink(os.path.join(d, f))
        self.viol = []
        self.states = self.trans = self.traces = 0
        self.ops, self.feats = Counter(), Counter()
        self.samples, self.notes, self.models = [], [], []
        self.known = load_known().get(pid, {})
        self.knownseen = set()
        self.mut = [0, 0]
        self.assume = []
        self.pool = ThreadPoolExecutor(4)
        self.futs = []

    CORRUPT = CORRUPT
    def n(self, quick, thorough):
        # the large random families: as many as fit into about a minute
        if self.quick: return quick * self.MUL.get(self.pid, 4) if quick >= 100 else quick
        return thorough
    MUL = {"P07": 1, "P10": 2, "P13": 1, "P19": 1}

    # ---- trace validation
    tcp = 0
    def totcp(self, scns):
        """run part of the programs with the TCP backend instead of the MPI backend"""
        rng = random.Random(len(scns) * 1000 + self.seed)
        for s in scns:
            if rng.random() >= self.tcp or "LAIK_BACKEND" in s.env or getattr(s, "fixed", False): continue
            s.env = {k.replace("LAIK_MPI_REDUCE", "LAIK_TCP_REDUCE"): v for k, v in s.env.items() if k != "LAIK_MPI_ASYNC"}
            s.env["LAIK_BACKEND"] = "tcp"
            s.meta.setdefault("feats", []).append("tcp backend")

    def run(self, scns, label, binary="sim-mpi", module="TraceLaik", corrupt=CORRUPT, ncorrupt=6, sim=None, heap="2g", finding=None):
        """scns: scenarios. finding: scenario id -> id of the known finding it demonstrates"""
        wd = run.workdir("%s-%s-%s" % (self.pid, self.tier, label))
        sim = sim or (lambda sc, w: run.sim(sc, w, binary))
        self.totcp(scns)
        by = {s.id: s for s in scns}
        if len(by) != len(scns): raise Broken("scenario ids not unique")
        def attempt(sc, w, mut):
            out = sim(sc, w)
            miss = [s.id for s in sc if s.id not in out]
            if miss: raise Broken("no output for " + ",".join(miss[:5]))
            # after several hangs the rest was not run any more: enough to report
            sc = [s for s in sc if out[s.id]["end"] != "skipped"]
            recs = [s.merge(out[s.id]) for s in sc]
            extra = []
            if mut and corrupt:
                pool = [r for r in recs if r["end"] == "ok" and not r["ev"]]
                tries = 0
                while pool and len(extra) < ncorrupt and tries < 10 * ncorrupt:
                    tries += 1
                    r = copy.deepcopy(self.rng.choice(pool)); f = self.rng.choice(corrupt)
                    if f(r, self.rng): r["id"] = "mut%d-%s" % (len(extra), r["id"]); extra.append(r)
            V = run.validate(recs + extra, w, module, heap=heap)
            rej = {i: x for i, x in V.rejected.items() if not i.startswith("mut")}
            caught = sum(1 for i in V.rejected if i.startswith("mut"))
            lost = [s.id for s in sc if s.id not in V.done and s.id not in rej]
            if lost and not rej: raise Broken("no verdict for " + ",".join(lost[:5]))
            return V, rej, (len(extra), caught), out
        V, rej, m, out = attempt(scns, wd, True)
        self.states += V.states; self.trans += V.trans
        self.traces += sum(1 for s in scns if s.id in V.done)
        self.mut[0] += m[0]; self.mut[1] += m[1]
        for s in scns:
            if s.id in V.done:
                for st in s.steps: self.ops[st["op"]] += 1
                for f in s.meta.get("feats", ()): self.feats[f] += 1
        if len(self.samples) < 4 and scns:
            s = self.rng.choice(scns); self.samples.append({"id": s.id, "script": s.text()[:1500]})
        kf = {i: f for i, f in (finding or {}).items()}
        again = [by[i] for i in rej]
        if len(again) > 60:
            # enough to confirm; known findings are all tried again
            again = [s for s in again if s.id in kf] + self.rng.sample([s for s in again if s.id not in kf], min(40, sum(1 for s in again if s.id not in kf)))
        if again:
            wd2 = run.workdir("%s-%s-%s-again" % (self.pid, self.tier, label))
            V2, rej2, _, out2 = attempt(again, wd2, False)
            self.how = {"module": module, "binary": binary, "mini": module == "TraceMini"}
            for _ in range(2):
                # real processes: not everything comes again at once
                more = [x for x in again if x.id not in rej2]
                if not more or rej2: break
                _, r3, _, o3 = attempt(more, wd2, False)
                rej2.update(r3); out2.update(o3)
            for i in rej2:
                f = kf.get(i)
                if f is not None and f in self.known:
                    if f not in self.knownseen:
                        self.knownseen.add(f)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[f]), flush=True)
                    continue
                self.report(by[i], rej2[i], out2[i], label)
            for i in {x.id for x in again} - set(rej2): self.notes.append("rejection of %s not repeated: %s" % (i, rej[i][1]))
        if self.viol and self.quick: raise Found()
        return out, V

    def report(self, s, why, out, label):
        d = os.path.join(run.B, "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s-%s.json" % (self.pid, label, s.id))
        k, reason = why
        try: again = dict(self.how, tcls=type(s).__name__, scn=base64.b64encode(pickle.dumps({a: x for a, x in s.__dict__.items() if a != "merge"})).decode())
        except Exception: again = None
        with open(f, "w") as h:
            json.dump({"again": again, "property": self.pid, "scenario": s.id, "step": k, "why": reason, "script": s.text(),
                       "line": s.lines[k-1] if 0 < k <= len(s.lines) else "", "record": s.merge(out), "diag": out.get("diag", "")}, h, indent=1)
        self.viol.append((f, reason))
        if len(self.viol) <= 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)
            print("  %s step %d: %s" % (s.id, k, reason), flush=True)
            if out.get("diag"): print("  " + out["diag"][:600].replace("\n", "\n  "), flush=True)

    @staticmethod
    def replay(path):
        """run the scenario of a recorded violation again -> exit code"""
        import importlib
        from . import mm, scn
        r = json.load(open(path)); a = r.get("again")
        if not a:
            print(json.dumps(r, indent=1)[:6000]); return 0
        print(r["script"] + "\nrecorded: step %d: %s" % (r["step"], r["why"]))
        s = object.__new__(mm.Mini if a["mini"] else scn.Scn); s.__dict__.update(pickle.loads(base64.b64decode(a["scn"])))
        mod = importlib.import_module("vm.props." + r["property"].lower())
        run.build(*getattr(mod, "TARGETS", ["sim-mpi"]))
        c = Ctx(r["property"], "replay", 1)
        if hasattr(mod, "again"): mod.again(c, s)
        else: c.run([s], "replay", a["binary"], a["module"], corrupt=None, sim=mm.sim if a["mini"] else None)
        if not c.viol: print("not repeated")
        return 1 if c.viol else 0

    def violation(self, name, reason, payload):
        d = os.path.join(run.B, "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (self.pid, name))
        with open(f, "w") as h: json.dump({"property": self.pid, "why": reason, "payload": payload}, h, indent=1)
        self.viol.append((f, reason))
        if len(self.viol) <= 5: print("VIOLATION property=%s replay=%s\n  %s" % (self.pid, f, reason), flush=True)

    # ---- models: the specification itself has to satisfy the property
    def model(self, module, cfg=None, workers=2, env=None, args=(), timeout=600, heap="3g", expect_complete=True):
        cfg = cfg or module + ".cfg"
        def go():
            wd = run.workdir("%s-%s-model-%s" % (self.pid, self.tier, cfg.replace(".cfg", "")))
            t = time.time()
            rc, out = run.tlc(module + ".tla", cfg, wd, "m", env=env, workers=workers, args=args, timeout=timeout, heap=heap)
            return module, cfg, rc, out, time.time() - t
        self.futs.append(self.pool.submit(go))

    def finish_models(self):
        for f in self.futs:
            module, cfg, rc, out, dt = f.result()
            g, d = run.tlc_states(out)
            if rc != 0: raise Broken("model %s (%s) failed:\n%s" % (module, cfg, out[-3000:]))
            self.states += d; self.trans += g
            self.models.append({"model": module, "config": cfg, "distinct_states": d, "generated": g, "wall_s": round(dt, 1)})
        self.futs = []

    def finish(self, all=True):
        if all: self.finish_models()
        if self.mut[0] and self.mut[1] == 0: raise Broken("self test: none of %d corrupted records rejected" % self.mut[0])
        missing = [f for f in self.known if f not in self.knownseen]
        for f in missing: self.notes.append("known finding %s did not show up in this run" % f)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "samples": self.samples, "steps_by_operation": dict(self.ops), "scenarios_by_feature": dict(self.feats),
                           "models": self.models, "corrupted_records": {"tried": self.mut[0], "rejected": self.mut[1]}, "notes": self.notes[:20]},
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(run.VERIF, "evidence", self.pid + ".json"), "w") as h: json.dump(ev, h, indent=1)
        print("%s %s: %d traces validated, %d states, %d violations, %.1f s" % (self.pid, self.tier, self.traces, self.states, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0

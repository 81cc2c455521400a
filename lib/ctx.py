"""State of one check run: budget, cases, verdicts, evidence."""
import json, os, random, sys, time
import build, drv, tlc

KNOWN = os.path.join(build.VERIF, "known-findings.txt")
REPLAY = os.path.join(build.BUILD, "replay")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.exhaustive = []
        self.work = os.path.join(build.BUILD, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        if os.path.isdir(REPLAY):
            for f in os.listdir(REPLAY):
                if f.startswith(prop + "-"):
                    os.unlink(os.path.join(REPLAY, f))

    # thorough runs repeat the sampled part with fresh seeds until the budget is used
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """how many cases"""
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.notes.get(k), int):
                self.notes[k] += v
            else:
                self.notes[k] = v

    def tabs(self, tabs):
        p = os.path.join(self.work, "tabs.json")
        with open(p, "w") as f:
            json.dump(tabs, f)
        return p

    # ------------------------------------------------------------ judging
    def judge(self, spec, cases, env=None, redo=None, label=None):
        """cases: dicts with id; the specification accepts or rejects each.
        redo(case) -> case: records the run again, to confirm a rejection."""
        if not cases:
            return set()
        env = dict(env or {})
        env.setdefault("EXPLAIN", "0")
        rejected, skipped, gen, dist = tlc.check_traces(spec, cases, env)
        self.states += dist
        self.transitions += gen
        self.traces += len(cases) - len(skipped)
        if skipped:
            self.note(runs_too_long_to_judge=len(skipped))
        if len(self.samples) < 6:
            for c in cases[:2]:
                self.samples.append(shorten(c))
        if not rejected:
            return rejected
        byid = {c["id"]: c for c in cases}
        again = []
        for i in sorted(rejected)[:20]:
            c = byid[i]
            again.append(redo(c) if redo else c)
        rej2, _, _, _ = tlc.check_traces(spec, again, env)
        for c in again:
            if c["id"] in rej2:
                self.violate(spec, c, env, label)
        if not rej2:
            # what was seen once counts, unless it may be the machine that was busy
            for i in sorted(rejected)[:20]:
                c = byid[i]
                if c.get("st") != "timeout" and c.get("obs", {}) and "timeout" not in json.dumps(c.get("obs"))[:200]:
                    self.violate(spec, c, env, label)
        return rejected

    def violate(self, spec, case, env, label):
        sig = case.get("_sig") or case.get("_cmd", "")
        for k in known_findings(self.prop):
            if k["match"] and k["match"] in sig:
                self.known.append(k)
                return
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, "%s-%d.json" % (self.prop, len(self.violations)))
        env = dict(env)
        if env.get("TABLES"):
            import shutil
            t = os.path.join(REPLAY, "%s-tables.json" % self.prop)
            shutil.copy(env["TABLES"], t)
            env["TABLES"] = t
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, spec=spec, label=label, case=case, env=env, seed=self.seed), f, indent=1,
                      default=lambda x: x.hex() if isinstance(x, bytes) else str(x))
        self.violations.append(p)

    def fail(self, what, detail):
        """a violation found without a trace specification (model checking)"""
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, detail=detail), f, indent=1)
        self.violations.append(p)

    def model(self, spec, cfg, env=None, workers=8, timeout=800, heap="8g", name=None):
        """exhaustive model checking of the specification itself"""
        ok, g, s, out = tlc.model_check(spec, cfg, workers=workers, timeout=timeout, heap=heap, env=env)
        if not ok:
            i = out.find("Error")
            raise tlc.TlcError("model %s/%s: %s" % (spec, cfg, out[max(0, i):][:4000]))
        self.states += s
        self.transitions += g
        self.exhaustive.append("%s/%s: %d states" % (spec, name or cfg, s))
        return out

    # ------------------------------------------------------------ the end
    def finish(self):
        seen = set()
        for k in self.known:
            if k["text"] not in seen:
                seen.add(k["text"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6])
        cov.update(self.notes)
        if self.exhaustive:
            cov["models_checked_exhaustively"] = self.exhaustive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                  assumptions=["the driver reports faithfully what the public API returns",
                               "TLC evaluates the specification correctly",
                               "bounded: the inputs generated or enumerated in this run"])
        d = os.path.join(build.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        import shutil
        shutil.rmtree(self.work, ignore_errors=True)
        for v in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, time.time() - self.t0))
        return 1 if self.violations else 0


def shorten(c, lim=1500):
    s = json.dumps({k: v for k, v in c.items() if not k.startswith("_") or k == "_cmd"})
    return json.loads(s) if len(s) <= lim else {"truncated": s[:lim]}


def known_findings(prop):
    """lines: finding: property=<id> match=<text in the command> <description>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                m, text = rest.split(" ", 1)
                out.append(dict(match=m[len("match="):], text=text))
    return out

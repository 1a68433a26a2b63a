"""Collects what a check covered and what it found; writes evidence, prints verdict lines."""
import hashlib
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known_hits = {}
        self.assumptions = []
        self.exhaustive = None
        kf = os.path.join(ROOT, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["status"] == "known"] if os.path.exists(kf) else []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, r, what=None):
        self.states += r.distinct
        self.transitions += r.states
        if what:
            self.notes.setdefault("tlc", []).append({"what": what, "distinct": r.distinct, "generated": r.states,
                                                     "wall_s": round(r.wall, 1)})

    def add(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, clause, data, prop=None):
        """Records a violation of this check's property (others' verdicts are ignored: their own checks report them)."""
        prop = prop or self.prop
        if prop != self.prop:
            self.add("verdicts_for_other_properties")
            return
        self.violations.append((clause, data))

    def crash(self, items):
        """For pool.pmap: the SDK raised out of the driver, died or never came back on an item."""
        return lambda i, txt: self.violation("crash", {"item": items[i] if i >= 0 else None, "what": txt[-3000:]})

    def finding(self, fid, detail=""):
        """A failing case that the committed known-findings file lists under fid; anything not listed is a violation."""
        for k in self.known:
            if k["id"] == fid and k["property"] == self.prop:
                self.known_hits[fid] = k["what"]
                return True
        return False

    def finish(self):
        for fid, what in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, fid, what))
        shown = {}
        for clause, data in self.violations:
            shown.setdefault(clause, []).append(data)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for clause, datas in sorted(shown.items()):
            d = min(datas, key=lambda x: len(json.dumps(x, default=str)))
            txt = json.dumps({"property": self.prop, "clause": clause, "count": len(datas), "case": d}, indent=1, default=str)
            p = os.path.join(ROOT, "replays", "%s-%s.json" % (self.prop, hashlib.sha1((clause + txt).encode()).hexdigest()[:10]))
            with open(p, "w") as fh:
                fh.write(txt)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  clause: %s (%d cases)" % (clause, len(datas)))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s %s: %s, %d states, %d transitions, %d traces, %.1fs" %
              (self.prop, self.tier, "VIOLATED" if self.violations else "held", self.states, self.transitions, self.traces,
               time.time() - self.t0))
        return 1 if self.violations else 0

"""Result collection: obligations, violations, known findings, evidence."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(pid):
    """lines `known: property=<id> key=<key> <text>`"""
    out = {}
    try:
        for ln in open(FINDINGS):
            w = ln.split(None, 3)
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + pid:
                out[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    except FileNotFoundError:
        pass
    return out


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obl = 0
        self.violations = []
        self.counts = {}
        self.samples = []
        self.notes = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what=None):
        self.obl += 1
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def bad(self, key, where, msg, path=None):
        """key: stable identification (function + rule + object)."""
        self.obl += 1
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append(dict(key=key, where=where, what=msg,
                                    path=path or []))

    def decide(self, cond, key, where, msg, what=None):
        if cond:
            self.ok(what)
        else:
            self.bad(key, where, msg)
        return cond

    def finish(self):
        known = known_findings(self.pid)
        new = [v for v in self.violations if v["key"] not in known]
        old = [v for v in self.violations if v["key"] in known]
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level="other",
                  coverage=dict(
                      explanation=self.rule,
                      rule=self.rule,
                      obligations=self.obl,
                      discharged=self.obl - len(self.violations),
                      counts=self.counts, samples=self.samples,
                      notes=self.notes,
                      violations=[v for v in self.violations]),
                  wall_s=round(time.time() - self.t0, 3))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("TGSA_V"):
            print(json.dumps(ev["coverage"], indent=1))
        if not new:
            print("%s: held; %d obligations %s" %
                  (self.pid, self.obl, json.dumps(self.counts)))
            return 0
        rp = os.path.join(d, self.pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:40]:
            print("  %s: %s" % (v["where"], v["what"]))
            for p in v["path"][:30]:
                print("      " + p)
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1

"""Verdicts, evidence and known findings."""
import json, os, sys, time, traceback
from .engine import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.violations = {}          # key -> dict
        self.counts = {}
        self.samples = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def violation(self, key, where, what, path=None):
        """key identifies the defect (used to match known findings)"""
        if key not in self.violations:
            self.violations[key] = dict(key=key, where=where, what=what, path=path or [])

    def has(self, prefix):
        return any(k.startswith(prefix) for k in self.violations)

    def need(self, name, minimum):
        """vacuity guard: the rule must have had at least `minimum` instances"""
        got = self.counts.get(name, 0)
        if got < minimum:
            raise AnalysisError("only %d instances of %s analysed (expected at least %d)" % (got, name, minimum))

    def known(self):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid]

    def evidence(self, status, nviol):
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(explanation="static analysis of the current source; rule: " + self.rule + " Verdict of this run: " + status,
                   samples=self.samples)
        for k, v in self.counts.items():
            cov[k] = v
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1, ensure_ascii=False)

    def finish(self):
        known = {k["key"]: k for k in self.known()}
        new = [v for k, v in self.violations.items() if k not in known]
        for k, v in self.violations.items():
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
        for n in sorted(self.counts):
            print("  %s: %d" % (n, self.counts[n]))
        if new:
            d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\n" % (self.pid, self.rule))
                for v in new:
                    f.write("\n%s\n  at %s\n  %s\n" % (v["key"], v["where"], v["what"]))
                    for p in v["path"]:
                        f.write("    via %s\n" % p)
            for v in new[:20]:
                print("%s: %s [%s]" % (v["where"], v["what"], v["key"]))
            self.evidence("violated", len(new))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        self.evidence("holds on everything analysed", 0)
        print("OK property=%s" % self.pid)
        return 0


def main(check, body):
    """runs body(check); maps analysis failures to exit code 2"""
    try:
        body(check)
        rc = check.finish()
    except AnalysisError as e:
        if check.violations and [k for k in check.violations if k not in {x["key"] for x in check.known()}]:
            rc = check.finish()
        else:
            print("ANALYSIS-BROKEN property=%s: %s" % (check.pid, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % check.pid)
        rc = 2
    sys.stdout.flush()
    return rc

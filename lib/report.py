"""Obligations, violations, evidence."""
import json
import os


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.cpu = None
        self.obs = {}           # (rule, key) -> {"where","ok","what"}
        self.undecided = []     # what the analysis could not follow to its end
        self.violations = []    # {"key","what","where"}
        self.analysed = set()
        self.counts = {}
        self.explanation = ""
        self.assumptions = []

    def fn(self, *names):
        self.analysed.update(names)

    def graph(self, I):
        self.analysed.add(I.entry.path)
        self.analysed.update(I.inlined)
        self.count("graph nodes", len(I.nodes))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, key, ok, what, where=""):
        """one proof obligation; `key` names the rule and the construct without line numbers"""
        k = key
        old = self.obs.get(k)
        if old is None:
            self.obs[k] = {"ok": bool(ok), "what": what, "where": str(where)}
        elif not ok:
            old["ok"] = False
            old["what"] = what
            old["where"] = str(where)
        if not ok:
            self.violation(key, what, where)
        return ok

    def violation(self, key, what, where=""):
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "what": what, "where": str(where), "cpu": self.cpu})

    def finish(self, here, tier, wall):
        with open(os.path.join(here, "known_findings.json")) as f:
            known = json.load(f)["findings"]
        kn = {(k["property"], k["key"]): k for k in known}
        new = []
        for v in self.violations:
            k = kn.get((self.pid, v["key"]))
            if k is not None:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
            else:
                new.append(v)
        ev = os.environ.get("ND_EVIDENCE") or os.path.join(here, "evidence")
        os.makedirs(ev, exist_ok=True)
        n_ok = sum(1 for o in self.obs.values() if o["ok"])
        doc = {
            "property": self.pid,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.explanation or "analysis did not run",
                "configurations": "target-cpu x86-64 and x86-64-v3",
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed),
                "obligations": len(self.obs),
                "obligations_discharged": n_ok,
                "counts": self.counts,
                "obligation_list": [dict(key=k, **o) for k, o in sorted(self.obs.items())],
            },
            "wall_s": round(wall, 3),
            "assumptions": self.assumptions,
            "undecided": self.undecided,
            "violations": len(new),
            "violation_list": new,
        }
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        rep = os.path.join(ev, self.pid + ".violations.txt")
        if os.path.exists(rep):
            os.unlink(rep)
        for u in self.undecided:
            print("UNDECIDED: property=%s %s" % (self.pid, u))
        if not new:
            print("property=%s: %d obligations hold over %d functions (%.1fs)" % (self.pid, n_ok, len(self.analysed), wall))
            return 0
        with open(rep, "w") as f:
            for v in new:
                f.write("%s\n  %s\n  at %s (%s)\n" % (v["key"], v["what"], v["where"], v["cpu"]))
        for v in new:
            print("%s: %s [%s] (%s)" % (v["key"], v["what"], v["where"], v["cpu"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        return 1

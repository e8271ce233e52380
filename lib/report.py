"""Outcome of one check: violations, known findings, evidence."""
import json, os, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.assumptions = []
        self.coverage = {}
        self.notes = []
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, what, found_input=True, **data):
        """data: everything needed to replay"""
        self.violations.append((what, found_input, data))

    def kf(self, text):
        if text not in self.known:
            self.known.append(text)

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        n = 0
        # one line per violation with an input; obligations without one only if there is nothing better
        vs = [v for v in self.violations if v[1]] or self.violations
        for what, found, data in vs[:5]:
            n += 1
            path = os.path.join(self.work, "violation-%d.json" % n)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, **data}, f, indent=1, default=lambda o: o.decode("latin1") if isinstance(o, bytes) else str(o))
            print("  " + what.replace("\n", "\n  ")[:2000])
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if found else " no-failing-input-found"))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": self.coverage, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s in %.1f s" % (self.prop, "%d violation(s)" % len(self.violations) if self.violations else "held on everything explored", time.time() - self.t0))
        # keep the work folder small
        for root, _, files in os.walk(self.work):
            for x in files:
                if not x.startswith("violation") and not x.startswith("failed"):
                    os.remove(os.path.join(root, x))
        sys.exit(1 if self.violations else 0)

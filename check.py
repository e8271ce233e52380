#!/usr/bin/env python3
"""check.py ID -- decide one property for /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from report import Report
import checks, routing

CHECKS = {
    "C01": ("translation_validation", lambda r: routing.check_matcher(r, "C01")),
    "C02": ("translation_validation", lambda r: routing.check_matcher(r, "C02")),
    "C03": ("translation_validation", lambda r: routing.check_matcher(r, "C03")),
    "C04": ("translation_validation", lambda r: routing.check_matcher(r, "C04")),
    "C05": ("translation_validation", routing.check_inverse),
    "C06": ("translation_validation", routing.check_order),
    **{p: ("exploration" if p in ("C09", "C10", "C12", "C18") else "proof", lambda r: checks.check(r, r.prop)) for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18")},
}

if __name__ == "__main__":
    prop = sys.argv[1]
    level, f = CHECKS[prop]
    rep = Report(prop, level)
    f(rep)
    rep.finish()

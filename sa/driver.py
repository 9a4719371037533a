"""Runs one property's check: analysis, evidence, known findings, verdict."""
import json
import os
import sys
import time
from multiprocessing import Pool
from . import ir
from .ir import Broken, VERIF

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding:
    """key identifies what fails independently of line numbers"""

    def __init__(self, key, msg, where=""):
        self.key, self.msg, self.where = key, msg, where


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.cov = {}
        self.rules = []
        self.samples = []
        self.undecided = []
        self.assumptions = []

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def find(self, key, msg, where=""):
        if not any(f.key == key for f in self.findings):
            self.findings.append(Finding(key, msg, where))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known(pid):
    """committed known findings: key -> text (entries marked fixed suppress nothing)"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l[len("known: property=%s " % pid):]
                key, text = rest.split(" :: ", 1)
                r[key[len("key="):] if key.startswith("key=") else key] = text
    return r


def pmap(f, items, n=8):
    """parallel map over forked workers (the extracted program is shared read-only)"""
    items = list(items)
    if not items:
        return []
    with Pool(n) as p:
        return p.map(f, items, chunksize=1)


def run(pid, check, level, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rep = Report(pid)
    try:
        check(rep, tier)
    except Broken as e:
        print("check %s cannot decide: %s" % (pid, e))
        return 2
    kn = known(pid)
    viol = [f for f in rep.findings if f.key not in kn]
    seen = [f for f in rep.findings if f.key in kn]
    cov = dict(rep.cov)
    cov["explanation"] = "; ".join(rep.rules)
    cov["samples"] = rep.samples
    if rep.undecided:
        cov["undecided_count"] = len(rep.undecided)
        cov["undecided"] = rep.undecided[:60]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol), "assumptions": rep.assumptions}
    if seen:
        ev["coverage"]["known_findings"] = [f.key for f in seen]
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[f.key]))
    if viol:
        path = os.path.join(EVID, "replay-%s.txt" % pid)
        with open(path, "w") as fh:
            for f in viol:
                fh.write("%s\n    at %s\n    key %s\n" % (f.msg, f.where, f.key))
            fh.write("\nre-run: python3 %s %s\n" % (os.path.join(VERIF, "check.py"), pid))
        for f in viol[:20]:
            print("%s: %s" % (f.where, f.msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held on everything analysed (%s) in %.1fs" % (pid, ", ".join("%s=%s" % kv for kv in sorted(rep.cov.items()) if isinstance(kv[1], int)), time.time() - t0))
    return 0

"""Verdicts, evidence files, replay files and known findings."""
import hashlib
import json
import os
import sys
import time

from .build import VERIF

FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.bad = []
        self.known = set()
        self.listed = self._findings()
        self.log = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _findings(self):
        out = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith("finding: property=" + self.prop + " "):
                    key, _, what = line[len("finding: property=" + self.prop + " "):].partition(" :: ")
                    out.append((key.strip(), what.strip()))
        return out

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            t = json.dumps(s, default=str)
            self.samples.append(s if len(t) < 1800 else t[:1800])

    def violation(self, what, replay, key=""):
        """what: one line; replay: JSON document that reproduces it;
        key: identity of the failing case, compared with the known findings"""
        for k, text in self.listed:
            if k and k == key:
                self.known.add((k, text))
                return
        self.bad.append((what, replay))

    def finish(self):
        for k, text in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        wall = round(time.time() - self.t0, 2)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": len(self.bad),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        text = json.dumps(ev, indent=1, default=str)
        if len(text) > 60000:
            ev["coverage"]["samples"] = [str(s)[:400] for s in self.samples[:4]]
            text = json.dumps(ev, indent=1, default=str)[:60000]
        with open(path, "w") as f:
            f.write(text + "\n")
        for line in self.log:
            print(line)
        brief = {k: v for k, v in cov.items() if k not in ("samples", "rule", "explanation")}
        print(f"{self.prop} [{self.tier}, seed {self.seed}] {wall} s: " + json.dumps(brief, default=str)[:1500])
        if not self.bad:
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (what, replay) in enumerate(self.bad):
            doc = json.dumps({"property": self.prop, "what": what, "case": replay}, indent=1, default=str)
            name = f"{self.prop}-{hashlib.sha256(doc.encode()).hexdigest()[:12]}.json"
            with open(os.path.join(d, name), "w") as f:
                f.write(doc + "\n")
            if n < 5:
                print(f"  {what[:600]}")
                print(f"VIOLATION property={self.prop} replay={os.path.join(d, name)}")
            if n >= 40:
                break
        if len(self.bad) > 5:
            print(f"  ... {len(self.bad)} violations in all")
        sys.stdout.flush()
        return 1

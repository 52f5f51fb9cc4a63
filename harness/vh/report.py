"""Verdicts, evidence and replay files of one check run."""
from __future__ import annotations
import json, os, shutil, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viols = {}
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.t0 = time.monotonic()

    def tlc(self, res):
        self.states += res["states"]
        self.transitions += res["generated"]

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def viol(self, sig, info, replay=None):
        """sig identifies what fails (rule and input), stable between runs."""
        v = self.viols.setdefault(sig, {"sig": sig, "info": info, "replay": replay, "n": 0})
        v["n"] += 1

    def broken(self, r, name, replay):
        """A session that could not be carried through: what came back cannot be understood, or it never ended.

        Trouble of the machine itself is not the code's.
        """
        t = r["harness_error"]
        if any(x in t for x in ("MemoryError", "No space left", "Errno 11]", "Errno 12]", "Errno 24]", "Errno 23]", "TlcError")):
            raise RuntimeError(t)
        self.viol(f"session-broke-off:{name}", t[-1500:], replay)

    def left(self, budget):
        return budget - (time.monotonic() - self.t0)

    def finish(self, level="model_checking"):
        known = {}
        p = os.path.join(ROOT, "findings.json")
        if os.path.exists(p):
            with open(p) as f:
                for x in json.load(f)["known"]:
                    if x["property"] == self.prop:
                        known[x["sig"]] = x["what"]
        bad = [v for s, v in self.viols.items() if s not in known]
        for s, v in self.viols.items():
            if s in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[s]}")
        rdir = os.path.join(ROOT, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(rdir, f))
        for k, v in enumerate(bad[:6]):
            path = os.path.join(rdir, f"{self.prop}-{k + 1}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "sig": v["sig"], "info": v["info"], "times": v["n"], "replay": v["replay"]}, f, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {v['sig']} (x{v['n']}): {str(v['info'])[:600]}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"], **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{self.prop}.json"))
        print(f"{self.prop} {self.tier}: {'VIOLATED' if bad else 'held'}; states={self.states} traces={self.traces} wall={ev['wall_s']}s " +
              " ".join(f"{k}={v}" for k, v in self.extra.items() if isinstance(v, int)))
        return 1 if bad else 0

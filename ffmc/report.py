"""Evidence, violations and known findings."""

import os
import re
import sys
import json
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def jsonable(obj):
    if isinstance(obj, bytes):
        return obj.decode("utf-8", "backslashreplace")
    if isinstance(obj, dict):
        return {str(jsonable(k)): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(v) for v in obj), key=str)
    if isinstance(obj, str):
        return obj.encode("utf-8", "backslashreplace").decode("utf-8")
    if isinstance(obj, (int, float, bool)) or obj is None:
        return obj
    return repr(obj)


class Report:
    MAX_PRINTED = 10

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.start = time.time()
        self.violations = []
        self.known_hits = []
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        self.parts = {}
        self.counts = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                       "evaluations": 0}
        self.distinct = set()
        self.exhaustive = True
        self.known = self._load_known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _load_known(self):
        known = []
        try:
            lines = open(KNOWN, encoding="utf-8").read().splitlines()
        except OSError:
            return known
        for line in lines:
            match = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if match and match.group(1) == self.prop:
                known.append((match.group(2), match.group(3)))
        return known

    # -- collecting ---------------------------------------------------------------------------
    def violation(self, message, replay=None, key=None):
        if key is not None:
            for known_key, text in self.known:
                if known_key == key:
                    if key not in self.known_hits:
                        self.known_hits.append(key)
                        print(f"KNOWN-FINDING: property={self.prop} {text}", flush=True)
                    return
        self.violations.append(message)
        number = len(self.violations)
        if number > self.MAX_PRINTED:
            return
        path = os.path.join("evidence", "replay", f"{self.prop}-{number}.json")
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, path), "w", encoding="utf-8") as fobj:
            json.dump(jsonable({"property": self.prop, "message": message, "key": key,
                                "replay": replay}), fobj, indent=1)
        print(f"VIOLATION property={self.prop} replay={path}")
        text = str(jsonable(message))
        print("  " + text[:1500], flush=True)

    @property
    def full(self):
        """Enough violations were found, exploring further makes no sense."""
        return len(self.violations) >= self.MAX_PRINTED

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def count(self, name, num=1):
        self.counts[name] = self.counts.get(name, 0) + num

    def case(self, key, nontrivial=True, num=1):
        """One evaluated case."""
        self.counts["evaluations"] += num
        if nontrivial:
            self.distinct.add(key if isinstance(key, int) else hash(key))

    def part(self, name, data):
        self.parts[name] = jsonable(data)

    def add_info(self, name, info):
        """Add the result of Stats.as_dict()."""
        self.counts["states"] += info["states"]
        self.counts["transitions"] += info["transitions"]
        self.counts["evaluations"] += info["executions"]
        self.part(name, info)
        if info["capped"]:
            self.exhaustive = False

    # -- finishing ----------------------------------------------------------------------------
    def finish(self, rule=None, **extra):
        coverage = {}
        counts = dict(self.counts)
        if self.level == "model_checking":
            coverage["states"] = counts.pop("states")
            coverage["transitions"] = counts.pop("transitions")
            coverage["traces_validated_against_impl"] = counts.pop("traces_validated_against_impl")
            if counts["evaluations"]:
                coverage["evaluations"] = counts.pop("evaluations")
            else:
                counts.pop("evaluations")
        else:
            coverage["evaluations"] = counts.pop("evaluations")
            coverage["distinct_nontrivial"] = len(self.distinct)
            if not counts["traces_validated_against_impl"]:
                counts.pop("traces_validated_against_impl")
            for name in ("states", "transitions"):
                if not counts[name]:
                    counts.pop(name)
        coverage.update(counts)
        if rule:
            coverage["rule"] = rule
        coverage["samples"] = self.samples or ["(none)"]
        coverage["exhaustive"] = bool(self.exhaustive and not self.violations)
        if self.parts:
            coverage["parts"] = self.parts
        coverage["known_findings_seen"] = self.known_hits
        coverage.update(jsonable(extra))
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": coverage, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w", encoding="utf-8") as fobj:
            json.dump(evidence, fobj, indent=1)
        os.replace(path + ".tmp", path)
        short = {k: v for k, v in coverage.items()
                 if k not in ("samples", "parts", "rule")}
        print(f"{self.prop} {self.tier}: {json.dumps(short)[:600]} wall={evidence['wall_s']}s "
              f"violations={len(self.violations)}")
        return 1 if self.violations else 0

"""Findings, evidence and verdicts shared by every check."""
from __future__ import annotations

import json
import os
import sys
import time
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Finding:
    rule: str        # rule name
    construct: str   # stable key of the construct (no line numbers)
    loc: str         # file:line
    message: str

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


@dataclass
class Result:
    prop: str
    rule: str                      # human text of the rule applied
    findings: list = field(default_factory=list)
    counts: dict = field(default_factory=dict)     # what was analysed
    floors: dict = field(default_factory=dict)     # count name -> minimum
    samples: list = field(default_factory=list)    # actual instances
    assumptions: list = field(default_factory=list)
    broken: list = field(default_factory=list)     # reasons the analysis gave no verdict
    proved: int = 0                                # obligations discharged

    def add(self, rule, construct, loc, message):
        for f in self.findings:
            if f.key == f"{rule}|{construct}" and f.loc == loc:
                return
        self.findings.append(Finding(rule, construct, loc, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=25):
        if len(self.samples) < limit:
            self.samples.append(text)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    with open(p, encoding="utf-8") as fid:
        data = json.load(fid)
    return data["known"]


def finish(res: Result, tier: str, t0: float) -> int:
    known = {k["key"]: k for k in load_known() if k["property"] == res.prop}
    new, old = [], {}
    for f in res.findings:
        if f.key in known:
            old.setdefault(f.key, f)
        else:
            new.append(f)
    # A listed finding whose function or variable was renamed or moved within its file is still that one finding.
    for key, k in known.items():
        if key not in old:
            f = next((f for f in new if f.rule == key.split("|")[0] and f.loc.rsplit(":", 1)[0] == k["file"]), None)
            if f is not None:
                new.remove(f)
                old[key] = f
    for name, floor in res.floors.items():
        if res.counts.get(name, 0) < floor:
            res.broken.append(f"only {res.counts.get(name, 0)} {name} analysed, expected at least {floor}")
    obligations = sum(v for k, v in res.counts.items() if k.startswith("obligations"))
    evidence = {
        "property": res.prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of every module under mt_metadata (source only, nothing executed). Rule: " + res.rule,
            "analysed": res.counts,
            "obligations": obligations,
            "discharged": max(0, obligations - len(new) - len(old)),
            "samples": res.samples,
            "known_findings_seen": sorted(old),
            "new_findings": [f"{f.loc} [{f.rule}] {f.message}" for f in new],
            "analysis_broken": res.broken,
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    ed = os.environ.get("MTCHECK_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, f"{res.prop}.json"), "w", encoding="utf-8") as fid:
        json.dump(evidence, fid, indent=1)
        fid.write("\n")
    for k, f in sorted(old.items()):
        print(f"KNOWN-FINDING: property={res.prop} {known[k]['what']} [{f.loc}]")
    print(f"{res.prop}: analysed " + ", ".join(f"{v} {k}" for k, v in res.counts.items()))
    if new:
        rp = os.path.join(ed, f"replay_{res.prop}.txt")
        with open(rp, "w", encoding="utf-8") as fid:
            fid.write(f"property {res.prop}\nrule: {res.rule}\n\n")
            for f in new:
                fid.write(f"{f.loc}: [{f.rule}] {f.construct}\n    {f.message}\n    key: {f.key}\n")
        for f in new:
            print(f"{f.loc}: [{f.rule}] {f.construct}: {f.message}")
        print(f"VIOLATION property={res.prop} replay={rp}")
        return 1
    if res.broken:
        for b in res.broken:
            print(f"ANALYSIS-BROKEN property={res.prop} {b}", file=sys.stderr)
        return 2
    print(f"{res.prop}: held on everything analysed ({obligations} obligations, {len(old)} known findings)")
    return 0

"""Findings, known findings, evidence files and the exit protocol"""
from __future__ import annotations

import json
import os
import pathlib
import re
import sys
import time
from dataclasses import dataclass, field
from typing import Any

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"


@dataclass
class Finding:
    rule: str
    construct: str  # stable description of the construct: no line number
    loc: str  # file:line, for the reader
    message: str

    @property
    def key(self) -> str:
        return f"{self.rule}|{self.construct}"


@dataclass
class Report:
    prop: str
    rule: str  # what is decided, in words
    findings: list[Finding] = field(default_factory=list)
    counts: dict[str, int] = field(default_factory=dict)
    samples: list[Any] = field(default_factory=list)
    notes: list[str] = field(default_factory=list)
    assumptions: list[str] = field(default_factory=list)
    errors: list[str] = field(default_factory=list)  # analysis broken
    extra: dict[str, Any] = field(default_factory=dict)

    def add(self, rule: str, construct: str, loc: str, message: str) -> None:
        f = Finding(rule, construct, loc, message)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name: str, at_least: int) -> None:
        """The analysis is broken if fewer instances were found than what was confirmed by hand"""
        if self.counts.get(name, 0) < at_least:
            self.errors.append(f"{name}: only {self.counts.get(name, 0)} instances analysed, expected at least {at_least}")

    def merge(self, o: "Report") -> None:
        for f in o.findings:
            self.add(f.rule, f.construct, f.loc, f.message)
        for k, v in o.counts.items():
            self.count(k, v)
        for x in o.samples:
            self.sample(x)
        self.notes += o.notes
        self.errors += o.errors

    def sample(self, s: Any, limit: int = 12) -> None:
        if len(self.samples) < limit:
            self.samples.append(s)


def known_keys(prop: str) -> dict[str, str]:
    out: dict[str, str] = {}
    if KNOWN.exists():
        for line in KNOWN.read_text(encoding="utf-8").splitlines():
            m = re.match(r"known: property=(\S+) key=(.+?) -- (.*)$", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(rep: Report, tier: str, seed: int, t0: float) -> int:
    known = known_keys(rep.prop)
    new = [f for f in rep.findings if f.key not in known]
    old = [f for f in rep.findings if f.key in known]
    EVID.mkdir(exist_ok=True)
    for f in old:
        print(f"KNOWN-FINDING: property={rep.prop} {f.loc}: {known[f.key]}")
    ev = {
        "property": rep.prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": rep.rule,
            **{k: v for k, v in rep.counts.items()},
            "samples": rep.samples or ["(none)"],
            **rep.extra,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if rep.notes:
        ev["coverage"]["notes"] = rep.notes
    if old:
        ev["coverage"]["known_findings"] = [f.key for f in old]
    (EVID / f"{rep.prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False) + "\n", encoding="utf-8")
    print(f"{rep.prop}: " + ", ".join(f"{k}={v}" for k, v in rep.counts.items()))
    if new:
        path = EVID / f"{rep.prop}.violation.txt"
        txt = []
        for f in new:
            txt.append(f"{f.loc}: [{f.rule}] {f.message}\n    construct: {f.construct}\n    key: {f.key}\n")
        path.write_text("\n".join(txt), encoding="utf-8")
        for f in new[:15]:
            print(f"  {f.loc}: [{f.rule}] {f.message}   <{f.construct}>")
        print(f"VIOLATION property={rep.prop} replay={path}")
        return 1
    if rep.errors:
        for e in rep.errors:
            print(f"ANALYSIS-BROKEN {rep.prop}: {e}", file=sys.stderr)
        return 3
    print(f"OK property={rep.prop}: {rep.rule[:120]}")
    return 0

"""Running a check, evidence files, known findings."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback
from pathlib import Path

from .model import AnalysisBroken, Program

ROOT = Path(__file__).resolve().parent.parent
EVID = ROOT / "evidence"
KNOWN = ROOT / "known_findings.json"


class Finding:
    def __init__(self, rule, construct, message, path="", line=0):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.path = path
        self.line = line

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def __repr__(self):
        return f"{self.key} {self.path}:{self.line} {self.message}"


class Result:
    def __init__(self):
        self.findings = {}
        self.coverage = {}
        self.assumptions = []
        self.notes = []
        self.short = []

    def add(self, rule, construct, message, path="", line=0):
        f = Finding(rule, construct, message, path, line)
        self.findings.setdefault(f.key, f)
        return f

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def require(self, key, minimum, what=""):
        if self.coverage.get(key, 0) < minimum:
            self.short.append(f"only {self.coverage.get(key, 0)} instances of '{key}' found, expected at least {minimum} {what}")


def known_for(pid):
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [k for k in data.get("known", []) if k["property"] == pid]


def run_check(pid, fn, level, tier, quiet=False):
    t0 = time.time()
    EVID.mkdir(exist_ok=True)
    ev = EVID / f"{pid}.json"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        prog = Program()
        res = fn(prog, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={pid}: cannot parse {e.filename}:{e.lineno}: {e.msg}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error of the analysis")
        return 2
    known = known_for(pid)
    kk = {k["key"]: k for k in known}
    viol = [f for f in res.findings.values() if f.key not in kk]
    seen = [f for f in res.findings.values() if f.key in kk]
    cov = dict(res.coverage)
    cov.setdefault("modules_parsed", len(prog.modules))
    cov.setdefault("functions_in_program", len(prog.functions))
    if level == "other":
        cov.setdefault("explanation", res.notes[0] if res.notes else "static analysis of the repository's source")
    cov["known_findings_seen"] = [f.key for f in seen]
    out = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - t0, 3), "assumptions": res.assumptions,
        "violations": len(viol), "violation_list": [{"key": f.key, "file": f.path, "line": f.line, "message": f.message} for f in viol],
    }
    rdir = EVID / "replay"
    rdir.mkdir(exist_ok=True)
    for old in rdir.glob(f"{pid}-*.txt"):
        old.unlink()
    for f in seen:
        print(f"KNOWN-FINDING: property={pid} {kk[f.key]['what']} [{f.path}:{f.line}]")
    for i, f in enumerate(viol):
        rp = rdir / f"{pid}-{i}.txt"
        rp.write_text(f"property {pid}\nrule {f.rule}\nconstruct {f.construct}\nwhere {f.path}:{f.line}\n\n{f.message}\n\n"
                      f"re-run: python3 /verif/check.py {pid} --tier {tier}\n")
        print(f"{f.path}:{f.line}: [{f.rule}] {f.construct}: {f.message}")
        print(f"VIOLATION property={pid} replay={rp}")
    ev.write_text(json.dumps(out, indent=1, default=str))
    if not viol and res.short:
        print(f"ANALYSIS-BROKEN property={pid}: " + "; ".join(res.short))
        return 2
    if not viol:
        print(f"OK property={pid} tier={tier} " + " ".join(f"{k}={v}" for k, v in res.coverage.items() if isinstance(v, int)) +
              f" wall={out['wall_s']}s")
    return 1 if viol else 0

"""Findings, evidence and exit codes shared by every check."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, key, where, what, path=()):
        self.key, self.where, self.what, self.path = key, where, what, list(path)


class Report:
    """One property's run."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.findings = {}
        self.obligations = []        # (rule, where, status)
        self.seen = set()
        self.fns = set()
        self.info = {}
        self.rules = {}
        self.selftests = []
        self.reached = set()         # tests some scenario came to

    def ob(self, rule, where, ok, key=None, what=None, path=()):
        """Record one obligation; a failing one becomes a finding (deduplicated by key)."""
        k = (rule, where, bool(ok))
        if k not in self.seen:
            self.seen.add(k)
            self.obligations.append({"rule": rule, "where": where, "held": bool(ok)})
        if not ok:
            fk = f"{rule}:{key or where}"
            if fk not in self.findings:
                self.findings[fk] = Finding(fk, where, what or rule, path)

    def rule(self, name, text):
        self.rules[name] = text


def load_known():
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:"):].strip().split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.append((pid, key, parts[2] if len(parts) > 2 else ""))
    return out


def finish(rep, tier, seed, interp_stats=None, explanation=""):
    known = {(p, k): w for p, k, w in load_known()}
    viol, kn = [], []
    for k, f in sorted(rep.findings.items()):
        if (rep.pid, k) in known:
            kn.append((f, known[(rep.pid, k)]))
        else:
            viol.append(f)
    held = sum(1 for o in rep.obligations if o["held"])
    cov = {
        "obligations": len(rep.obligations),
        "discharged": held,
        "rules": rep.rules,
        "functions_analysed": len(rep.fns),
        "explanation": explanation or "Static analysis of /repo's current source: each obligation is one construct "
                                      "(call site, write, path or table entry) the rule was applied to.",
        "samples": rep.obligations[:12],
        "all_obligation_sites": sorted({o["where"] for o in rep.obligations})[:400],
    }
    cov.update(rep.info)
    if interp_stats:
        cov.update(interp_stats)
    ev = {"property": rep.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["the analysed source is the package ticdat under /repo",
                          "third-party libraries are modelled by name, not analysed"],
          "wall_s": round(time.time() - rep.t0, 3), "violations": len(viol)}
    evd = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, f"{rep.pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for f, w in kn:
        print(f"KNOWN-FINDING: property={rep.pid} {f.key} {w or f.what}")
    print(f"{rep.pid}: {len(rep.obligations)} obligations, {held} held, {len(viol)} violations, "
          f"{len(kn)} known, {time.time() - rep.t0:.1f}s")
    if viol:
        rp = os.path.join(evd, f"{rep.pid}.violation.json")
        with open(rp, "w", encoding="utf-8") as fh:
            json.dump([{"key": f.key, "where": f.where, "what": f.what, "path": f.path} for f in viol], fh, indent=1)
        for f in viol:
            print(f"  {f.where}: [{f.key}] {f.what}")
            for p in f.path:
                print(f"      {p}")
        print(f"VIOLATION property={rep.pid} replay={rp}")
        return 1
    return 0

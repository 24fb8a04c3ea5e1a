#!/usr/bin/env python3
"""Runs one property over several simulators (one per tool) and merges their evidence."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, seed, tier, budget, level = sys.argv[1:6]
targets = sys.argv[6:]
parts, rc = [], 0
for t in targets:
    ev = "%s/build/ev-%s-%s.json" % (V, prop, t)
    if os.path.exists(ev): os.remove(ev)
    p = subprocess.run([V + "/build/sim_" + t, "check", prop, "--verif", V, "--seed", seed, "--tier", tier, "--budget", str(float(budget) / len(targets)),
                        "--level", level, "--evidence", ev])
    if os.path.exists(ev): parts.append((t, json.load(open(ev))))
    if p.returncode == 1: rc = 1
    elif p.returncode != 0 and rc == 0: rc = p.returncode if p.returncode > 0 else 3
    if rc == 1: break
if parts:
    out = dict(parts[0][1])
    cov = dict(out["coverage"])
    for _, e in parts[1:]:
        c = e["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "simulated_steps", "simulated_time_s", "context_switches", "seam_events", "runs_with_injected_faults", "known_finding_runs"):
            cov[k] += c[k]
        cov["faults_injected"] = {k: cov["faults_injected"].get(k, 0) + c["faults_injected"].get(k, 0) for k in set(cov["faults_injected"]) | set(c["faults_injected"])}
        cov["samples"] = cov["samples"] + c["samples"]
        out["wall_s"] += e["wall_s"]
        out["violations"] += e["violations"]
    cov["rule"] = " || ".join(e["coverage"]["rule"] for _, e in parts)
    cov["components"] = " || ".join(e["coverage"]["components"] for _, e in parts)
    cov["simulated_runs_per_hour"] = int(cov["evaluations"] / out["wall_s"] * 3600)
    cov["per_tool"] = {t: {"evaluations": e["coverage"]["evaluations"], "distinct_nontrivial": e["coverage"]["distinct_nontrivial"]} for t, e in parts}
    out["coverage"] = cov
    json.dump(out, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
sys.exit(rc)

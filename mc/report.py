"""Driver shared by all checks: runs the exploration, prints the verdict, writes evidence."""
import argparse
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    """known-findings.json: {"findings": [{"property","key","text"}], "fixed": [...]}"""
    path = os.path.join(VERIF, "known-findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return {}
    return {f["key"]: f["text"] for f in data.get("findings", []) if f["property"] == prop}


def main(prop, build, assumptions=(), level="model_checking", rule=None):
    from mc import explore

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scenarios = build(tier)
    names = [s.name for s in scenarios]
    assert len(set(names)) == len(names), "duplicate scenario names"
    if a.only:
        scenarios = [s for s in scenarios if a.only in s.name]
    known = explore.Known(load_known(prop))

    if a.replay:
        rec = json.load(open(a.replay))
        scenarios = {s.name: s for t in ("quick", "thorough") for s in build(t)}
        scn = scenarios[rec["scenario"]]
        try:
            if isinstance(scn, explore.Enumeration):
                print("outcome:", scn.fn(explore.Stats()))
            else:
                print("outcome:", explore.replay(scn, rec["choices"]))
        except explore.Violation as v:
            print("reproduced:", v.message)
            return 1
        return 0

    # quick runs end well within the 900 s limit even on a slow machine
    budget = a.budget or (600 if tier == "quick" else 3 * 3600)
    total, per, errors = explore.run_all(scenarios, known, budget)
    if total.violations:
        total.violations.sort(key=lambda v: (len(v["script"]), len(v["choices"]), v["scenario"]))
        confirmed = [v for v in total.violations[:5] if explore.confirm(scenarios, v)]
        if confirmed:
            total.violations[:] = confirmed
            errors = []  # the code under test may behave randomly
        else:
            # not the code under test but the interpreter's JIT: explore again without it
            print("not reproduced without JIT: %s" % total.violations[0]["message"])
            total, per, errors = explore.run_all(scenarios, known, budget, jit=False)
    wall = time.time() - t0
    if errors:
        for e in errors[:3]:
            print(e)
        print("ERROR: the check itself failed (%d)" % len(errors))
        return 2
    coverage = {
        "states": total.nodes + total.distinct,
        "transitions": total.edges + total.evals,
        "traces_validated_against_impl": total.executions + total.evals,
        "distinct_outcomes": len(total.outcomes),
        "rule": rule or "every execution of the real code within the bound; states are nodes of "
                        "the execution tree, transitions its edges; distinct_outcomes counts "
                        "different observable outcomes",
        "samples": total.samples[:6] or ["none"],
        "exhaustive": not total.capped,
        "capped": total.capped,
        "scenarios": {
            n: {"executions": s.executions, "nodes": s.nodes, "outcomes": len(s.outcomes),
                "inputs": s.evals, "distinct_inputs": s.distinct,
                "longest": s.max_points, "capped": s.capped,
                **({"notes": s.notes} if s.notes else {})}
            for n, s in per.items()},
        "bounds": {s.name: getattr(s, "bound", None) for s in scenarios
                   if getattr(s, "bound", None) is not None},
        "known_findings_seen": total.findings,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": level, "coverage": coverage, "assumptions": list(assumptions),
            "wall_s": round(wall, 2), "violations": len(total.violations)}, f, indent=1)
    print("%s %s: %d executions, %d inputs, %d states, %d transitions, %d outcomes%s, %.1f s" % (
        prop, tier, total.executions, total.evals, coverage["states"], coverage["transitions"],
        coverage["distinct_outcomes"], " (capped)" if total.capped else "", wall))
    for key, text in known.entries.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if total.violations:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        total.violations.sort(key=lambda v: (len(v["script"]), len(v["choices"]), v["scenario"]))
        v = total.violations[0]
        path = os.path.join(d, prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, replay_cmd="bash run.sh %s --replay %s" % (
                prop, os.path.relpath(path, VERIF))), f, indent=1)
        print("scenario: %s" % v["scenario"])
        print("deviations: %s" % (v["script"],))
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        return 1
    return 0

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Runs the families of behaviours of one property (plan.py): TLC generates them from the
specification, the driver executes them on the real meshio in /repo, TLC checks the
recorded traces against the specification.  Exit 0: held on everything explored;
exit 1: a violation not listed in known-findings.jsonl; exit 2: the machinery failed.
"""
import argparse
import json
import os
import re
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import pipeline  # noqa: E402
import plan  # noqa: E402


def known():
    out = []
    p = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def matches(entry, prop, clause, ev):
    """an open finding names a clause and the exact circumstances under which it fails"""
    if entry.get("status") != "open" or entry["property"] != prop or clause not in entry["clauses"]:
        return False
    return all(re.fullmatch(rx, str(ev.get(k, ""))) for k, rx in entry.get("where", {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") else None
    work = tempfile.mkdtemp(prefix="mvchk.", dir=base)
    kf = known()
    violations, findings, fams = [], {}, []
    states = transitions = traces = events = 0
    samples = []
    try:
        for n, job in enumerate(plan.jobs(a.prop, tier)):
            sub = os.path.join(work, str(n))
            os.mkdir(sub)
            r = job.run(a.prop, a.seed, sub, tier)
            states += r.states
            transitions += r.transitions
            traces += r.scenarios
            events += r.events
            index = None
            fams.append({"family": job.name, "scenarios": r.scenarios, "events": r.events, "states": r.states,
                         "seconds": r.timing, **(r.extra or {})})
            if r.scn and len(samples) < 6:
                with open(r.scn[0]) as f:
                    line = f.readline()
                    if line:
                        sc = json.loads(line)
                        samples.append({"id": sc.get("id"), "ops": [o.get("op") for o in sc.get("ops", [])][:12]})
            for sc, i, fam, clause in r.fails:
                if index is None:
                    index = {}
                    for t in r.traces:
                        for line in open(t):
                            e = json.loads(line)
                            index[(e["sc"], int(e["i"]))] = e
                ev = index.get((sc, int(i)), {"sc": sc})
                k = next((e for e in kf if matches(e, a.prop, clause, ev)), None)
                if k is not None:
                    findings.setdefault(k["what"], 0)
                    findings[k["what"]] += 1
                    continue
                violations.append((job, r, sc, int(i), clause, ev))
            if not violations and not a.keep:
                shutil.rmtree(sub, ignore_errors=True)
    except Exception as e:  # the machinery, not the property
        print(f"ERROR property={a.prop}: {type(e).__name__}: {e}", file=sys.stderr)
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        return 2

    for what, n in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={a.prop} {what} ({n} behaviours)")

    replay = None
    if violations:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{a.prop}.json")
        seen, entries = set(), []
        for job, r, sc, i, clause, ev in violations:
            if (sc, clause) in seen or len(entries) >= 20:
                continue
            seen.add((sc, clause))
            scen = None
            for s in r.scn:
                for line in open(s):
                    o = json.loads(line)
                    if o["id"] == sc:
                        scen = o
            entries.append({"property": a.prop, "clause": clause, "scenario": sc, "step": i,
                            "driver": job.driver, "event": ev, "behaviour": scen})
        with open(replay, "w") as f:
            json.dump(entries, f, indent=1)
        groups = {}
        for job, r, sc, i, clause, ev in violations:
            groups.setdefault((job.name, clause, str(ev.get("fid", ev.get("op", "")))), []).append(sc)
        for (name, clause, fid), scs in sorted(groups.items())[:40]:
            print(f"  {name}: {clause} [{fid}] x{len(scs)}, e.g. {scs[0]}")
        print(f"VIOLATION property={a.prop} replay={replay}")

    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": plan.LEVEL,
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "samples": samples, "events": events, "families": fams,
            "bounds": plan.bounds(a.prop, tier),
        },
        "violations": len(violations),
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
    }
    if findings:
        ev["coverage"]["known_findings"] = findings
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} {tier}: {traces} behaviours, {events} events, {states} states, {len(violations)} violations, {ev['wall_s']} s")
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: every behaviour explored is one the specification allows.  Exit 1 and a
line "VIOLATION property=<id> replay=<path>": a behaviour it does not allow.
Any other exit is an error of the machinery.
"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import lpxlib as L
import props
import suites

VERIF = build.VERIF


def matches(label, pats):
    return any(label == p or (p.endswith("*") and label.startswith(p[:-1])) for p in pats)


def known_findings(pid):
    r = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % pid):
                r.append(line[len("finding: property=%s " % pid):].strip())
    return r


def write_replay(pid, n, suite, item, labs, where):
    d = os.path.join(VERIF, "build", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump({"property": pid, "suite": suite, "item": item, "labels": labs, "events": where}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    labs = suites.SUITES[r["suite"]].again(r["item"])
    print("recorded:", r["labels"], "now:", labs)
    return 1 if labs else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--max", type=int, default=3, help="stop after that many violations")
    a = ap.parse_args()
    if a.prop.endswith(".json"):
        return replay(a.prop)
    pid = a.prop
    t0 = time.time()
    limit = 700 if a.tier == "thorough" else 400
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "suites": {}, "samples": []}
    violations = []
    notes = []
    for num, (sname, par, q, t) in enumerate(props.PLAN[pid]):
        suite = suites.SUITES[sname]
        total = max(1, int((t if a.tier == "thorough" else q) * a.scale))
        done = 0
        batch = suite.batch if hasattr(suite, "batch") else 2500
        # the first items show how long they take (changed code may not terminate)
        size = min(64, batch)
        while done < total and len(violations) < a.max:
            # every entry of the plan has its share of the time
            if done and time.time() - t0 > limit * (num + 1) / len(props.PLAN[pid]):
                notes.append("%s: stopped after %d of %d items (time)" % (sname, done, total))
                break
            k = min(size, total - done)
            t1 = time.time()
            items = suite.items("%s/%d/%s/%d/%d" % (pid, a.seed, a.tier, num, done), k, par)
            try:
                res = suite.run(items, a.tier)
            except build.HarnessError:
                if not suite.optional:
                    raise
                notes.append("%s: skipped, the harness does not fit the internal interfaces of this tree" % sname)
                break
            done += k
            took = time.time() - t1
            size = batch if took < 20 else int(min(batch, max(32, k * 60 / took)))
            cov["states"] += res["states"]
            cov["transitions"] += res["transitions"]
            cov["traces_validated_against_impl"] += res["traces"]
            cov["events"] += res["events"]
            st = cov["suites"].setdefault(sname, {"items": 0, "events": 0, "kinds": {}})
            st["items"] += k
            st["events"] += res["events"]
            for kk, v in res["kinds"].items():
                st["kinds"][kk] = st["kinds"].get(kk, 0) + v
            if not any(s.get("suite") == sname for s in cov["samples"]):
                cov["samples"].append({"suite": sname, "item": res["sample"]})
            for i in sorted(res["rejects"]):
                rej = res["rejects"][i]
                labs = [x for x in suites.labels(rej) if matches(x, props.LABELS[pid])]
                if not labs:
                    other = suites.labels(rej)
                    notes.append("%s: item rejected for other reasons: %s" % (sname, other))
                    continue
                rep = suite.repeats(items[i], labs)
                if not rep:
                    notes.append("%s: rejection did not repeat: %s" % (sname, labs))
                    continue
                path = write_replay(pid, len(violations), sname, items[i], labs, rej)
                print("VIOLATION property=%s replay=%s labels=%s" % (pid, path, ",".join(labs)), flush=True)
                violations.append(path)
                if len(violations) >= a.max:
                    break
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "assumptions": ["TLC and the rational/linear programming overrides (checked against their TLA+ definitions by SelfTest)",
                          "the recording harness reports what crosses the public interfaces"]}
    if notes:
        cov["notes"] = notes[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d traces, %d states, %d violations, %.1f s" %
          (pid, cov["traces_validated_against_impl"], cov["states"], len(violations), time.time() - t0))
    for n in notes[:5]:
        print("note:", n)
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:  # an error of the machinery is neither 0 nor 1
        traceback.print_exc()
        sys.exit(3)

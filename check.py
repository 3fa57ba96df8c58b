#!/usr/bin/env python3
"""check.py PROP: build the harness of PROP from the current /repo tree, run it, write the evidence.

Exit 0: the property held.  Exit 1: a violation was found, printed as
"VIOLATION property=<id> replay=<path>".  Exit 2: the check itself could not run.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402


def load_known():
    """Committed findings: 'known: property=C12 match="..." <what fails>' lines."""
    known = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.md")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property="):
                prop = line.split("property=", 1)[1].split()[0]
                known.append((prop, line.split(None, 2)[2].strip()))
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    try:
        exe = build.build(prop)
    except build.BuildError as e:
        print("ERROR: the harness of %s does not build:\n%s" % (prop, e))
        return 2
    stats_path = os.path.join(evdir, prop + ".stats.json")
    replay = os.path.join(evdir, "replays", "%s-%s-%d.txt" % (prop, tier, seed))
    for p in (stats_path, replay):
        if os.path.exists(p):
            os.remove(p)
    cap = 150 if tier == "quick" else 780
    r = subprocess.run([exe, "run", str(seed), tier, str(cap), stats_path, replay])
    if r.returncode not in (0, 1) or not os.path.exists(stats_path):
        print("ERROR: %s ended with status %d" % (exe, r.returncode))
        return 2
    s = json.load(open(stats_path))
    os.remove(stats_path)
    inconclusive = []
    if s["evaluations"] < s["planned"] and not s["violated"]:
        inconclusive.append("time budget reached after %d of %d planned cases" % (s["evaluations"], s["planned"]))
    if s.get("unconfirmed"):
        inconclusive.append("%d failing cases did not fail again when re-run" % s["unconfirmed"])
    if s.get("errors"):
        inconclusive.append("%d cases ended by the real-time alarm" % s["errors"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s["evaluations"],
            "distinct_nontrivial": s["distinct"],
            "rule": s["rule"],
            "samples": s["samples"],
            "nontrivial": s["nontrivial"],
            "labels": s["labels"],
            "scheduling_points": s["sched_points"],
            "context_switches": s["switches"],
            "virtual_seconds": s["virtual_seconds"],
            "planned": s["planned"],
        },
        "assumptions": [a for a in [s.get("assumptions", "")] if a] + [
            "threads interleave at synchronisation operations, atomics, clock reads, blocking calls and sampled memory accesses of "
            "sequentially consistent memory; weaker memory orders are not explored",
            "time is virtual; all blocking of the library goes through the intercepted pthread/libc calls",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if s["violated"] else 0,
    }
    if inconclusive:
        ev["inconclusive"] = inconclusive
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p, what in load_known():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s seed=%d: %d cases, %d non-trivial, %d distinct non-trivial histories, %.1f s" % (
        prop, tier, seed, s["evaluations"], s["nontrivial"], s["distinct"], time.time() - t0))
    print("  classes: " + ", ".join("%s=%d" % kv for kv in sorted(s["labels"].items())))
    for i in inconclusive:
        print("  INCONCLUSIVE: " + i)
    if s["violated"]:
        print("  " + s["message"])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if s["evaluations"] == 0 or (s["evaluations"] < s["planned"] // 4):
        print("ERROR: too few cases were run for a verdict")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

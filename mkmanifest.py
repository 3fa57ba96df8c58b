#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", i + ".cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing of generated programs under generated schedules",
            "level": "exploration",
            "level_note": "Generated programs and schedules with an explicit oracle; failures are confirmed and shrunk. Not exhaustive; "
                          "sequentially consistent interleavings only; trusts the intercepting scheduler in engine/ and the oracle in harness/%s.cpp." % i,
        })
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "COCPP_VERIF", "enable": "not needed: no hook was added to the library; the checks intercept libc, pthread and compiler instrumentation calls", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check rebuilds the library from /repo's working tree into .cache (git-ignored). See DESIGN.md; findings are in KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

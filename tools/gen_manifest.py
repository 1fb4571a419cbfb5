#!/usr/bin/env python3
"""writes MANIFEST.json from checks/spec.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
from spec import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                   "technique": c.get("technique", "runtime monitoring: offline log checkers under a deterministic scheduler with injected stalls and faults"),
                   "level": c.get("level", "exploration"),
                   "level_note": c.get("note", c["rule"][:300] + " Trusted: the harness (scheduler, interposed libc calls) and its oracle.")})
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none (no hooks in /repo: libc and pthread calls are interposed and the atomics substituted from the harness)",
                     "enable": "nothing to enable; the harness headers in /verif/harness redefine the std::atomic_* names before including /repo/src/include/fn_log.h", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

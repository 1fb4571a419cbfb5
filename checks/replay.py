#!/usr/bin/env python3
"""replay.py <replay.json>: rebuilds the harness from /repo and runs the recorded case again, printing what it reports"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
r = json.load(open(sys.argv[1]))
exe = run.build(r["build"])
rc, out, err, hung = run.worker(exe, {"args": r.get("args", {})}, r["mode"], r["seed"], r["case"], 1, 600, 120, single=True)
print("exit", rc, "hung" if hung else "")
print("\n".join(run.unesc(l) for l in out.split("\n") if l[:1] in "VI"))
print(err[-6000:])
sys.exit(1 if hung or rc not in (0,) or "\nV\t" in "\n" + out else 0)

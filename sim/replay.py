#!/usr/bin/env python3
"""Reproduces a recorded violation:  python3 sim/replay.py FILE
Exit 1 and the violation if it happens again on the current tree, 0 if not."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder  # noqa: E402
import run  # noqa: E402


def main():
    v = json.load(open(sys.argv[1], encoding="utf-8"))
    with run.Work() as work:
        libs = builder.build(work)
        job = {"prop": v["property"], "seed": v["seed"], "tier": v["tier"], "lane": 0, "work": work, "libs": libs, "scenario": v["scenario"]}
        env = run.lane_env(v.get("lane", 0), work, libs["shim"], v.get("env"))
        with open(os.path.join(work, "job.json"), "w") as f:
            json.dump(job, f)
        out = subprocess.run([run.PYTHON, os.path.join(HERE, "lane.py"), "replay", "@" + f.name], env=env, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=run.fixed_layout).stdout
    d = json.loads(out)
    if d["kind"] is None:
        print("not reproduced")
        return 0
    same = d["kind"] == v["kind"] and d["msg"] == v["message"]
    print("VIOLATION property=%s replay=%s" % (v["property"], sys.argv[1]))
    print("  kind=%s%s" % (d["kind"], "" if same else " (differs from the recorded one)"))
    print("  " + d["msg"])
    return 1


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Set-up: builds everything once and shows that the simulator repeats itself: the
same scenarios give the same observations, byte for byte, in two processes."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder  # noqa: E402
import run  # noqa: E402


def main():
    with run.Work() as work:
        try:
            libs = builder.build(work)
        except builder.BuildError as e:
            print(e)
            return 2
        job = {"seed": int(os.environ.get("VERIF_SEED", "1") or 1), "tier": "quick", "lane": 0, "work": work, "libs": libs, "count": 12}
        got = []
        for n in range(2):
            p = subprocess.run([run.PYTHON, os.path.join(HERE, "lane.py"), "digest", json.dumps(job)], env=run.lane_env(0, work, libs["shim"]),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=run.fixed_layout)
            if p.returncode:
                print(p.stderr.decode("utf-8", "replace")[-2000:])
                return 2
            got.append(json.loads(p.stdout))
    ok = True
    for pid in sorted(got[0]):
        same = got[0][pid][0] == got[1][pid][0]
        ok = ok and same
        print("%s: %d runs, %s%s" % (pid, got[0][pid][1], "repeatable" if same else "NOT REPEATABLE", "".join(" | %s" % b for b in got[0][pid][2][:2])))
    return 0 if ok or "--strict" not in sys.argv else 1


if __name__ == "__main__":
    sys.exit(main())

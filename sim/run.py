#!/usr/bin/env python3
"""Runs the check of one property:  python3 sim/run.py P01 [--tier quick|thorough] [--seed N]

Builds the seam and the runtime from /repo's current tree in a scratch
directory, explores the property's scenarios in eight lanes, writes
evidence/<id>.json, and reports a violation with its replay file."""
import argparse
import ctypes
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder  # noqa: E402

PYTHON = os.environ.get("AMASIM_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
LANES = 8


def lane_env(n, work, shim, over=None):
    """the environment of lane n; its variations are part of what is explored"""
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "AMASIM_REPO")}
    e.update({"LD_PRELOAD": shim, "PYTHONHASHSEED": str([0, 1, 7, 42, 1234, 99999, 3, 2 ** 31][n % 8]),
              "PYTHONPYCACHEPREFIX": os.path.join(work, "pyc"), "RUST_BACKTRACE": "0", "PYTHONIOENCODING": "utf-8",
              "LC_ALL": "C.UTF-8", "TZ": "UTC"})
    if n % 8 >= 6:
        e.update({"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"})
    for k, v in (over or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return e


def fixed_layout():
    """addresses are not randomised: where objects lie is part of what a scenario repeats"""
    ctypes.CDLL(None).personality(ctypes.c_ulong(0x0040000))


class Work:
    def __enter__(self):
        base = os.environ.get("AMASIM_TMP", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="amasim-", dir=base)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def fail(msg):
    print("ERROR: " + msg, flush=True)
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--count", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--lanes", type=int, default=LANES)
    ap.add_argument("--all", action="store_true", help="keep exploring after a violation")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    import props
    if a.property not in props.PROPS:
        return fail("no such property")
    prop = props.PROPS[a.property]
    count = a.count or prop.N[tier]
    seconds = a.seconds or (420 if tier == "quick" else 3300)
    with Work() as work:
        try:
            libs = builder.build(work)
        except builder.BuildError as e:
            return fail(str(e))
        built = time.time() - t0
        stop = os.path.join(work, "stop")
        lanes = []
        for n in range(a.lanes):
            job = {"prop": a.property, "seed": a.seed, "tier": tier, "lane": n, "lanes": a.lanes, "first": a.first + n, "count": a.first + count,
                   "seconds": seconds, "work": work, "libs": libs, "stop": stop, "minimise": not a.no_min,
                   "max_found": 5 if a.all else 1}
            err = open(os.path.join(work, "lane-%d.err" % n), "wb")
            p = subprocess.Popen([PYTHON, os.path.join(HERE, "lane.py"), "run", json.dumps(job)], stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=err, env=lane_env(n, work, libs["shim"]), start_new_session=True, preexec_fn=fixed_layout)
            lanes.append((n, p))
        try:
            return collect(a, prop, tier, lanes, stop, work, t0, built, count)
        finally:
            for _, p in lanes:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass


def collect(a, prop, tier, lanes, stop, work, t0, built, count):
    import threading
    found, sums, odd = [], [], []
    lock = threading.Lock()

    def pump(n, p):
        for line in p.stdout:
            d = json.loads(line)
            with lock:
                if "violation" in d:
                    found.append(dict(d["violation"], lane=n))
                    if not a.all:
                        open(stop, "w").close()
                elif "summary" in d:
                    sums.append(d["summary"])
                else:
                    odd.append(d)
        p.wait()

    ts = [threading.Thread(target=pump, args=x) for x in lanes]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    wall = time.time() - t0
    if len(sums) < len(lanes) and not found:
        errs = []
        for n, p in lanes:
            with open(os.path.join(work, "lane-%d.err" % n), "rb") as f:
                e = f.read().decode("utf-8", "replace").strip()
            if e or p.returncode:
                errs.append("lane %d (exit %s): %s" % (n, p.returncode, e[-900:]))
        return fail("lanes ended without a summary:\n" + "\n".join(errs[:2]))
    keys = set()
    faults, counts = {}, {}
    for s in sums:
        keys.update(s["keys"])
        for src, dst in ((s["faults"], faults), (s["counts"], counts)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    runs = sum(s["runs"] for s in sums) + counts.get("helper_runs", 0)
    done = sum(s["done"] for s in sums)
    lane_s = sum(s["wall"] for s in sums) / max(1, len(sums))
    ev = {
        "property": prop.id, "tier": tier, "seed": a.seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": [x for s in sums for x in s["samples"][:1]][:4],
            "simulated_runs": runs,
            "runs_per_hour": int(runs / max(lane_s, 0.001) * 3600),
            "seeds_per_hour": int(done / max(lane_s, 0.001) * 3600),
            "simulated_time": "logical: %d operating-system events observed and decided (the system reads no clock)" % sum(s["events"] for s in sums),
            "faults_injected": faults,
            "distinct_event_histories": sum(s["sigs"] for s in sums),
            "scenario_counts": counts,
            "scenarios_skipped": sum(s["skipped"] for s in sums),
            "scenario_space_asked": count,
            "completed": all(s["complete"] for s in sums) and len(sums) == len(lanes),
            "unrepeatable": odd[:5],
            "real_components": ["compiler (/repo/amanda/compiler, in process)", "amanda/__main__.py", "runtime built from /repo/amanda/vm/src: " + prop.PROFILES, "std/*.ama"],
            "stubbed_components": ["terminal input, output and error streams", "results of open/stat/read/write on source and listing files", "getrandom"],
            "build_s": round(built, 1),
        },
        "assumptions": prop.ASSUME,
        "wall_s": round(wall, 1),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    rdir = os.path.join(VERIF, "evidence", "replay")
    known = load_known(prop.id)
    bad = 0
    shown = set()
    for v in found:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d-%d.json" % (prop.id, v["seed"], v["index"]))
        v["env"] = {k: v["env"].get(k) for k in v["env"]}
        with open(path, "w") as f:
            json.dump(v, f, indent=1, ensure_ascii=False)
            f.write("\n")
        k = next((t for t in known if t[0] == v["kind"] and t[1] in v["message"]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k[2]))
            continue
        bad += 1
        if (v["kind"], v["message"]) in shown or len(shown) >= 8:
            continue
        shown.add((v["kind"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        print("  kind=%s seed=%d index=%d" % (v["kind"], v["seed"], v["index"]))
        print("  " + v["message"])
    for d in odd[:3]:
        print("note: unrepeatable observation ignored: %s" % json.dumps(d, ensure_ascii=False)[:300])
    print("%s %s: %d scenarios, %d runs, %d distinct non-trivial, %.0f s (build %.0f s)%s" %
          (prop.id, tier, done, runs, len(keys), wall, built, "" if ev["coverage"]["completed"] else " [stopped before the end]"))
    return 1 if bad else 0


def load_known(pid):
    """known findings that are not repaired: kind | text in the message | what fails"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
            if line.startswith("open: property=%s " % pid):
                kind, text, what = [x.strip() for x in line.split(" ", 2)[2].split("|", 2)]
                out.append((kind, text, what))
    except OSError:
        pass
    return out


if __name__ == "__main__":
    sys.exit(main())

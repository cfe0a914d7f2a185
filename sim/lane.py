"""One lane: a process with the libc seam preloaded that generates, runs and
judges its share of a check's scenarios (or serves runs to another lane).

  lane.py run    <job.json>      explore; one JSON line per finding, then a summary
  lane.py serve  <job.json>      read scenarios on fd 0, write observations on fd 1
"""
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import engine  # noqa: E402
import core  # noqa: E402


FIXED = 0x0040000      # no randomisation of addresses


def personality(bits):
    """makes the address layout of a process to be started a choice of the simulation"""
    import ctypes
    call = ctypes.CDLL(None).personality
    return lambda: call(ctypes.c_ulong(bits))


class Helper:
    """another lane process with a different environment, used as a twin"""
    def __init__(self, job, n, env):
        import subprocess
        e = dict(os.environ)
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        self.env = env
        sub = dict(job, lane="%s-h%d" % (job["lane"], n))
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "lane.py"), "serve", json.dumps(sub)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, preexec_fn=personality(int(env.get("AMASIM_LAYOUT") or FIXED)))

    def run(self, sc):
        self.p.stdin.write((json.dumps(sc) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("helper lane died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


def placeless(b, d):
    """text with the place of the project called alike, however its characters came out"""
    names = {os.fsencode(d), d.encode("ascii", "backslashreplace"), os.fsencode(d).decode("ascii", "surrogateescape").encode("utf-8", "backslashreplace"),
             os.fsencode(d).decode("ascii", "surrogateescape").encode("utf-8", "replace")}
    for n in sorted(names, key=len, reverse=True):
        b = b.replace(n, b"<project>")
    return b


def pack(o):
    return {"out": core.b64(o.out), "err": core.b64(placeless(o.err, o.dir)), "status": o.status, "in_pos": o.in_pos, "hang": o.hang,
            "flood": o.flood, "killed": o.killed, "marks": o.marks, "maxrss": o.maxrss,
            "access": [[e.kind, e.res if e.kind != 3 else (e.res >= 0), e.err, core.clip(e.data.replace(os.fsencode(o.dir), b"<project>"), 300)]
                       for e in o.events if e.kind in (3, 4, 5, 6, 8)],
            "started": o.started, "cpu": o.cpu,
            "after": sorted((k, core.b64(v) if v is not None else None) for k, v in o.dir_after.items())}


def serve(job):
    inp = os.fdopen(os.dup(0), "r")
    outfd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    eng = engine.Engine(job["work"], job["libs"], job["lane"])
    for line in inp:
        sc = json.loads(line)
        o = eng.run(sc)
        write_all(outfd, (json.dumps(pack(o)) + "\n").encode())


def write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def make(job):
    import props
    prop = props.PROPS[job["prop"]]()
    eng = engine.Engine(job["work"], job["libs"], job["lane"])
    helpers = [Helper(job, i, env) for i, env in enumerate(getattr(prop, "HELPERS", ()))]
    ctx = core.Ctx(eng, helpers)
    ctx.lane_env = {k: os.environ.get(k) for k in ("PYTHONHASHSEED", "LC_ALL", "PYTHONUTF8")}
    return prop, ctx


def scenario(prop, seed, idx, tier):
    return prop.scenario(random.Random("%s|%s|%d" % (prop.id, seed, idx)), idx, tier)


def readable(sc):
    """a scenario with its programs as source text"""
    import lang

    def walk(x):
        if isinstance(x, dict):
            if "mods" in x and "main" in x:
                return {k: core.clip(v, 1200) for k, v in lang.render(x).items()}
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return core.clip(x, 1200) if isinstance(x, str) else x
    return walk(sc)


def fails_like(prop, ctx, kind):
    def f(sc):
        json.dumps(sc)
        v = prop.check(ctx, sc)
        return v is not None and v.kind == kind and (kind != "rejected" or v.msg == f.msg)
    f.msg = None
    return f


def explore(job):
    outfd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    prop, ctx = make(job)
    say = lambda d: write_all(outfd, (json.dumps(d) + "\n").encode())
    t0 = time.time()
    done = skipped = found = 0
    digest = 0
    import zlib
    idx = job["first"]
    while idx < job["count"]:
        if time.time() - t0 > job["seconds"] or os.path.exists(job["stop"]):
            break
        sc = scenario(prop, job["seed"], idx, job["tier"])
        if sc is None:
            skipped += 1
            idx += job["lanes"]
            continue
        text = json.dumps(sc, sort_keys=True)
        digest = zlib.crc32(text.encode(), digest)
        v = prop.check(ctx, json.loads(text))
        done += 1
        if len(ctx.samples) < 2:
            ctx.samples.append(readable(sc))
        if v is not None:
            # a violation is reported only if it happens again, exactly, from its scenario
            for _ in range(4):
                w = prop.check(ctx, json.loads(text))
                if w is not None and w.kind == v.kind:
                    break
            if w is None or w.kind != v.kind:
                say({"unrepeatable": [v.kind, v.msg, w and w.kind], "index": idx})
            else:
                found += 1
                f = fails_like(prop, ctx, v.kind)
                f.msg = v.msg
                small = sc
                if job.get("minimise", True):
                    small = core.Minimiser(f, seconds=job.get("min_seconds", 45), stop=lambda: os.path.exists(job["stop"])).run(json.loads(text))
                w = prop.check(ctx, small) or v
                say({"violation": {"property": prop.id, "kind": v.kind, "message": w.msg, "seed": job["seed"], "index": idx,
                                   "tier": job["tier"], "env": ctx.lane_env, "scenario": small, "shown": readable(small), "found_as": sc, "first_message": v.msg}})
                if found >= job.get("max_found", 1):
                    break
        idx += job["lanes"]
    for h in ctx.helpers:
        h.close()
    e = ctx.eng
    say({"summary": {"lane": job["lane"], "done": done, "skipped": skipped, "runs": e.runs, "events": e.events,
                     "faults": e.fault_counts, "counts": ctx.counts, "keys": sorted(ctx.keys), "sigs": len(e.sigs),
                     "samples": ctx.samples, "digest": digest, "wall": time.time() - t0, "complete": idx >= job["count"]}})


def digest(job):
    """a digest of every observation of a few scenarios of every property (repeatability self-test)"""
    import hashlib
    import props
    outfd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out = {}
    for pid in sorted(props.PROPS):
        prop, ctx = make(dict(job, prop=pid))
        h, real = hashlib.sha256(), ctx.eng.run

        def spy(sc):
            o = real(sc)
            d = pack(o)
            d.pop("maxrss")
            d.pop("cpu")
            h.update(json.dumps(d, sort_keys=True).encode())
            return o
        ctx.eng.run = spy
        bad = []
        for i in range(job["count"]):
            sc = scenario(prop, job["seed"], i, "quick")
            if sc is not None:
                h.update(json.dumps(sc, sort_keys=True).encode())
                v = prop.check(ctx, sc)
                if v:
                    bad.append([i, v.kind, v.msg[:300]])
        for x in ctx.helpers:
            x.close()
        out[pid] = [h.hexdigest(), ctx.eng.runs, bad]
    write_all(outfd, json.dumps(out).encode())


def replay(job):
    outfd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    prop, ctx = make(job)
    v = prop.check(ctx, job["scenario"])
    write_all(outfd, (json.dumps({"kind": v and v.kind, "msg": v and v.msg}) + "\n").encode())
    for h in ctx.helpers:
        h.close()


if __name__ == "__main__":
    job = json.load(open(sys.argv[2][1:])) if sys.argv[2].startswith("@") else json.loads(sys.argv[2])
    {"run": explore, "serve": serve, "digest": digest, "replay": replay}[sys.argv[1]](job)

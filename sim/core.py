"""What every property check is made of: the context a lane gives a check, the
comparison of an execution with the reference model, and the minimiser."""
import base64
import copy
import hashlib
import json
import random
import re
import time
from collections import Counter

import gen
import names
import lang


class Violation:
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg

    def __repr__(self):
        return "%s: %s" % (self.kind, self.msg)


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


def clip(b, n=400):
    s = b.decode("utf-8", "backslashreplace") if isinstance(b, bytes) else b
    return s if len(s) <= n else s[:n // 2] + " […] " + s[-n // 2:]


class Ctx:
    """one lane's view: runs, counters, helper engines"""
    def __init__(self, eng, helpers=()):
        self.eng = eng
        self.helpers = list(helpers)
        self.counts = Counter()
        self.keys = set()
        self.samples = []

    def run(self, sc):
        return self.eng.run(sc)

    def count(self, k, n=1):
        self.counts[k] += n

    def nontrivial(self, *what):
        self.keys.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def model(self, prog, inp=b"", fuel=60000, in_end_err=False):
        return lang.Interp(prog, inp, fuel, in_end_err).run()


# ------------------------------------------------------------------ oracles
def at(ln):
    """a statement written on several lines may be reported at any of them"""
    return "%d" % ln if isinstance(ln, int) else "(?:%s)" % "|".join(str(k) for k in range(ln[0], ln[1] + 1))


def expected_err(r):
    """regular expression of the report of run-time error r.err"""
    e = r.err
    out = []
    if e.trace:
        out.append(re.escape("Fluxo de execução: ") + "\n")
        for ln, name in e.trace:
            out.append(r"    Linha %s, na função (?:[^\s:]+::)*%s\n" % (at(ln), re.escape(name)))
    msg = r"[^\n]+" if e.msg is None else re.escape(e.msg)
    out.append(r"Erro na linha %s: %s\.?\s*" % (at(e.line), msg))
    return "".join(out)


def plain_crash(o):
    """endings no run may have, whatever the program and the faults"""
    if o.hang:
        return Violation("hang", "the run did not end")
    if o.flood:
        return Violation("flood", "the run exceeded the bound on events or output")
    if o.killed:
        return None
    if o.status is None or o.status < 0:
        return Violation("signal", "ended by signal %s: %s" % (o.status, clip(o.err)))
    if b"panicked at" in o.err or o.status == 101:
        m = re.search(rb"panicked at ([^\n]*)\n([^\n]*)", o.err)
        where = (m.group(1).decode("utf-8", "replace").split("/")[-1] + " " + m.group(2).decode("utf-8", "replace")) if m else ""
        return Violation("panic", "internal error of the runtime: %s" % clip(where))
    if b"Traceback (most recent call last)" in o.err:
        return Violation("traceback", "internal error of the compiler: %s" % clip(o.err[-300:]))
    return None


def rejected(o):
    return o.status == 1 and not o.started and o.err.startswith(b"\nFicheiro")


def reject_class(o):
    t = o.err.decode("utf-8", "replace").strip().split("\n")[-1]
    return re.sub(r"'[^']*'", "'…'", t)[:120]


def order_ok(o, r, inp):
    """what had been delivered when each read of the input began"""
    served = 0
    delivered = 0
    for e in o.events:
        if e.kind == 2 and e.fd == 1 and e.res > 0:
            delivered += e.res
        elif e.kind == 1:
            lines = inp[:served].count(b"\n")
            if served == len(inp) and not inp.endswith(b"\n") and served and lines + 1 < len(r.reqs) and delivered == r.reqs[lines + 1]:
                lines += 1      # the last line had no terminator
            if lines >= len(r.reqs):
                return Violation("read-ahead", "input was read although the program had made only %d requests, all answered" % len(r.reqs))
            if delivered < r.reqs[lines]:
                return Violation("prompt-order", "a read for request %d began when only %d of the %d bytes printed before it had been delivered" %
                                 (lines + 1, delivered, r.reqs[lines]))
            if delivered > r.reqs[lines]:
                return Violation("prompt-order", "more output than the program had printed before request %d" % (lines + 1))
            if e.res > 0:
                served += e.res
    return None


def judge(o, r, inp, order=True, err_text=True):
    """full comparison with the reference model, in an execution without permanent faults"""
    v = plain_crash(o)
    if v:
        return v
    if not o.started:
        if rejected(o):
            return Violation("rejected", "a valid program was rejected: %s" % reject_class(o))
        return Violation("not-run", "a valid program was not run: %s" % clip(o.err))
    if o.out != r.outb:
        n = 0
        for a, b in zip(o.out, r.outb):
            if a != b:
                break
            n += 1
        return Violation("output", "output differs at byte %d: got %r, the language defines %r" %
                         (n, clip(o.out[max(0, n - 20):n + 60], 200), clip(r.outb[max(0, n - 20):n + 60], 200)) +
                         (" (stderr %s)" % clip(o.err, 200) if o.err else ""))
    if r.err is None:
        if o.err:
            return Violation("stderr", "a run without errors wrote to the error stream: %s" % clip(o.err))
        if o.status != 0:
            return Violation("status", "a run without errors ended with status %d" % o.status)
    else:
        if o.status == 0:
            return Violation("status", "a run-time error ended with status 0")
        if err_text:
            text = o.err.decode("utf-8", "replace")
            if not re.fullmatch(expected_err(r), text):
                return Violation("report", "the error report is %r, expected %s (line %s, trace %s)" %
                                 (clip(text), r.err.msg, r.err.line, r.err.trace[:6]))
        elif not o.err:
            return Violation("report", "a run-time error was not reported")
        first_err = None
        for i, e in enumerate(o.events):
            if e.kind == 2 and e.fd == 2 and first_err is None:
                first_err = i
            if first_err is not None and e.kind == 2 and e.fd == 1 and e.res > 0:
                return Violation("err-order", "output was written after the error report began")
    if order:
        return order_ok(o, r, inp)
    return None


def prefix_ok(o, r):
    if not r.outb.startswith(o.out):
        n = 0
        for a, b in zip(o.out, r.outb):
            if a != b:
                break
            n += 1
        return Violation("not-prefix", "what reached the output is not a prefix of the program's output (byte %d): got %r, defined %r" %
                         (n, clip(o.out[max(0, n - 20):n + 60], 200), clip(r.outb[max(0, n - 20):n + 60], 200)))
    return None


def summary(o):
    """what a user sees of a run"""
    return {"out": b64(o.out), "err": b64(o.err), "status": o.status, "in_pos": o.in_pos}


# ------------------------------------------------------------------ scenario helpers
def programs(rng, multi=0.0, style=None, nmods=None, tries=20, fuel=30000, valid=True, types=False, **over):
    """a generated program with an input that answers its requests -> (prog, inp)"""
    for _ in range(tries):
        try:
            if rng.random() < multi:
                p = gen.MultiGen(rng, nmods, style, **over).program()
            else:
                p = gen.Gen(rng, **over).program()
        except RecursionError:
            continue
        x = rng.random()
        if x < 0.06 and types:
            names.like_types(rng, p)
        elif 0.06 <= x < 0.2:
            names.like_globals(rng, p)
        inp, r = gen.answer(p, rng, fuel)
        if inp is None:
            continue
        if valid and r.err is not None:
            continue
        return p, inp
    return None


def chunks(rng, n, eintr=0.15):
    """a delivery plan: short, interrupted and full transfers"""
    out = []
    style = rng.random()
    for _ in range(n):
        if rng.random() < eintr:
            out.append(-4)
        elif style < 0.35:
            out.append(1)
        elif style < 0.7:
            out.append(rng.randrange(1, 6))
        else:
            out.append(rng.randrange(1, 40))
    return out


# ------------------------------------------------------------------ minimiser
LISTS = ("items", "b", "el", "cs", "arms", "ei")


def stmt_lists(x, out=None):
    if out is None:
        out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k in LISTS and isinstance(v, list):
                out.append(v)
            stmt_lists(v, out)
    elif isinstance(x, list):
        for v in x:
            stmt_lists(v, out)
    return out


def exprs(x, out=None):
    """(container, key) of every expression worth replacing"""
    if out is None:
        out = []
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("e", "c", "z", "a", "l", "r", "x", "y", "i", "o", "d") and isinstance(v, dict) and "k" in v:
                out.append((x, k))
            exprs(v, out)
    elif isinstance(x, list):
        for v in x:
            exprs(v, out)
    return out


class Spent(Exception):
    pass


class Minimiser:
    def __init__(self, fails, budget=400, seconds=45, stop=lambda: False):
        self.fails = fails
        self.left = budget
        self.deadline = time.time() + seconds
        self.stop = stop

    def ok(self, sc):
        self.left -= 1
        try:
            return self.fails(sc)
        except Exception:
            return False

    def run(self, sc):
        self.best = sc = copy.deepcopy(sc)
        again = True
        try:
            while again:
                again = False
                for step in (self.plans, self.calls, self.modules, self.files, self.statements, self.lines, self.expressions):
                    new = step(sc)
                    if new is not None:
                        sc = new
                        again = True
        except Spent:
            pass
        return self.best

    def attempt(self, sc, fn):
        if self.left <= 0 or time.time() > self.deadline or self.stop():
            raise Spent()
        c = copy.deepcopy(sc)
        if fn(c) is False:
            return None
        if self.ok(c):
            self.best = c
            return c
        return None

    def plans(self, sc):
        changed = None
        def walk(x, path, out):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("in_chunks", "chunks") and isinstance(v, list) and v:
                        out.append(path + [k])
                    if k == "rules" and isinstance(v, list):
                        for i in range(len(v)):
                            out.append(path + [k, i])
                    if k in ("kill_at", "in_end_errno", "cap") and v not in (None, -1, 0):
                        out.append(path + [k])
                    if k in ("plan", "o1", "o2", "calls", "steps"):
                        walk(v, path + [k], out)
            elif isinstance(x, list):
                for i, v in enumerate(x):
                    walk(v, path + [i], out)
        cand = []
        walk(sc, [], cand)
        for path in reversed(cand):
            def drop(c, path=path):
                for p in path[:-1]:
                    c = c[p]
                if path[-1] in ("in_chunks", "chunks"):
                    c[path[-1]] = []
                else:
                    del c[path[-1]]
            n = self.attempt(changed or sc, drop)
            if n is None and path[-1] in ("in_chunks", "chunks"):
                def half(c, path=path):
                    for p in path[:-1]:
                        c = c[p]
                    c[path[-1]] = c[path[-1]][:len(c[path[-1]]) // 2]
                n = self.attempt(changed or sc, half)
            if n is not None:
                changed = n
        return changed

    def calls(self, sc):
        changed = None
        if not isinstance(sc.get("calls"), list):
            return None
        i = 0
        cur = sc
        while i < len(cur["calls"]) and len(cur["calls"]) > 1:
            n = self.attempt(cur, lambda c: c["calls"].pop(i))
            if n is None:
                i += 1
            else:
                cur = changed = n
        return changed

    def modules(self, sc):
        changed = None
        p = sc.get("prog")
        if not p or len(p["mods"]) < 2:
            return None
        cur = sc
        for m in list(p["mods"]):
            if m == p["main"]:
                continue
            def drop(c, m=m):
                mods = c["prog"]["mods"]
                if m not in mods:
                    return False
                del mods[m]
                for x in mods.values():
                    x["imports"] = [i for i in x.get("imports", []) if i["mod"] != m]
            n = self.attempt(cur, drop)
            if n is not None:
                cur = changed = n
        return changed

    def files(self, sc):
        changed = None
        if not isinstance(sc.get("files"), dict):
            return None
        cur = sc
        for f in list(sc["files"]):
            if f == "main.ama" or len(cur["files"]) < 2:
                continue
            n = self.attempt(cur, lambda c: c["files"].pop(f))
            if n is not None:
                cur = changed = n
        return changed

    def statements(self, sc):
        if not sc.get("prog"):
            return None
        changed = None
        cur = sc
        size = 8
        while size >= 1:
            k = 0
            while True:
                lists = stmt_lists(cur["prog"])
                if k >= len(lists):
                    break
                i = 0
                while True:
                    lists = stmt_lists(cur["prog"])
                    if k >= len(lists) or i >= len(lists[k]):
                        break
                    def cut(c):
                        L = stmt_lists(c["prog"])[k]
                        del L[i:i + size]
                    n = self.attempt(cur, cut)
                    if n is None:
                        i += size
                    else:
                        cur = changed = n
                    if self.left <= 0:
                        return changed
                k += 1
            size //= 4 if size > 2 else 2
        # a block in place of the statement that holds it
        k = 0
        while self.left > 0:
            lists = stmt_lists(cur["prog"])
            if k >= len(lists):
                break
            for i in range(len(lists[k])):
                s = lists[k][i]
                if s.get("k") in ("se", "enq", "esc", "seig"):
                    def hoist(c):
                        L = stmt_lists(c["prog"])[k]
                        L[i:i + 1] = L[i].get("b") or (L[i].get("cs") or [{"b": []}])[0]["b"]
                    n = self.attempt(cur, hoist)
                    if n is not None:
                        cur = changed = n
                        break
            k += 1
        return changed

    def lines(self, sc):
        """plain texts: drop lines"""
        if sc.get("prog") or not isinstance(sc.get("files"), dict):
            return None
        changed, cur = None, sc
        for f in list(sc["files"]):
            t = cur["files"].get(f)
            if not isinstance(t, str):
                continue
            size = max(1, len(t.split("\n")) // 2)
            while size >= 1 and self.left > 0:
                i = 0
                while i < len(cur["files"][f].split("\n")) and self.left > 0:
                    def cut(c):
                        L = c["files"][f].split("\n")
                        del L[i:i + size]
                        c["files"][f] = "\n".join(L)
                    n = self.attempt(cur, cut)
                    if n is None:
                        i += size
                    else:
                        cur = changed = n
                size //= 2
        return changed

    def expressions(self, sc):
        if not sc.get("prog"):
            return None
        changed, cur = None, sc
        k = 0
        while self.left > 0:
            es = exprs(cur["prog"])
            if k >= len(es):
                break
            box, key = es[k]
            e = box[key]
            if e["k"] in ("int", "bool", "txt", "real", "var", "gv", "alvo", "nulo"):
                k += 1
                continue
            subs = [v for v in e.values() if isinstance(v, dict) and "k" in v] + [v for v in e.get("a", []) if isinstance(v, dict)]
            for new in [{"k": "int", "v": 1}, {"k": "txt", "v": "a"}, {"k": "bool", "v": True}] + subs[:3]:
                def put(c):
                    b, kk = exprs(c["prog"])[k]
                    b[kk] = copy.deepcopy(new)
                n = self.attempt(cur, put)
                if n is not None:
                    cur = changed = n
                    break
            k += 1
        return changed

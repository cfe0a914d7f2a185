"""The property checks: how each one's scenarios are made and judged.

A scenario is a JSON object holding everything a run depends on; check() runs it
through the real system as often as it needs, and compares."""
import base64
import copy
import json
import random
import re

import effects
import gen
import lang
from core import (Violation, b64, chunks, clip, judge, order_ok, plain_crash, prefix_ok, programs, reject_class, rejected, unb64)

EIO, EINTR, EAGAIN, ENOENT, EACCES, ENOSPC, EPIPE, EMFILE, ENOMEM, EISDIR = 5, 4, 11, 2, 13, 28, 32, 24, 12, 21

PROPS = {}


class Prop:
    id = None
    N = {"quick": 1000, "thorough": 20000}
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation: seeded search over programs, schedules of I/O and faults, compared with an executable reference model"
    PROFILES = "debug profile"
    RULE = ""
    ASSUME = []
    HELPERS = ()

    def __init_subclass__(cls):
        if cls.id:
            PROPS[cls.id] = cls


EOLS = ["crlf", "cr", "bare", "note", "crlf bare"]


def ends(files, eol):
    """the same sources as other systems' editors leave them: other line ends, a last line without one"""
    if not eol:
        return files
    out = {}
    for path, text in files.items():
        if isinstance(text, str):
            if "bare" in eol:
                text = text.rstrip("\n")
            if eol == "note":
                text = text.rstrip("\n") + "\n# fim"
            text = text.replace("\n", "\r\n" if "crlf" in eol else "\r" if eol == "cr" else "\n")
        out[path] = text
    return out


def some_ends(rng):
    return {"eol": rng.choice(EOLS)} if rng.random() < 0.1 else {}


MODEL = "the reference model in sim/lang.py states the language's rules"


class ModelProp(Prop):
    """scenarios judged by full comparison with the reference model"""
    ORDER = True

    def check(self, ctx, sc):
        files = ends(lang.render(sc["prog"]), sc.get("eol"))
        inp = unb64(sc.get("inp", ""))
        plan = dict(sc.get("plan") or {}, inp=b64(inp))
        r = ctx.model(sc["prog"], inp, in_end_err=bool(plan.get("in_end_errno")))
        if r.fuel_out:
            ctx.count("model_out_of_fuel")
            return None
        o = ctx.run({"files": files, "main": sc["prog"]["mods"][sc["prog"]["main"]]["path"], "plan": plan, "profile": sc.get("profile", "debug")})
        self.note(ctx, sc, r, o)
        return judge(o, r, inp, self.ORDER)

    def note(self, ctx, sc, r, o):
        ctx.count("requests", len(r.reqs))
        ctx.count("ended_by_runtime_error" if r.err else "ended_normally")
        if r.outb:
            ctx.nontrivial(r.outb, tuple(r.reqs), r.exit)


class P01(ModelProp):
    id = "P01"
    N = {"quick": 7500, "thorough": 120000}
    RULE = ("seeded generation of typed programs over the whole language (1 in 5 of several modules) with an input that answers every request, 1 in 7 made so that "
            "every function and method changes the variables, vectors, records and options that the expressions around its calls read; "
            "non-trivial: the program prints; distinct by (output, request history, status)")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        over = dict(input=rng.choice([0.05, 0.3, 0.6]))
        if rng.random() < 0.3:
            over.update(edepth=5, top=6)
        g = (effects.program(rng), b"") if rng.random() < 0.14 else programs(rng, multi=0.2, types=True, **over)
        if not g:
            return None
        p, inp = g
        return {"prog": p, "inp": b64(inp), "profile": "release" if i // 8 % 2 else "debug", **some_ends(rng),
                "plan": {"in_chunks": chunks(rng, 30, 0.05)} if rng.random() < 0.3 else {}}


import inject  # noqa: E402
import lane  # noqa: E402


class P02(ModelProp):
    id = "P02"
    N = {"quick": 6000, "thorough": 120000}
    RULE = ("a valid generated program (1 in 4 of several modules) into which one run-time fault is planted at a random statement, to strike the n-th time "
            "it is reached (31 kinds of faulting operation in 29 expression positions), or whose input has a malformed line, or which is generated with "
            "risky operations; non-trivial: the run ends in a run-time error; distinct by (output, message, line, trace)")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        prof = "release" if i // 8 % 2 else "debug"
        x = rng.random()
        for _ in range(8):
            if x < 0.62:
                g = programs(rng, multi=0.25, input=0.05, depth=3, top=6)
                if not g:
                    return None
                p = inject.plant(rng, g[0])
                inp, r = gen.answer(p, rng, 30000)
                if inp is None or r.err is None:
                    continue
            elif x < 0.78:
                g = programs(rng, multi=0.1, input=0.8, depth=3, top=8)
                if not g:
                    return None
                p = g[0]
                r = lang.Interp(p, g[1], 60000).run()
                inp = inject.bad_input(rng, r.reqfn, g[1])
                if inp is None:
                    continue
            else:
                g = programs(rng, multi=0.15, valid=False, faulty=6.0, big=0.15, edepth=4)
                if not g:
                    return None
                p, inp = g
            return {"prog": p, "inp": b64(inp), "profile": prof, **some_ends(rng)}
        return None

    def note(self, ctx, sc, r, o):
        if r.err:
            ctx.nontrivial(r.outb, r.err.msg, r.err.line, r.err.trace)
            ctx.count("fault: " + (re.sub(r"'[^']*'|\d+", "…", r.err.msg)[:60] if r.err.msg else "input"))
        else:
            ctx.count("no fault met")


# ------------------------------------------------------------------ P03
WEIRD = ["", " ", "  com espaços  ", "olá", "ção", "日本語", "𝛀x", "e\u0301", "👩‍👩‍👧", "tab\taqui", "\r", "fim\r", "\\n", '"aspas"', "{x}", "0", "-1", "1.5", "nulo",
         "\u2028", "\u0085", "\x00", "\ufeff", "a" * 50]


def text_line(rng, clusters):
    x = rng.random()
    if x < 0.6:
        t = rng.choice(WEIRD)
        return t if clusters or not ("\u0301" in t or "\u200d" in t) else "cluster"
    if x < 0.9:
        return "".join(rng.choice("ab çãé€𝛀 0") for _ in range(rng.randrange(1, 30)))
    return rng.choice(["x", "é", "€", "𝛀"]) * rng.choice([500, 2047, 2731, 4096, 8190, 8191, 8192, 8193, 9000, 20000])


def echo_program(rng):
    """requests in loops, calls and expressions, every value echoed"""
    from gen import I, T, V, bin_, call, decl, ex, func, mo, para, ret, set_, single
    items = [decl("total", "int", I(0)), decl("soma", "real", {"k": "real", "s": "0.0"}),
             func("pede", [["m", "texto"]], "texto", [decl("t", "texto", call("leia", V("m"))), ret(V("t"))]),
             func("junta", [["a", "texto"], ["b", "texto"]], "texto", [ret({"k": "fstr", "p": ["<", V("a"), "|", V("b"), ">"]})]),
             func("conta", [["n", "int"]], "int", [mo(V("n")), ret(bin_("+", V("n"), I(1)))])]
    q = lambda: T(rng.choice(["", "? ", "nome: ", "linha\n", "é ", "x"]))
    show = lambda e: [ex(call("escreva", T("["))), ex(call("escreva", e)), ex(call("escrevaln", T("]")))]
    n = 0
    for j in range(rng.randrange(1, 7)):
        n += 1
        v = "v%d" % n
        k = rng.randrange(8)
        if k == 0:
            items += [decl(v, "texto", call("leia", q()))] + show(V(v))
        elif k == 1:
            items += [decl(v, "int", call("leia_int", q())), set_(V("total"), I(0))] + show(V(v))
        elif k == 2:
            items += [decl(v, "real", call("leia_real", q()))] + show(V(v))
        elif k == 3:
            items += show(call("junta", call("leia", q()), call("pede", q())))
        elif k == 4:
            items += [para("i%d" % n, I(0), I(rng.randrange(1, 5)), show(call("pede", q())))]
        elif k == 5:
            items += [mo(bin_("==", call("leia", q()), call("leia", q())))]
        elif k == 6:
            items += [ex(call("leia", q()))]
        else:
            items += [decl(v, "[texto]", {"k": "vecl", "t": "texto", "a": [call("leia", q()) for _ in range(rng.randrange(1, 4))]}), mo(V(v))]
    return single(items)


def answers(rng, fns, clusters):
    out = []
    for f in fns:
        if f == "leia_int":
            out.append(rng.choice(["0", "7", "-12", "+5", "007", "-0", "9223372036854775807", "-9223372036854775808", str(rng.randrange(-10 ** 6, 10 ** 6))]))
        elif f == "leia_real":
            out.append(rng.choice(["1.5", "2", "-0.25", "1e3", ".5", "5.", "-7e-2", "inf", "nan", "0.1", "123456789.125"]))
        else:
            out.append(text_line(rng, clusters))
    return out


def answered(rng, prog, clusters=True, fuel=40000, limit=40):
    """input lines of wide variety answering every request"""
    lang.render(prog)
    lines = []
    for _ in range(limit):
        inp = "".join(x + "\n" for x in lines).encode()
        r = lang.Interp(prog, inp, fuel).run()
        if r.fuel_out:
            return None
        if r.err is not None and r.err.msg is None and len(r.reqfn) > len(lines):
            lines += answers(rng, r.reqfn[len(lines):], clusters)
            continue
        return inp, r
    return None


class P03(ModelProp):
    id = "P03"
    N = {"quick": 8000, "thorough": 150000}
    RULE = ("programs making many input requests, fed lines of every kind (empty, accented, control and 4-byte characters, up to 20 kB) through a random plan of "
            "short and interrupted reads, with the input cut at a random byte, left without a last terminator, failing with an error at a random read, "
            "or holding bytes that are not text, or with lines that are nearly numbers; non-trivial: at least one request; distinct by (input, delivery plan)")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL, "a read that returns no bytes is the end of the input"]

    def scenario(self, rng, i, tier):
        echo = rng.random() < 0.6
        if echo:
            p = echo_program(rng)
        else:
            g = programs(rng, multi=0.1, input=0.9, top=7)
            if not g:
                return None
            p = g[0]
        a = answered(rng, p, echo)
        if a is None:
            return None
        inp, r = a
        if not r.reqs:
            return None
        plan = {}
        x = rng.random()
        if x < 0.14 and inp:
            inp = inp[:rng.randrange(len(inp))]
        elif x < 0.24 and inp:
            inp = inp[:rng.randrange(len(inp) + 1)]
            plan["in_end_errno"] = rng.choice([EIO, EISDIR, ENOMEM])
        elif x < 0.36 and inp.endswith(b"\n"):
            inp = inp[:-1]
        elif x < 0.48:
            k = rng.randrange(len(inp) + 1)
            inp = inp[:k] + rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80", b"\x80"]) + inp[k:]
        elif x < 0.58:
            inp += rng.choice([b"mais\n", b"\n\n", b"x", b"resto sem fim", b"\xff\xff"])
        elif x < 0.72 and inp:
            # a line that is nearly a number, or none at all, in the place of one
            ls = inp.split(b"\n")
            k = rng.randrange(len(ls))
            ls[k] = rng.choice([b"\n" + ls[k], ls[k] + b"\r", b" " + ls[k], ls[k] + b" ", b"+" + ls[k], b"-" + ls[k], b"\t" + ls[k], b"", b" ", b"1_0", b"0x1", b"--1", b"1.", b".5", b"1e3", b"+", b"-",
                                b"inf", b"nan", b"-0", b"007", "１２".encode(), "٣".encode(), b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808", b"1,5", ls[k] + b"\x00", b"\xef\xbb\xbf" + ls[k]])
            inp = b"\n".join(ls)
        if rng.random() < 0.85:
            plan["in_chunks"] = chunks(rng, rng.randrange(1, 400), rng.choice([0.0, 0.1, 0.4]))
        if rng.random() < 0.08:
            c = plan.setdefault("in_chunks", [rng.randrange(1, 30) for _ in range(rng.randrange(0, 20))])
            c[rng.randrange(len(c) + 1):] = [-rng.choice([EIO, ENOMEM])]
        return {"prog": p, "inp": b64(inp), "plan": plan, "profile": "release" if i // 8 % 2 else "debug"}

    def check(self, ctx, sc):
        inp = unb64(sc["inp"])
        plan = dict(sc["plan"], inp=sc["inp"])
        files = lang.render(sc["prog"])
        o = ctx.run({"files": files, "main": "main.ama", "plan": plan, "profile": sc["profile"]})
        seen, bad, end = 0, False, False
        for e in o.events:
            if e.kind == 1:
                if e.res < 0 and e.err != EINTR:
                    bad = True
                    break
                end = end or e.res == 0
                if e.res > 0:
                    seen += e.res
        if bad and end and not plan.get("in_end_errno"):
            # an end of input, and an error when asked again: the model has one or the other
            ctx.count("error after the end")
            return None
        r = ctx.model(sc["prog"], inp[:seen] if bad else inp, in_end_err=bad or bool(plan.get("in_end_errno")))
        if r.fuel_out:
            return None
        ctx.count("requests", len(r.reqs))
        ctx.count("end: " + ("normal" if r.err is None else "input error" if r.err.msg is None else "malformed number"))
        if r.reqs:
            ctx.nontrivial(sc["inp"], sc["plan"])
        return judge(o, r, inp, True)


# ------------------------------------------------------------------ P04
class P04(Prop):
    id = "P04"
    N = {"quick": 6000, "thorough": 150000}
    LEVEL = "exploration"
    RULE = ("programs with output (also ending in run-time errors, also asking for input) under a random plan of short and interrupted writes, a sink that fails "
            "for good after a random number of bytes (full disk, closed pipe, I/O error), an unavailable error stream, or a kill before a random system call; "
            "non-trivial: a fault struck; distinct by (output defined, output delivered, fault plan)")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL, "what a write call accepts is delivered"]

    def scenario(self, rng, i, tier):
        for _ in range(6):
            if rng.random() < 0.3:
                g = programs(rng, multi=0.1, valid=False, input=0.1, top=8)
                if not g:
                    continue
                p = inject.plant(rng, g[0])
                inp, r = gen.answer(p, rng, 30000)
            else:
                g = programs(rng, multi=0.15, input=rng.choice([0.0, 0.2]), top=10)
                if not g:
                    continue
                p, inp = g
                r = lang.Interp(p, inp, 60000).run()
            if inp is None or not r.outb or r.fuel_out:
                continue
            if r.err and r.err.trace and len(r.err.trace) > 100:
                continue
            plan = {}
            n = len(r.outb)
            x = rng.random()
            if x < 0.3:
                plan["o1"] = {"chunks": chunks(rng, rng.randrange(1, 300), 0.25)}
                if rng.random() < 0.5:
                    plan["o2"] = {"chunks": chunks(rng, rng.randrange(1, 60), 0.25)}
            elif x < 0.65:
                o1 = {"cap": rng.choice([0, n - 1, rng.randrange(n + 1), rng.randrange(n + 1)]), "errno": rng.choice([ENOSPC, EPIPE, EIO, EAGAIN])}
                if rng.random() < 0.5:
                    o1["chunks"] = chunks(rng, rng.randrange(1, 100), 0.2)
                plan["o1"] = o1
                if rng.random() < 0.25:
                    plan["o2"] = {"cap": rng.choice([0, 3, 20]), "errno": rng.choice([ENOSPC, EPIPE, EIO, EAGAIN])}
            elif x < 0.75:
                plan["o2"] = {"cap": rng.choice([0, 0, 5, 30]), "errno": rng.choice([ENOSPC, EPIPE, EIO, EAGAIN])}
                if rng.random() < 0.5:
                    plan["o1"] = {"chunks": chunks(rng, rng.randrange(1, 100), 0.25)}
            else:
                plan["kill_at"] = rng.randrange(0, 12 + r.outb.count(b"\n") * 3)
                if rng.random() < 0.6:
                    plan["o1"] = {"chunks": chunks(rng, rng.randrange(1, 300), 0.25)}
            if rng.random() < 0.3:
                plan["in_chunks"] = chunks(rng, 20, 0.1)
            return {"prog": p, "inp": b64(inp), "plan": plan, "profile": "release" if i // 8 % 2 else "debug"}
        return None

    def check(self, ctx, sc):
        inp = unb64(sc["inp"])
        plan = dict(sc["plan"], inp=sc["inp"])
        r = ctx.model(sc["prog"], inp)
        if r.fuel_out:
            return None
        o = ctx.run({"files": lang.render(sc["prog"]), "main": "main.ama", "plan": plan, "profile": sc["profile"]})
        if o.faults:
            ctx.nontrivial(r.outb, o.out, sc["plan"])
        v = plain_crash(o)
        if v:
            return v
        v = prefix_ok(o, r)
        if v:
            return v
        if o.killed:
            ctx.count("killed")
            return order_ok(o, r, inp)
        hard1 = [k for k, e in enumerate(o.events) if e.kind == 2 and e.fd == 1 and e.res < 0 and e.err != EINTR]
        hard2 = [k for k, e in enumerate(o.events) if e.kind == 2 and e.fd == 2 and e.res < 0 and e.err != EINTR]
        if not hard1 and not hard2:
            ctx.count("undisturbed or transient faults")
            return judge(o, r, inp)
        ctx.count("sink failed" if hard1 else "error stream failed")
        if hard1:
            if o.status == 0:
                return Violation("silent-loss", "the sink failed for good and the program reported success; %d of %d bytes delivered" % (len(o.out), len(r.outb)))
            rest = o.events[hard1[0] + 1:]
            if len(rest) > 40:
                return Violation("goes-on", "%d more system calls after the sink had failed for good" % len(rest))
            if any(e.kind == 1 for e in rest):
                return Violation("goes-on", "the program went on to ask for input after its sink had failed")
        else:
            if o.out != r.outb:
                return Violation("output", "the error stream failed and only %d of %d bytes of output were delivered" % (len(o.out), len(r.outb)))
            if r.err is not None and o.status == 0:
                return Violation("status", "a run-time error ended with status 0")
        return order_ok(o, r, inp)


# ------------------------------------------------------------------ P05
import os  # noqa: E402
import wrongs  # noqa: E402

DIAG = re.compile(r'Ficheiro "([^\n]*)", linha (\d+)')


def refused(o):
    """a start that was refused in the way the property asks for, else what is wrong with it"""
    if o.started:
        return Violation("started", "the runtime was started although a source file was not read and accepted in full")
    if o.out:
        return Violation("started", "output %r from a program that must not start" % clip(o.out, 120))
    if any(e.kind == 1 for e in o.events):
        return Violation("started", "input was read by a program that must not start")
    if o.status == 0:
        return Violation("silent", "a program that could not be loaded ended with status 0 (stderr %r)" % clip(o.err))
    if not o.err.strip():
        return Violation("silent", "a program that could not be loaded ended without any report")
    return None


def quotes_line(o, data, line):
    """the report shows the text of the line it names"""
    lines = data.decode("utf-8", "replace").replace("\r\n", "\n").replace("\r", "\n").split("\n")
    want = lines[line - 1].strip() if 1 <= line <= len(lines) else ""
    err = o.err.decode("utf-8", "replace").split("\n")
    at = next((i for i, t in enumerate(err) if DIAG.match(t)), -1)
    if want and at >= 0 and (at + 1 >= len(err) or err[at + 1].strip() != want):
        return Violation("quote", "the report of line %d shows %r and not the text of that line, %r" % (line, clip(err[at + 1] if at + 1 < len(err) else "", 80), clip(want, 80)))
    return None


def names_file(o, path):
    m = DIAG.search(o.err.decode("utf-8", "replace"))
    return m and os.path.normpath(m.group(1)).endswith(path), m


def ended(text, s):
    """something after the text that statement s leaves open closes it"""
    return '"' in "\n".join(text.split("\n")[s["ln"]:])


class P05(Prop):
    id = "P05"
    N = {"quick": 5000, "thorough": 120000}
    RULE = ("programs of 1-6 modules with one thing wrong: a rule of the language broken in one module (%d kinds), a file missing, replaced by a directory or not text, "
            "or an open, stat or read of one file failing, cut short, interrupted, split or served from another file at the n-th operation; the run must equal "
            "the run of what was read, or refuse to start without any effect; non-trivial: the fault struck; distinct by (sources, fault)" % len(wrongs.WRONG))
    PROFILES = "debug profile"
    ASSUME = [MODEL, "the planted rule violations are violations (each is a one-line textbook case)"]

    def scenario(self, rng, i, tier):
        g = programs(rng, multi=0.85, input=0.15, top=3, tries=8)
        if not g:
            return None
        p, inp = g
        lang.render(p)
        used = reachable(p)
        sc = {"inp": b64(inp)}
        x = rng.random()
        if x < 0.38:
            w = wrongs.plant(rng, p, rng.choice(used))
            if not w:
                return None
            sc.update(prog=w[0], mode="wrong", name=w[1], mod=w[2])
            return sc
        m = rng.choice([u for u in used if u != "main"] or ["main"]) if rng.random() < 0.7 else "main"
        path = p["mods"][m]["path"]
        sc.update(prog=p, mod=m)
        if x < 0.5:
            sc.update(mode="damage", how=rng.choice(["missing", "dir", "bytes", "bytes", "empty-name", "perm"]))
            if sc["how"] == "bytes":
                sc["at"] = rng.random()
                sc["put"] = rng.choice(["/w==", "wyg=", "gA==", "7aCA", "/v8="])
            return sc
        op = rng.choice(["open", "open", "read", "read", "read", "stat"])
        if rng.random() < 0.1:
            path, op = "embutidos.ama", rng.choice(["open", "open", "stat"])
        nth = rng.choice([0, 0, 0, 1, 2])
        if op == "open":
            rules = [{"op": "open", "nth": nth, "persist": rng.random() < 0.7, "act": "errno", "arg": rng.choice([EACCES, EMFILE, EIO, ENOENT, ENOMEM]), "match": path}]
        elif op == "stat":
            rules = [{"op": "stat", "nth": nth, "persist": rng.random() < 0.7, "act": "errno", "arg": rng.choice([EACCES, EIO, ENOENT]), "match": path}]
        else:
            k = rng.random()
            if k < 0.35:
                rules = [{"op": "read", "nth": nth, "persist": rng.random() < 0.7, "act": "errno", "arg": rng.choice([EIO, ENOMEM, EISDIR]), "match": path}]
            elif k < 0.5:
                rules = [{"op": "read", "nth": nth, "act": "errno", "arg": EINTR, "match": path}]
            elif k < 0.75:
                rules = [{"op": "read", "nth": 0, "persist": True, "act": "short", "arg": rng.choice([1, 2, 7, 64, 100]), "match": path}]
            else:
                rules = []
            if rng.random() < 0.35 and k >= 0.5:
                rules.insert(0, {"op": "read", "nth": rng.choice([1, 2, 3, 5, 9, 20]), "persist": True, "act": "eof", "match": path})
                if len(rules) == 1:
                    rules.append({"op": "read", "nth": 0, "persist": True, "act": "short", "arg": rng.choice([3, 16, 64]), "match": path})
            elif k >= 0.5 and rng.random() < 0.4:
                rules.insert(0, {"op": "read", "nth": rng.choice([1, 2, 5]), "persist": True, "act": "errno", "arg": EIO, "match": path})
        if not rules:
            return None
        sc.update(mode="fault", rules=rules, path=path)
        return sc

    def check(self, ctx, sc):
        p = sc["prog"]
        files = lang.render(p)
        main = "main.ama"
        plan = {"inp": sc["inp"]}
        if sc["mode"] == "wrong":
            own = with_key(p["mods"][sc["mod"]], "wrong")
            if sc["mod"] not in reachable(p) or not own:
                return None
            if sc["name"] == "unterminated text" and ended(files[p["mods"][sc["mod"]]["path"]], own):
                return None
            o = ctx.run({"files": files, "main": main, "plan": plan})
            ctx.count("wrong: " + sc["name"])
            ctx.nontrivial(files)
            v = plain_crash(o) or refused(o) or untouched(o)
            if v:
                v.msg += " (rule broken: %s, in %s)" % (sc["name"], p["mods"][sc["mod"]]["path"])
            return v
        path = p["mods"][sc["mod"]]["path"]
        if sc["mode"] == "damage":
            how = sc["how"]
            text = files[path].encode()
            if how in ("missing", "perm", "empty-name"):
                del files[path]
            elif how == "dir":
                files[path] = {"dir": True}
            else:
                k = int(sc["at"] * (len(text) + 1))
                files[path] = {"b64": b64(text[:k] + unb64(sc["put"]) + text[k:])}
            o = ctx.run({"files": files, "main": main, "plan": plan})
            ctx.count("damage: " + how)
            ctx.nontrivial(sorted(files), how, path, sc.get("at"))
            return plain_crash(o) or refused(o) or untouched(o)
        r = ctx.model(p, unb64(sc["inp"]))
        if r.fuel_out:
            return None
        o = ctx.run({"files": files, "main": main, "plan": dict(plan, rules=sc["rules"])})
        v = plain_crash(o) or untouched(o)
        if v:
            return v
        hits = [e for e in o.events if e.kind in (3, 4, 5) and e.fault]
        hard = [e for e in hits if e.err and e.err != EINTR]
        torn = [e for e in hits if e.kind == 4 and not e.err and e.res == 0]
        if hits:
            ctx.nontrivial(sorted(files.items()), json.dumps(sc["rules"]))
        ctx.count("fault: %s" % ("hard" if hard else "torn" if torn else "soft" if hits else "not met"))
        if hard:
            v = refused(o)
            if v is None:
                return None
            if any(x.get("persist") for x in sc["rules"]) or o.status != r.exit or o.out != r.outb:
                return v
            return None     # tried again and read in full
        if torn:
            # the run must be that of the files as they were read
            if sc["path"] not in files:
                return None
            cut = dict(files)
            for name, n in reads_of(o, files).items():
                b = files[name].encode()
                if n < len(b):
                    cut[name] = {"b64": b64(b[:n])}
            q = ctx.run({"files": cut, "main": main, "plan": plan})
            verdict = lambda x: (x.out, x.status, x.started, DIAG.findall(x.err.decode("utf-8", "replace")), x.err.strip().split(b"\n")[-1])
            if verdict(o) != verdict(q):
                return Violation("torn", "a read cut short gives another run than a file as short: %r/%r/%s and %r/%r/%s" %
                                 (clip(o.out, 80), clip(o.err, 120), o.status, clip(q.out, 80), clip(q.err, 120), q.status))
            if not o.started:
                return refused(o)
            return None
        return judge(o, r, unb64(sc["inp"]))


def reads_of(o, names):
    """bytes read of each source file when it was first opened (it is opened again only to quote a line of it)"""
    n, opens = {}, {}
    for e in o.events:
        if e.kind not in (3, 4):
            continue
        f = os.path.normpath(e.data.decode("utf-8", "replace"))
        f = next((x for x in sorted(names, key=len, reverse=True) if f == os.path.normpath(x) or f.endswith("/" + os.path.normpath(x))), None)
        if f is None:
            continue
        if e.kind == 3 and not e.err:
            opens[f] = opens.get(f, 0) + 1
            n.setdefault(f, 0)
        elif e.kind == 4 and e.res > 0 and opens.get(f, 1) == 1:
            n[f] = n.get(f, 0) + e.res
    return n


def untouched(o, allow=()):
    for k in set(o.dir_before) | set(o.dir_after):
        if k in allow:
            continue
        if o.dir_before.get(k, 0) != o.dir_after.get(k, 0):
            return Violation("touched", "the run %s the file %s" % ("created" if k not in o.dir_before else "removed" if k not in o.dir_after else "changed", k))
    return None


def reachable(p):
    seen, todo = [], [p["main"]]
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.append(m)
        todo += [i["mod"] for i in p["mods"][m].get("imports", []) if i["mod"] in p["mods"]]
    return seen


import damage  # noqa: E402


def line_count(b):
    """how many lines a text has, counting the one after its last line end"""
    t = b.replace(b"\r\n", b"\n").replace(b"\r", b"\n")
    return t.count(b"\n") + 1


STD = {"embutidos.ama": 1000, "mat.ama": 1000}


class P06(Prop):
    id = "P06"
    N = {"quick": 20000, "thorough": 250000}
    RULE = ("source texts (generated programs and snippets of every construct) damaged by storage (sectors zeroed, lost, duplicated, swapped, stale, torn), by bit flips, "
            "and by edits (tokens and fragments spliced, words and lines exchanged, nesting repeated up to 3000 times), as main file or as an imported module; "
            "the run must be refused with a diagnosis of an existing line, or run; never an internal error; non-trivial: refused after reading the damaged text, or started; distinct by verdict text")
    PROFILES = "debug profile"
    ASSUME = ["a run gets 6 s of processor time and 2 GB of memory to reach its verdict"]

    def scenario(self, rng, i, tier):
        d = damage.damaged(rng)
        files = {"main.ama": {"b64": b64(d)}}
        if rng.random() < 0.3:
            other = damage.whole(rng) if rng.random() < 0.7 else damage.damaged(rng)
            imp = rng.choice([b'usa "mod/a"\n', b'usa "mod/a" => zz\nmostra 1\n', b'usa "mod/a" => [x, f]\n'])
            files = {"main.ama": {"b64": b64(imp + (other if rng.random() < 0.5 else b""))}, "mod/a.ama": {"b64": b64(d)}}
        elif b'"mod/' in d:
            for m in "abc":
                if rng.random() < 0.8:
                    files["mod/%s.ama" % m] = {"b64": b64(rng.choice([b"x: int = 3\nfunc f(a: int): int\n    retorna a + x\nfim\n", damage.damaged(rng)]))}
        inp = rng.choice([b"", b"1\n2\nx\n", b"12\n" * 20])
        return {"files": files, "inp": b64(inp)}

    def check(self, ctx, sc):
        o = ctx.run({"files": sc["files"], "main": "main.ama", "plan": {"inp": sc["inp"], "max_ev": 60000, "max_out": 200000}, "cpu": 6, "mem": 2 << 30})
        if o.started:
            ctx.count("started")
            ctx.nontrivial(o.out[:2000], o.err[:500], o.status)
            if o.hang or o.flood or o.killed:
                ctx.count("started_and_stopped_by_the_bounds")
                return None
            if o.status is not None and o.status < 0 and b"memory allocation of" in o.err:
                return None
            return plain_crash(o)
        v = plain_crash(o) or untouched(o)
        if v:
            return v
        ctx.count("refused")
        ctx.nontrivial(reject_class(o))
        if o.status != 1:
            return Violation("silent", "the text was neither run nor refused: status %s, stderr %r" % (o.status, clip(o.err)))
        m = DIAG.search(o.err.decode("utf-8", "replace"))
        if not m:
            return Violation("no-diagnosis", "refused without naming a file and a line: %r" % clip(o.err))
        name, line = os.path.normpath(m.group(1)), int(m.group(2))
        hits = [f for f in sc["files"] if name == f or name.endswith("/" + f)]
        if hits:
            f = max(hits, key=len)
            have = line_count(unb64(sc["files"][f]["b64"]))
        elif os.path.basename(name) in STD:
            return None
        elif b"importar" in o.err or b"carregar" in o.err or b"encontrado" in o.err or b"abrir" in o.err or b"ler" in o.err:
            return None     # names the file that is not there
        else:
            return Violation("diagnosis", "the diagnosis names %r, which is no file of the program" % clip(m.group(1)))
        if not 1 <= line <= have:
            return Violation("diagnosis", "the diagnosis names line %d of %s, which has %d lines: %r" % (line, f, have, clip(o.err)))
        return quotes_line(o, unb64(sc["files"][f]["b64"]), line)


import graphs  # noqa: E402


class P07(ModelProp):
    id = "P07"
    N = {"quick": 10000, "thorough": 150000}
    RULE = ("module graphs of 2-10 modules (chains, diamonds, stars, layers, random) over directories, each edge imported once or several times in any mix of forms and path "
            "spellings, every module printing when it starts and what it sees; 1 in 4 with a cycle added (to itself, to its importer, to the main file, long); "
            "non-trivial: at least two modules ran or a cycle was refused; distinct by output and import order")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        g, p = graphs.init_program(rng)
        sc = {"prog": p, "profile": "release" if i // 8 % 2 else "debug", "inp": b64(b"abc\n" * 3)}
        if rng.random() < 0.25:
            used = reachable(p)
            for _ in range(10):
                a = rng.choice(used)
                up = [m for m in used if a in p["mods"] and reaches(p, m, a)]
                if up:
                    b = rng.choice(up)
                    form = rng.choice(["alias", "global", "list"])
                    imp = {"mod": b, "form": form, "as": graphs.written(rng, p["mods"][b]["path"])}
                    if form == "alias":
                        imp["alias"] = "zq"
                    elif form == "list":
                        imp["names"] = [g.var(b)]
                    L = p["mods"][a]["imports"]
                    L.insert(rng.randrange(len(L) + 1), imp)
                    sc["cycle"] = [a, b]
                    break
        return sc

    def check(self, ctx, sc):
        p = sc["prog"]
        if not cyclic(p):
            return ModelProp.check(self, ctx, sc)
        files = lang.render(p)
        o = ctx.run({"files": files, "main": p["mods"]["main"]["path"], "plan": {"inp": sc["inp"]}, "profile": sc["profile"]})
        ctx.count("cycle")
        ctx.nontrivial(sorted(files.items()))
        v = plain_crash(o) or refused(o) or untouched(o)
        if v:
            v.msg += " (the modules import each other in a cycle)"
            return v
        m = DIAG.search(o.err.decode("utf-8", "replace"))
        if not m or not any(os.path.normpath(m.group(1)).endswith(x["path"]) for x in p["mods"].values()):
            return Violation("cycle-diagnosis", "a cycle of imports refused without a diagnosis naming a file of the program: %r" % clip(o.err))
        return None

    def note(self, ctx, sc, r, o):
        ctx.count("modules_initialised", r.outb.count(b"=> "))
        if r.outb.count(b"=> ") > 1:
            ctx.nontrivial(r.outb, [(m, [i["mod"] for i in x["imports"]]) for m, x in sc["prog"]["mods"].items()])


def reaches(p, a, b):
    """module a imports b, directly or not, or is b"""
    seen, todo = set(), [a]
    while todo:
        m = todo.pop()
        if m == b:
            return True
        if m not in seen and m in p["mods"]:
            seen.add(m)
            todo += [i["mod"] for i in p["mods"][m]["imports"]]
    return False


def cyclic(p):
    return any(reaches(p, i["mod"], m) for m in reachable(p) for i in p["mods"][m]["imports"] if i["mod"] in p["mods"])


class P08(ModelProp):
    id = "P08"
    N = {"quick": 2600, "thorough": 150000}
    RULE = ("2-6 modules each owning an int, a vector, a record, a type with a method and functions that write them, half of them with the same names everywhere; random histories of calls, "
            "writes and reads through every import form and through intermediate modules, the state read back at the end; 1 in 8 writes another module's variable from "
            "outside, which must be refused; non-trivial: at least one call crossed modules; distinct by output")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        ext = rng.random() < 0.12
        g = graphs.state_program(rng, ext)
        if not g:
            return None
        return {"prog": g[1], "ext": ext, "profile": "release" if i // 8 % 2 else "debug"}

    def check(self, ctx, sc):
        if not sc["ext"]:
            return ModelProp.check(self, ctx, sc)
        files = lang.render(sc["prog"])
        s = with_key(sc["prog"], "ext")
        if s is None or s["ext"][0] not in reachable(sc["prog"]):
            return None
        o = ctx.run({"files": files, "main": sc["prog"]["mods"]["main"]["path"], "profile": sc["profile"]})
        ctx.count("outside_write")
        ctx.nontrivial(sorted(files.items()))
        v = plain_crash(o) or refused(o)
        if v:
            v.msg += " (a module writes the variable of another one)"
        return v


def with_key(x, k):
    if isinstance(x, dict):
        if k in x:
            return x
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            w = with_key(v, k)
            if w:
                return w
    return None


import shapes  # noqa: E402


class P09(ModelProp):
    id = "P09"
    N = {"quick": 8000, "thorough": 150000}
    RULE = ("histories of 8-30 random operations over vectors (1 in 5 with vectors that grow to some 100 elements and shrink from any end), matrices, vectors of records, records, options and unions: sharing by assignment, argument, result, field, element, "
            "variant and pattern, change through any of them, fresh constructions in loops and calls, everything printed at the end; non-trivial: it prints; distinct by output")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        return {"prog": shapes.Heap(rng).program(), "profile": "release" if i // 8 % 2 else "debug"}


class P10(ModelProp):
    id = "P10"
    N = {"quick": 8000, "thorough": 150000}
    RULE = ("programs of functions and methods with 0-19 parameters, nested blocks, block variables without a value, recursion in the middle of loops and "
            "expressions, returns out of nested loops, pattern arms and choices, called at random operand positions; 1 in 8 is a program whose functions change what the expressions around their calls read; 1 in 12 runs a call chain up to or over the recursion limit; "
            "non-trivial: it prints; distinct by output")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        c = shapes.Calls(rng)
        x = rng.random()
        return {"prog": c.deep() if x < 1 / 12 else effects.program(rng) if x < 0.2 else c.program(), "profile": "release" if i // 8 % 2 else "debug"}


import choose  # noqa: E402


class P16(ModelProp):
    id = "P16"
    N = {"quick": 7000, "thorough": 150000}
    RULE = ("1-3 union types of 1-6 variants nested in each other and in themselves, functions that select over them and over integers and texts in every form (match as statement, "
            "as multi-line and as inline expression in the middle of a computation, conditional match, escolha, nested in each other, arms that change what is tested), arm "
            "sets split or drawn at random with duplicates and shadowed arms, applied to histories of values made to fit (or just miss) their patterns; every arm tells which it is "
            "and writes what it bound, every call counts; non-trivial: it prints; distinct by output")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        return {"prog": choose.Choose(rng).program(), "profile": "release" if i // 8 % 2 else "debug"}


import misuse  # noqa: E402


class P17(Prop):
    id = "P17"
    N = {"quick": 9000, "thorough": 150000}
    RULE = ("programs of all the generators, 1 in 4 left valid, which must start; the others with one rule broken at one place, found by walking the tree with what the language "
            "asks there: an undefined name or a value of a wrong type in any expression position, wrong numbers of arguments, unknown fields, methods and variants, patterns of a wrong "
            "type, matches that are not exhaustive by a reference algorithm, missing returns, misplaced statements, or one of %d written violations planted at a random place; these must "
            "be refused with a diagnosis of the file and line; non-trivial: decided; distinct by sources" % len(wrongs.WRONG))
    PROFILES = "debug profile"
    ASSUME = [MODEL, "what an arm of iguala that can never be selected says is not judged: the compiler does not check it, by design"]

    def source(self, rng):
        x = rng.random()
        if x < 0.4:
            g = programs(rng, multi=0.3, top=4)
            return g and g[0]
        if x < 0.5:
            return graphs.init_program(rng)[1]
        if x < 0.6:
            g = graphs.state_program(rng, False)
            return g and g[1]
        if x < 0.68:
            return shapes.Heap(rng).program()
        if x < 0.76:
            return shapes.Calls(rng).program()
        if x < 0.83:
            return effects.program(rng)
        return choose.Choose(rng).program()

    def scenario(self, rng, i, tier):
        p = self.source(rng)
        if not p:
            return None
        lang.render(p)
        if rng.random() < 0.25:
            return {"prog": p, "mode": "valid"}
        m = rng.choice(reachable(p))
        if rng.random() < 0.25:
            w = wrongs.plant(rng, p, m)
            return w and {"prog": w[0], "mode": "planted", "mod": m, "name": w[1], "off": w[3]}
        w = misuse.spoil(rng, p, m)
        return w and {"prog": w[0], "mode": "misuse", "mod": m, "name": w[1]}

    def check(self, ctx, sc):
        p = sc["prog"]
        files = lang.render(p)
        main = p["mods"][p["main"]]["path"]
        if sc["mode"] != "valid" and sc["mod"] not in reachable(p):
            return None
        own = sc["mode"] != "valid" and with_key(p["mods"][sc["mod"]], "wrong")
        if sc["mode"] != "valid" and not own or sc["mode"] == "misuse" and not with_key(p, "bad"):
            return None
        o = ctx.run({"files": files, "main": main, "plan": {"max_ev": 4000, "max_out": 20000, "inp": b64(b"1\n" * 50)}})
        ctx.nontrivial(files)
        if sc["mode"] == "planted" and sc["name"] == "unterminated text" and ended(files[p["mods"][sc["mod"]]["path"]], own):
            return None
        if sc["mode"] == "valid":
            ctx.count("valid")
            return None if o.started and (o.flood or o.hang) else plain_crash(o) if o.started else plain_crash(o) or Violation("rejected", "a valid program was rejected: %s" % reject_class(o))
        ctx.count("broken: " + sc["name"])
        path = p["mods"][sc["mod"]]["path"]
        v = (refused(o) if o.started else plain_crash(o)) or refused(o)
        if not v:
            m = DIAG.search(o.err.decode("utf-8", "replace"))
            line = last = None
            if sc["mode"] == "planted":
                if sc["off"] is not None:
                    line = last = own["ln"] - own["s"].count("\n") + sc["off"]
            elif own["wrong"][1]:
                line = last = own[own["wrong"][1]]
                if own["wrong"][1] == "ln":
                    last = own.get("lz", line)   # a statement over several lines: any of them
            if not m or not os.path.normpath(m.group(1)).endswith(path):
                v = Violation("file", "the diagnosis does not name %s: %r" % (path, clip(o.err)))
            elif line is not None and not line <= int(m.group(2)) <= last:
                v = Violation("line", "the diagnosis names line %s, the violation is in line %d: %r" % (m.group(2), line, clip(o.err)))
            else:
                v = quotes_line(o, files[path].encode(), int(m.group(2)))
        if v:
            v.msg += " (rule broken: %s, in %s)" % (sc["name"], path)
        return v


import sizes  # noqa: E402


class P18(Prop):
    id = "P18"
    N = {"quick": 320, "thorough": 12000}
    RULE = ("programs extreme in one size of 28 (constants, texts, variables, functions, methods, parameters, fields, variants, arms, cases, elements, parts of texts, jumps, lines, "
            "statements, nestings, modules, long names and texts), the sizes drawn around the limits of one byte and two bytes and up to 70000, run and compared with the model: every "
            "constant, name, function, jump target and line that arrives wrong shows in the output or the error report; beyond what two bytes can say a refusal with a diagnosis is right; "
            "non-trivial: it ran; distinct by sources")
    PROFILES = "debug and release, alternating"
    ASSUME = [MODEL]

    def scenario(self, rng, i, tier):
        g = sizes.Sizes(rng, tier)
        kind, p = g.program()
        return {"prog": p, "kind": kind, "over": g.over, "profile": "release" if i // 8 % 2 else "debug"}

    def check(self, ctx, sc):
        files = lang.render(sc["prog"])
        r = ctx.model(sc["prog"], b"", fuel=3000000)
        if r.fuel_out:
            ctx.count("model_out_of_fuel")
            return None
        o = ctx.run({"files": files, "main": "main.ama", "profile": sc["profile"], "cpu": 60, "plan": {"max_out": 8000000, "max_ev": 100000}})
        ctx.count("kind: " + sc["kind"])
        if sc["over"] and not o.started:
            v = plain_crash(o) or refused(o)
            if not v and not DIAG.search(o.err.decode("utf-8", "replace")):
                v = Violation("no-diagnosis", "refused without naming a file and a line: %r" % clip(o.err))
            ctx.count("refused_as_too_large")
            return v
        ctx.nontrivial([len(t) for t in files.values()], sc["kind"], r.outb)
        return judge(o, r, b"", True)


# ------------------------------------------------------------------ twins: P11-P14
import anyprog  # noqa: E402


def shape(d):
    """a packed observation as a user sees it, with the places named alike"""
    return {"output": d["out"], "error stream": d["err"], "exit status": d["status"], "input consumed": d["in_pos"], "source files accessed": d["access"]}


def differ(a, b, who, fields=("output", "error stream", "exit status", "input consumed", "source files accessed")):
    x, y = shape(a), shape(b)
    for f in fields:
        if x[f] != y[f]:
            u, v = x[f], y[f]
            if f in ("output", "error stream"):
                u, v = unb64(u), unb64(v)
                n = next((i for i, (p, q) in enumerate(zip(u, v)) if p != q), min(len(u), len(v)))
                u, v = clip(u[max(0, n - 30):n + 90], 200), clip(v[max(0, n - 30):n + 90], 200)
            elif isinstance(u, list):
                n = next((i for i, (p, q) in enumerate(zip(u, v)) if p != q), min(len(u), len(v)))
                u, v = u[n:n + 2], v[n:n + 2]
            return Violation("differs: " + f, "%s: the %s is %r and %r" % (who, f, u, v))
    return None


def stopped(d):
    """stopped by the bounds of the simulation: nothing to compare at that point"""
    return d["hang"] or d["flood"] or (d["status"] is not None and d["status"] < 0 and b"memory allocation of" in unb64(d["err"]))


LOW = {"max_ev": 6000, "max_out": 60000}


class P11(Prop):
    id = "P11"
    N = {"quick": 2200, "thorough": 60000}
    RULE = ("programs of every kind (valid, failing at run time, refused, damaged, of features without a model), each run four times: in processes with different hash seeds, locales, "
            "allocators, address layouts and levels of optimisation of the Python interpreter, in directories of different names, with different environments, heap "
            "contents and random bytes; all that a user sees and all accesses to source files must be equal; non-trivial: decided; distinct by sources")
    PROFILES = "debug profile"
    ASSUME = ["PYTHONIOENCODING is left alone or utf-8: a user who asks for another encoding of the messages gets it"]
    HELPERS = ({"PYTHONHASHSEED": "777", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Pacific/Kiritimati"},
               {"PYTHONHASHSEED": "31337", "LC_ALL": None, "LANG": None, "PYTHONIOENCODING": None, "PYTHONUTF8": None, "PYTHONCOERCECLOCALE": None, "PYTHONMALLOC": "malloc", "AMASIM_LAYOUT": str(0x0240000)},
               {"PYTHONHASHSEED": "5", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1", "PYTHONOPTIMIZE": "1", "LANG": "tr_TR.UTF-8", "LANGUAGE": "pt:de", "TZ": "America/St_Johns"})

    def scenario(self, rng, i, tier):
        sc = anyprog.draw(rng)
        if not sc:
            return None
        sc["vars"] = [{"sub": rng.choice(["p", "q", "Ação", "com espaço", "a/b/c/d", "x" * 60, "é/ß", "p.ama", "usa", "1"]), "heap_pad": rng.choice([0, 1, 50, 3000]),
                       "rnd": rng.randrange(1, 1 << 40), "abs": rng.random() < 0.3,
                       "env": {k: v for k, v in [("TZ", "Asia/Kathmandu"), ("LANG", "pt_PT"), ("LC_NUMERIC", "de_DE.UTF-8"), ("HOME", "/nowhere"), ("AMANDA_DEBUG", "1"),
                                                 ("DEBUG", "1"), ("PYINST_BUILD", "1"), ("COLUMNS", "20"), ("TERM", "dumb"), ("X", "y" * rng.choice([1, 500, 5000])),
                                                 ("RUST_MIN_STACK", "100000"), ("TMPDIR", "/nowhere")] if rng.random() < 0.3}} for _ in range(4)]
        return sc

    def check(self, ctx, sc):
        files, main = anyprog.files_of(sc)
        obs = []
        for k, v in enumerate(sc["vars"]):
            plan = dict(LOW, inp=sc["inp"], rnd=v["rnd"])
            s = {"files": files, "args": [("@/" if v["abs"] else "") + main], "plan": plan, "sub": v["sub"], "env": v["env"], "heap_pad": v["heap_pad"], "cpu": 6}
            obs.append(lane.pack(ctx.run(s)) if k == 0 else ctx.helpers[k - 1].run(s))
            ctx.counts["helper_runs"] += k > 0
            if stopped(obs[-1]):
                ctx.count("stopped by the bounds")
                return None
            if len(obs) > 1:
                # how the main file was named on the command line shows in how it is opened
                d = differ(*[dict(o, access=[[a, b, c, e if not e.endswith(main) else main] for a, b, c, e in o["access"]]) for o in (obs[0], obs[-1])],
                           "one program and input, two places (%s; %s)" % (ctx.lane_env, self.HELPERS[k - 1]))
                if d:
                    return d
        ctx.count("kind: " + sc["kind"])
        ctx.nontrivial(sorted((k, str(v)) for k, v in files.items()))
        return None


class P12(Prop):
    id = "P12"
    N = {"quick": 1600, "thorough": 60000}
    RULE = ("sequences of 2-6 runs in one process, of 1-4 programs of every kind in their own or shared directories, the same one again, after an edit of a source file, after a refused or "
            "failed run, with the debug listing, with source files that can not be opened or read, input that ends, fails or is cut, and short and interrupted writes; each must give what it gives alone "
            "in a new process; non-trivial: decided; distinct by sources and plans")
    PROFILES = "debug and release, alternating"
    ASSUME = ["a sink that fails for good takes what is sent to it later from the same process with it: such faults are left to P04"]

    def scenario(self, rng, i, tier):
        progs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            d = anyprog.draw(rng, {"valid": 40, "faulting": 25, "refused": 20, "damaged": 8, "rare": 7})
            if d:
                d["dir"] = "q%d" % (len(progs) if rng.random() < 0.8 else 0)
                progs.append(d)
        if not progs:
            return None
        calls = []
        for _ in range(rng.choice([2, 3, 3, 4, 5, 6])):
            k = rng.randrange(len(progs))
            c = {"p": k}
            x = rng.random()
            if x < 0.15:
                c["rules"] = [{"op": rng.choice(["open", "read", "stat"]), "nth": rng.choice([0, 0, 1, 2]), "persist": True, "act": "errno", "arg": rng.choice([EIO, EACCES, ENOMEM]),
                               "match": rng.choice([".ama", "main.ama", "embutidos.ama"])}]
            elif x < 0.22:
                c["rules"] = [{"op": "read", "nth": 0, "persist": True, "act": "short", "arg": rng.choice([1, 7, 100]), "match": ".ama"}]
            if rng.random() < 0.15:
                c["cut"] = rng.random()
            if rng.random() < 0.15:
                c["end"] = EIO
            if rng.random() < 0.1:
                c["d"] = True
            if rng.random() < 0.15:
                c["edit"] = [rng.random(), rng.choice(["drop", "swap", "bad", "add"])]
            calls.append(c)
        return {"progs": progs, "calls": calls, "o1": {"chunks": chunks(rng, 200, 0.2)} if rng.random() < 0.3 else {}, "profile": "release" if i // 8 % 2 else "debug"}

    def check(self, ctx, sc):
        tree, mains = {}, []
        for d in sc["progs"]:
            files, main = anyprog.files_of(d)
            for f, t in files.items():
                tree[d["dir"] + "/" + f] = t
            mains.append(main)
        first = dict(tree)
        calls, states = [], []
        for c in sc["calls"]:
            if c["p"] >= len(sc["progs"]):
                return None
            d = sc["progs"][c["p"]]
            write = {}
            if c.get("edit"):
                at, how = c["edit"]
                own = sorted(f for f in tree if f.startswith(d["dir"] + "/") and isinstance(tree[f], str))
                if own:
                    f = own[int(at * len(own))]
                    L = tree[f].split("\n")
                    k = int(at * 7919) % len(L)
                    if how == "drop":
                        L[k:k + 1] = []
                    elif how == "swap":
                        L[k:k + 2] = L[k:k + 2][::-1]
                    else:
                        L.insert(k if how == "bad" else 0 if "usa" not in tree[f] else len(L), "mostra xxx_" if how == "bad" else "mostra 77")
                    write[f] = tree[f] = "\n".join(L)
            inp = unb64(d["inp"])
            if "cut" in c:
                inp = inp[:int(c["cut"] * len(inp))]
            # one line at a time: a run takes no more than its own lines
            plan = {"inp": b64(inp), "in_chunks": [len(x) for x in inp.splitlines(True) if x][:500], "in_end_errno": c.get("end", 0), "rules": c.get("rules", [])}
            if b"\r" in inp or b"\x0b" in inp or b"\x0c" in inp or b"\x1c" in inp or b"\x85" in inp:
                plan["in_chunks"] = [len(x) + 1 for x in inp.split(b"\n")][:500]
            calls.append({"cwd": d["dir"], "args": (["-d"] if c.get("d") else []) + [mains[c["p"]]], "plan": plan, "write": write})
            states.append(dict(tree))
        top = {"o1": sc["o1"], "max_ev": 12000, "max_out": 100000}
        s = ctx.run({"files": first, "calls": calls, "plan": top, "profile": sc["profile"], "cpu": 15})
        marks = [m for m in s.marks if "call" in m]
        if s.flood or s.hang or len(marks) < len(calls):
            ctx.count("stopped by the bounds")
            if s.flood or s.hang or b"memory allocation of" in s.err:
                return None
            return plain_crash(s) or Violation("ended", "the process ended in run %d of %d of the sequence (status %s): %s" % (len(marks) + 1, len(calls), s.status, clip(s.err[-300:])))
        ctx.nontrivial(sorted((k, str(v)) for k, v in first.items()), sc["calls"])
        for k, (c, m, tr) in enumerate(zip(calls, marks, states)):
            ev = s.events[m["ev0"]:m["ev1"]]
            a = ctx.run({"files": tr, "cwd": c["cwd"], "args": c["args"], "plan": dict(top, o1={}, **c["plan"]), "profile": sc["profile"], "cpu": 10})
            if a.flood or a.hang:
                return None
            got = {"out": b"".join(e.data for e in ev if e.kind == 2 and e.fd == 1 and e.res > 0), "err": b"".join(e.data for e in ev if e.kind == 2 and e.fd == 2 and e.res > 0),
                   "status": m["code"], "in": sum(e.res for e in ev if e.kind == 1 and e.res > 0)}
            want = {"out": a.out, "err": a.err, "status": a.status, "in": sum(e.res for e in a.events if e.kind == 1 and e.res > 0)}
            for f, name in (("status", "exit status"), ("out", "output"), ("err", "error stream"), ("in", "input consumed")):
                if got[f] != want[f]:
                    u, v = got[f], want[f]
                    if isinstance(u, bytes):
                        n = next((i for i, (p, q) in enumerate(zip(u, v)) if p != q), min(len(u), len(v)))
                        u, v = clip(u[max(0, n - 60):n + 200], 300), clip(v[max(0, n - 60):n + 200], 300)
                    return Violation("differs: " + name, "run %d of a sequence in one process differs from the same run alone: the %s is %r, alone %r" % (k + 1, name, u, v))
            if "-d" in c["args"] and not any("-d" in x["args"] and x["cwd"] == c["cwd"] for x in calls[k + 1:]):
                f = c["cwd"] + "/debug.amasm"
                before = [x for x in calls[:k] if "-d" in x["args"] and x["cwd"] == c["cwd"]]
                if s.dir_after.get(f) != a.dir_after.get(f) and not (before and a.dir_after.get(f) is None):
                    return Violation("differs: listing", "the debug listing of run %d of a sequence differs from that of the same run alone" % (k + 1))
            ctx.count("kind: " + sc["progs"][sc["calls"][k]["p"]]["kind"])
        return None


class P13(Prop):
    id = "P13"
    N = {"quick": 4500, "thorough": 120000}
    RULE = ("programs of every kind, weighted to extreme arithmetic, run by the runtime of both profiles under one plan of split, interrupted, failing and ending input, short, interrupted and "
            "failing output and kills; the whole history of system calls must be equal; non-trivial: the program was started; distinct by sources and plan")
    PROFILES = "debug against release"
    ASSUME = []

    def scenario(self, rng, i, tier):
        sc = anyprog.draw(rng, {"valid": 30, "faulting": 30, "damaged": 8, "rare": 32})
        if not sc:
            return None
        plan = {}
        x = rng.random()
        if x < 0.35:
            plan["in_chunks"] = chunks(rng, 40, 0.2)
            if rng.random() < 0.3:
                plan["in_chunks"].insert(rng.randrange(6), rng.choice([-EIO, -EAGAIN]))
        if rng.random() < 0.15:
            plan["in_end_errno"] = EIO
        x = rng.random()
        if x < 0.3:
            plan["o1"] = {"chunks": chunks(rng, rng.randrange(1, 200), 0.25)}
        elif x < 0.5:
            plan["o1"] = {"cap": rng.randrange(0, 300), "errno": rng.choice([ENOSPC, EPIPE, EIO, EAGAIN])}
        if rng.random() < 0.15:
            plan["o2"] = {"cap": rng.choice([0, 10, 60]), "errno": rng.choice([ENOSPC, EPIPE, EAGAIN])}
        elif rng.random() < 0.2:
            plan["o2"] = {"chunks": chunks(rng, 60, 0.25)}
        if rng.random() < 0.1:
            plan["kill_at"] = rng.randrange(60)
        if rng.random() < 0.2:
            sc["inp"] = b64(unb64(sc["inp"])[:rng.randrange(1 + len(unb64(sc["inp"])))])
        return dict(sc, plan=plan)

    def check(self, ctx, sc):
        files, main = anyprog.files_of(sc)
        plan = dict(LOW, inp=sc["inp"], **sc["plan"])
        a, b = [ctx.run({"files": files, "main": main, "plan": plan, "profile": p, "cpu": 10}) for p in ("debug", "release")]
        if a.hang or b.hang or any(x.status < 0 and b"memory allocation of" in x.err for x in (a, b)):
            ctx.count("stopped by the bounds")
            return None
        ctx.count("kind: " + sc["kind"])
        if a.started:
            ctx.nontrivial(sorted((k, str(v)) for k, v in files.items()), sc["plan"])
        v = differ(lane.pack(a), lane.pack(b), "debug and release runtime")
        if v:
            return v
        h = [[(e.kind, e.fd, e.res, e.err) for e in x.events] for x in (a, b)]
        if h[0] != h[1]:
            n = next((i for i, (p, q) in enumerate(zip(*h)) if p != q), min(len(h[0]), len(h[1])))
            return Violation("differs: history", "the histories of system calls of the debug and release runtime differ at call %d: %r and %r" % (n, h[0][n:n + 2], h[1][n:n + 2]))
        return None


class P14(Prop):
    id = "P14"
    N = {"quick": 2600, "thorough": 60000}
    RULE = ("programs of every kind run without and with the debug option, in a UTF-8 and in an ASCII locale, on a disk where the listing can not be created, can not be written, or is written "
            "in pieces, over an older (shorter or longer) listing or a directory of its name, listings of a few to some thousand lines; what the user sees must be equal, or nothing run and the failure reported; only the "
            "listing may appear; non-trivial: decided; distinct by sources and faults")
    PROFILES = "debug profile"
    ASSUME = []
    HELPERS = ({"PYTHONHASHSEED": "99", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},)

    def scenario(self, rng, i, tier):
        sc = anyprog.draw(rng)
        if not sc:
            return None
        x = rng.random()
        if x < 0.25:
            sc["rules"] = [{"op": "open", "nth": 0, "persist": rng.random() < 0.7, "act": "errno", "arg": rng.choice([EACCES, ENOSPC, EMFILE, EIO]), "match": "debug.amasm"}]
        elif x < 0.45:
            sc["rules"] = [{"op": "write", "nth": rng.choice([0, 0, 0, 1]), "persist": rng.random() < 0.8, "act": "errno", "arg": rng.choice([ENOSPC, EIO]), "match": "debug.amasm"}]
        elif x < 0.6:
            sc["rules"] = [{"op": "write", "nth": 0, "persist": True, "act": "short", "arg": rng.choice([20, 100, 1000]), "match": "debug.amasm"}]
        old = 0.2
        if "prog" in sc and rng.random() < 0.06:
            # a listing of many pages
            sc["prog"]["mods"][sc["prog"]["main"]]["items"] += [gen.mo(gen.I(k)) for k in range(rng.choice([200, 700, 2000]))]
            old = 0.6
        if rng.random() < old:
            sc["old"] = rng.choice([{"dir": True}, "x", "lixo antigo\n" * 300, "lixo antigo\n" * 30000])
        return sc

    def check(self, ctx, sc):
        files, main = anyprog.files_of(sc)
        if sc.get("old"):
            files = dict(files, **{"debug.amasm": sc["old"]})
        plan = dict(LOW, inp=sc["inp"])
        base = lane.pack(ctx.run({"files": files, "args": [main], "plan": plan, "cpu": 6}))
        if stopped(base):
            ctx.count("stopped by the bounds")
            return None
        plan["rules"] = sc.get("rules", [])
        lists = []
        ctx.nontrivial(sorted((k, str(v)) for k, v in files.items()), plan["rules"])
        for k in range(2):
            if k and isinstance(sc.get("old"), str):
                # over an older listing and over none: the same listing
                files = {f: t for f, t in files.items() if f != "debug.amasm"}
            s = {"files": files, "args": ["-d", main], "plan": plan, "cpu": 6}
            o = ctx.run(s) if k == 0 else None
            d = lane.pack(o) if k == 0 else ctx.helpers[0].run(s)
            ctx.counts["helper_runs"] += k
            if stopped(d):
                return None
            who = "without and with -d" + (" in an ASCII locale" if k else "")
            x, y = [{f: t for f, t in z["after"] if f != "debug.amasm"} for z in (base, d)]
            if x != y:
                f = next(f for f in sorted(set(x) | set(y)) if x.get(f, 0) != y.get(f, 0))
                return Violation("touched", "%s: file %s was created, changed or removed" % (who, f))
            listing = dict(d["after"]).get("debug.amasm")
            failed = isinstance(sc.get("old"), dict) or any(e[0] in (3, 6) and e[2] and e[2] != EINTR and "amasm" in e[3] for e in d["access"])
            d["access"] = [e for e in d["access"] if "amasm" not in e[3]]
            b = dict(base, access=[e for e in base["access"] if "amasm" not in e[3]])
            v = differ(b, d, who)
            if v and failed and base["started"]:
                ctx.count("listing failed")
                if d["started"] or unb64(d["out"]) or d["in_pos"]:
                    return Violation("wrong-run", "the listing could not be written and the program did something else than without it: %s" % v.msg)
                if d["status"] == 0 or not unb64(d["err"]).strip():
                    return Violation("silent", "the listing could not be written and nothing was reported (status %s)" % d["status"])
                if b"Traceback" in unb64(d["err"]) or d["status"] != 1:
                    return Violation("crash", "the listing could not be written: status %s, %s" % (d["status"], clip(unb64(d["err"])[-300:])))
                continue
            if v:
                return v
            ctx.count("equal: " + sc["kind"])
            if base["started"] and not failed:
                if not listing:
                    return Violation("no-listing", "%s: the program ran but the listing is not there" % who)
                lists.append(listing)
            if not base["started"] and listing is not None and not sc.get("old"):
                ctx.count("listing of a refused program")
        if len(set(lists)) > 1:
            return Violation("listing", "the listing depends on the locale, the hash seed or what was in its file before")
        return None


# ------------------------------------------------------------------ P15
import churn  # noqa: E402


class P15(Prop):
    id = "P15"
    N = {"quick": 220, "thorough": 8000}
    RULE = ("programs that repeat 1-4 random statements (calls of every kind with used and discarded results, fresh vectors, records, unions, texts, options, matches, early exits out of loops "
            "and arms, replaced fields and elements, block variables, input, output, other modules), run 20 000 and then 320 000 times (or as many as need 3 s), the growth of resident memory bounded; call "
            "chains up to and over the depth limit with frames of all sizes, compared with the model; chains of up to 400 000 objects released in ten ways; "
            "non-trivial: all; distinct by sources")
    PROFILES = "release profile for repetition and chains, both for depth"
    ASSUME = [MODEL, "a growth below 4 bytes per repetition is not seen", "objects that refer to each other in a cycle are not released, by design"]
    ROOM = 800     # KiB

    def scenario(self, rng, i, tier):
        x = rng.random()
        if x < 0.12:
            return {"mode": "deep", "prog": shapes.Calls(rng).deep(), "profile": "release" if i // 8 % 2 else "debug"}
        c = churn.Churn(rng)
        if x < 0.3:
            files, err = c.chain()
            return {"mode": "chain", "files": files, "err": err, "n": rng.choice([1000, 30000, 100000, 400000]), "profile": "release" if rng.random() < 0.8 else "debug"}
        return {"mode": "churn", "files": c.program(), "inp": b64(b"".join(b"linha %d de entrada\n" % k for k in range(rng.choice([1, 40, 700]))))}

    def go(self, ctx, sc, n, **over):
        files = {f: t.replace("@N@", str(n)) for f, t in sc["files"].items()}
        return ctx.run(dict({"files": files, "main": "main.ama", "profile": sc.get("profile", "release"), "cpu": 60, "mem": 2 << 30,
                             "plan": {"inp": sc.get("inp", ""), "lean": True, "max_out": 2000000000}}, **over))

    def check(self, ctx, sc):
        ctx.count("mode: " + sc["mode"])
        if sc["mode"] == "deep":
            files = lang.render(sc["prog"])
            r = ctx.model(sc["prog"], b"", fuel=2000000)
            if r.fuel_out:
                return None
            o = ctx.run({"files": files, "main": "main.ama", "profile": sc["profile"]})
            ctx.nontrivial(sorted(files.items()))
            return judge(o, r, b"", True)
        if sc["mode"] == "chain":
            o = self.go(ctx, sc, sc["n"])
            ctx.nontrivial(sc["n"], sorted(sc["files"].items()))
            v = plain_crash(o)
            if v:
                return v
            if b"1 // k" in sc["files"]["main.ama"].encode():
                return None if o.status == 1 and o.tail.endswith(b"feito\n") and b"Linha" in o.err else Violation("ending", "status %s, output …%r, %r" % (o.status, o.tail, clip(o.err)))
            return None if o.status == 0 and o.tail.endswith(b"fim\n") and not o.err else Violation("ending", "status %s, output …%r, %r" % (o.status, o.tail, clip(o.err)))
        small = self.go(ctx, sc, 20000)
        ctx.nontrivial(sorted(sc["files"].items()))
        obs = [small]
        if not small.hang:
            # as many repetitions as the time allows
            n = int(max(20000, min(320000, 20000 * 3.0 / max(small.cpu - 0.12, 0.01))))
            if n >= 40000:
                obs.append(self.go(ctx, sc, n))
            ctx.count("repetitions", n)
        for o in obs:
            v = plain_crash(o)
            if v:
                return v
            if not o.started:
                return Violation("rejected", "not started: %s" % clip(o.err))
            if o.status != 0 or o.err or not o.tail.endswith(b"fim\n"):
                return Violation("ending", "status %s, output …%r, %r" % (o.status, o.tail, clip(o.err)))
        if len(obs) == 2 and obs[1].maxrss - small.maxrss > self.ROOM:
            again = self.go(ctx, sc, n)     # page faults of the system are no growth
            if again.maxrss - small.maxrss > self.ROOM:
                return Violation("growth", "%d repetitions need %d KiB, 20000 need %d KiB: about %.1f bytes stay behind at each" %
                                 (n, again.maxrss, small.maxrss, (again.maxrss - small.maxrss) * 1024.0 / (n - 20000)))
        return None

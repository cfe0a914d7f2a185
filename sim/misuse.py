"""Breaks one rule at one place of a valid program, and knows which line that is.

Every place is found by walking the tree with what the language asks of it: the type a
value must have there, how many arguments a call takes, what a match must cover."""
import copy
import json

import choose
from gen import B, I, T, V, call

BASIC = {"int": ["texto", "bool", "real"], "real": ["texto", "bool"], "texto": ["int", "bool"], "bool": ["int", "texto"]}
LIT = {"int": lambda: I(7), "texto": lambda: T("z"), "bool": lambda: B(True), "real": lambda: {"k": "real", "s": "1.5"}, "nulo": lambda: {"k": "nulo"},
       "vec": lambda: {"k": "vecl", "t": "int", "a": [I(1)]}, "void": lambda: call("escrevaln", I(1))}
BIG = [2 ** 63, 2 ** 63 + 1, 2 ** 63 + 7, 10 ** 19, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 25, 2 ** 128]
BUILTIN = {"leia": ["texto"], "leia_int": ["texto"], "leia_real": ["texto"], "tam": [["int", "bool"]], "txt_contem": ["texto", "texto"], "remova": [["int"], "int"],
           "anexa": [["int", "texto"], None], "escreva": [None], "escrevaln": [None]}
NAME = "znada"


def wrong_types(want):
    """literals that cannot stand where a `want` is asked for"""
    if isinstance(want, list):
        return want
    if want is None or want == "indef" or len(want) == 1:
        return []
    if want == "num":
        return ["texto", "bool", "vec"]
    if want in BASIC:
        return BASIC[want] + ["vec", "nulo", "void"]
    if want[-1] == "?":
        return [t for t in ("int", "texto", "bool") if t not in (want[:-1],) and not (want[:-1] == "real" and t == "int")]
    if want[0] == "[":
        return ["int", "texto", "nulo"]
    return ["int", "texto", "vec", "nulo"]


class Sites:
    def __init__(self, prog, mod):
        self.p, self.mod = prog, mod
        self.out = []           # (kind, owner, line key, fn(rng) that breaks it)
        self.tab = {}
        for m, x in prog["mods"].items():
            for s in x.get("items", []):
                k = s["k"]
                if k in ("func", "reg", "uni"):
                    self.tab[m, s["n"]] = s
                elif k == "met":
                    self.tab[m, s["ty"], s["n"]] = s
        self.one = len(prog["mods"]) == 1
        self.unions = {s["n"]: s["vs"] for s in prog["mods"][mod]["items"] if s["k"] == "uni"}
        self.rt = None
        self.decl = None        # the variable whose initial value is walked
        self.shadow = names_bound(prog["mods"][mod]["items"], set())
        self.types = {}
        declared(prog["mods"][mod]["items"], self.types)
        self.stmts(prog["mods"][mod]["items"], False, True)

    def find(self, e, n):
        if n[0] == "@":
            m, n = n[1:].split(".")
            return self.tab.get((m, n))
        return self.tab.get((e.get("m") or self.mod, n))

    def add(self, kind, own, fn):
        self.out.append((kind, own[0], own[1], fn))

    # ---- statements
    def stmts(self, b, loop, top=False):
        for i, s in enumerate(b):
            self.s(s, loop)
            if s["k"] == "decl" and s["t"] in BASIC:
                self.add("declared twice", (s, "ln"), lambda r, b=b, s=s: self.twice(b, s))
        if not loop:
            if not top or any(s["k"] not in ("func", "met", "reg", "uni") for s in b):
                self.add("control outside a loop", (None, "ln"), lambda r, b=b: self.insert(r, b, {"k": r.choice(["quebra", "continua"])}))
        self.add("yield outside a match", (None, "ln"), lambda r, b=b: self.insert(r, b, {"k": "raw", "s": "produz 1"})) if top else None

    def twice(self, b, s):
        c = copy.deepcopy(s)
        b.insert(next(i for i, x in enumerate(b) if x is s) + 1, c)
        return c

    def insert(self, r, b, s):
        n = len(b)
        while n and b[n - 1]["k"] in ("ret", "quebra", "continua"):
            n -= 1
        b.insert(r.randrange(n + 1), s)
        return s

    def s(self, s, loop, own=None):
        k, own = s["k"], own or (s, "ln")
        if k == "decl":
            if s.get("e") is not None:
                save, self.decl = self.decl, s["n"] if s["n"] not in self.shadow else None
                self.slot(s, "e", s["t"], own, loop)
                self.decl = save
            self.add("unknown type", own, lambda r: s.update(t=r.choice(["%s", "[%s]", "[[%s]]", "%s?"]) % NAME) or s)
        elif k == "set":
            t = self.tyof(s["t"])
            self.slot(s, "e", "num" if s["op"] != "=" and not t else t, own, loop)
            self.target(s, own)
        elif k in ("ex", "mo"):
            self.slot(s, "e", None, own, loop)
        elif k == "se":
            self.slot(s, "c", "bool", own)
            self.stmts(s["b"], loop)
            for b in s["ei"]:
                self.slot(b, "c", "bool", (b, "ln"))
                self.stmts(b["b"], loop)
            if s["el"] is not None:
                self.stmts(s["el"], loop)
        elif k == "enq":
            self.slot(s, "c", "bool", own)
            self.stmts(s["b"], True)
        elif k == "para":
            self.slot(s, "a", ["texto", "bool", "real", "nulo", "vec"], own)
            self.slot(s, "z", ["texto", "bool", "real", "nulo", "vec"], own)
            if s.get("inc") is not None:
                self.slot(s, "inc", ["texto", "bool", "real", "nulo", "vec"], own)
            else:
                self.add("value of the wrong type", own, lambda r: self.put(s, "inc", LIT[r.choice(["texto", "bool", "real", "nulo", "vec"])]()))
            self.stmts(s["b"], True)
        elif k == "ret":
            if s.get("e") is not None:
                self.slot(s, "e", self.rt, own, loop)
                self.add("return without a value", own, lambda r: s.update(e=None) or s)
            elif not self.rt:
                self.add("return with a value", own, lambda r: s.update(e=LIT[r.choice(["int", "texto", "bool"])]()) or s)
        elif k == "esc":
            self.slot(s, "e", ["bool", "vec"], own)
            for c in s["cs"]:
                self.slot(c, "x", ["bool", "vec", "nulo"], (c, "ln"))
                self.stmts(c["b"], loop)
            if s["el"] is not None:
                self.stmts(s["el"], loop)
        elif k == "igs":
            self.slot(s, "e", None, own)
            self.arms(s, own, loop)
        elif k == "seig":
            self.slot(s, "e", None, own)
            self.patt(s, "p", own)
            self.stmts(s["b"], loop)
            ty = self.type_of([s["p"]])
            if s["el"] is not None and ty and not choose.exhaustive(self.unions, [s["p"]], ty):
                self.stmts(s["el"], loop)
        elif k in ("func", "met"):
            save, self.rt = self.rt, s.get("rt")
            self.stmts(s["b"], False)
            self.rt = save
            b = s["b"]
            if s.get("rt") and b and b[-1]["k"] == "ret" and (len(b) < 2 or b[-2]["k"] in ("decl", "set", "ex", "mo")):
                self.add("no return", (s, None), lambda r, s=s: s["b"].pop() and s)
            for i in range(len(s["ps"])):
                self.add("unknown type", own, lambda r, i=i: self.put(s["ps"], i, [s["ps"][i][0], NAME]) and s)
            if s.get("rt"):
                self.add("unknown type", own, lambda r: s.update(rt=NAME) or s)
            if s["ps"]:
                self.add("parameter twice", own, lambda r, s=s: s["ps"].append(list(s["ps"][0])) or s)

    def target(self, s, own):
        t = s["t"]
        if t["k"] == "idx":
            self.slot(t, "i", "int", own)
            self.slot(t, "o", None, own)
        elif t["k"] == "get":
            self.slot(t, "o", None, own)
            self.add("unknown field", own, lambda r, t=t: t.update(n=NAME) or t)
        elif t["k"] == "var":
            self.add("undefined name", own, lambda r, t=t: t.update(n=NAME) or t)

    # ---- expressions
    def slot(self, box, key, want, own, loop=None):
        e = box[key]
        self.add("undefined name", own, lambda r: self.put(box, key, r.choice([V(NAME), call(NAME), call(NAME, I(1)), {"k": "idx", "o": V(NAME), "i": I(0)}, {"k": "get", "o": V(NAME), "n": "a"}])))
        if e["k"] == "int":
            self.add("number out of range", own, lambda r: self.put(box, key, {"k": "int", "v": r.choice(BIG)}))
        if e["k"] == "var" and (None, e["n"]) not in self.tab and (self.mod, e["n"]) not in self.tab:
            self.add("call of what is not a function", own, lambda r: self.put(box, key, call(e["n"], *[I(1)] * r.randrange(3))))
        if self.decl:
            d = self.decl
            self.add("used in its own declaration", own, lambda r: self.put(box, key, V(d)))
        ws = wrong_types(want)
        if ws:
            self.add("value of the wrong type", own, lambda r: self.put(box, key, LIT[r.choice(ws)]()))
        self.e(e, own, loop)

    def put(self, box, key, e):
        box[key] = e
        return e

    def args(self, e, tys, own):
        for i, t in enumerate(tys):
            if i < len(e["a"]):
                self.slot(e["a"], i, t, own)
        if e["k"] != "vari" or e["a"]:
            self.add("too many arguments", own, lambda r: e["a"].append(I(1)) or e)
        if e["a"]:
            self.add("too few arguments", own, lambda r: e["a"] and (e["a"].pop(r.randrange(len(e["a"]))) and False or e))

    def e(self, e, own, loop=None):
        k = e["k"]
        if k == "bin":
            w = "bool" if e["op"] in ("e", "ou") else "num" if e["op"] not in ("==", "!=") else None
            same = lambda x: {"int": "num", "real": "num"}.get(self.tyof(x), self.tyof(x))
            self.slot(e, "l", w or same(e["r"]), own)
            self.slot(e, "r", w or same(e["l"]), own)
        elif k == "un":
            self.slot(e, "e", "bool" if e["op"] == "nao" else "num", own)
        elif k == "call":
            if e["f"] in BUILTIN and not e.get("m"):
                self.args(e, BUILTIN[e["f"]], own)
            else:
                f = self.find(e, e["f"])
                self.args(e, [t for _, t in f["ps"]] if f else [None] * len(e["a"]), own)
        elif k == "meth":
            self.slot(e, "o", None, own)
            self.add("unknown method", own, lambda r: e.update(f=NAME) or e)
            t = e["ty"]
            m = self.tab.get(tuple(t[1:].split(".")) + (e["f"],)) if t[0] == "@" else self.tab.get((e.get("m") or self.mod, t, e["f"]))
            self.args(e, [t for _, t in m["ps"]] if m else [None] * len(e["a"]), own)
        elif k == "idx":
            self.slot(e, "o", ["int", "bool"], own)
            self.slot(e, "i", "int", own)
        elif k == "get":
            self.slot(e, "o", ["int", "texto", "vec"], own)
            self.add("unknown field", own, lambda r: e.update(n=NAME) or e)
        elif k == "new":
            g = self.find(e, e["r"])
            ft = dict(g["fs"]) if g else {}
            for f in e["a"]:
                self.slot(f, 1, ft.get(f[0]), own)
            if e["a"]:
                self.add("unknown field", own, lambda r: e["a"].append([NAME, I(1)]) or e)
                self.add("field missing", own, lambda r: e["a"].pop(r.randrange(len(e["a"]))) and e)
                self.add("field twice", own, lambda r: e["a"].append(copy.deepcopy(e["a"][0])) or e)
        elif k == "vecl":
            for i in range(len(e["a"])):
                self.slot(e["a"], i, e["t"], own)
        elif k == "vecn":
            for i in range(len(e["a"])):
                self.slot(e["a"], i, ["texto", "bool", "real"], own)
        elif k == "set":
            self.s(e, loop, own)
        elif k == "cast":
            self.slot(e, "e", None, own)
        elif k == "fstr":
            for i, x in enumerate(e["p"]):
                if not isinstance(x, str):
                    self.add("undefined name", own, lambda r, i=i: self.put(e["p"], i, V(NAME)))
        elif k == "vari":
            u = self.find(e, e["u"])
            ts = dict((v, t) for v, t in u["vs"]).get(e["v"], []) if u else []
            self.args(e, ts if len(ts) == len(e["a"]) else [None] * len(e["a"]), own)
            self.add("unknown variant", own, lambda r: e.update(v=NAME) or e)
        elif k == "val":
            self.slot(e, "o", ["int", "texto"], own)
        elif k == "valou":
            self.slot(e, "o", ["int", "texto"], own)
            self.slot(e, "d", None, own)
        elif k in ("ig", "igi"):
            self.slot(e, "e", None, own)
            self.arms(e, own, loop)

    def tyof(self, e):
        """the type of an expression, None where it takes more than its own words to tell"""
        k = e["k"]
        if k in ("int", "bool"):
            return k
        if k in ("txt", "fstr"):
            return "texto"
        if k == "real":
            return "real"
        if k == "var":
            t = self.types.get(e["n"])
            return t if t in BASIC else None
        if k == "call" and e["f"] in ("tam", "leia_int"):
            return "int"
        if k == "cast":
            return e["t"] if e["t"] in BASIC else None
        if k == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">=", "e", "ou"):
            return "bool"
        return None

    # ---- matches
    def arms(self, s, own, loop):
        ps = [a["p"] for a in s["arms"]]
        live = [True] + [False] * (len(ps) - 1)
        ty = self.type_of(ps)
        if ty:
            live = choose.reachable_arms(self.unions, ps, ty)
            for i in range(len(ps)):
                if not choose.exhaustive(self.unions, ps[:i] + ps[i + 1:], ty) and len(ps) > 1:
                    self.add("match that is not exhaustive", own, lambda r, i=i: fewer(r, s["arms"], i) and s)
        for i, a in enumerate(s["arms"]):
            o = (a, "ln") if "ln" in a and s["k"] != "igi" else own
            self.patt(a, "p", o)
            if not live[i]:
                continue
            if "x" in a:
                self.slot(a, "x", None, o)
            else:
                self.stmts(a["b"], bool(loop))
                if a.get("y") is not None:
                    self.slot(a, "y", None, (a, "yln"))

    def type_of(self, ps):
        """the type a set of patterns is over, if it can be told from them"""
        if not self.one:
            return None
        for p in ps:
            if p["k"] == "c":
                return p["u"] if p["u"] in self.unions else None
            if p["k"] in "is":
                return {"i": "int", "s": "texto"}[p["k"]]
        return None

    def patt(self, box, key, own, want=None):
        p = box[key]
        names = sorted(bound(p))
        if p["k"] == "c":
            self.add("unknown variant", own, lambda r: p.update(v=NAME) or p)
            want = want or p["u"]
            if p["a"] and names and not bound(p["a"][0]):
                self.add("name bound twice", own, lambda r: self.put(p["a"], 0, {"k": "b", "n": r.choice(names)}))
            u = self.find(p, p["u"])
            ts = dict((v, t) for v, t in u["vs"]).get(p["v"], []) if u else []
            if len(ts) == len(p["a"]):
                for i, t in enumerate(ts):
                    self.patt(p["a"], i, own, t)
                self.add("too many sub-patterns", own, lambda r: p["a"].append({"k": "b", "n": "zx"}) or p)
                if len(ts) > 1:
                    self.add("too few sub-patterns", own, lambda r: p["a"].pop() and p)
        if p["k"] == "i":
            want = "int"
            self.add("number out of range", own, lambda r: p.update(v=r.choice(BIG)) or p)
        if p["k"] == "s":
            want = "texto"
        if want and p["k"] in "ciswb":
            if want != "int":
                self.add("pattern of the wrong type", own, lambda r: self.put(box, key, {"k": "i", "v": 3}))
            if want != "texto":
                self.add("pattern of the wrong type", own, lambda r: self.put(box, key, {"k": "s", "v": "zz"}))


def fewer(r, arms, i):
    """without the arm i, which nothing replaces, and maybe without others"""
    arms.pop(i)
    while len(arms) > 1 and r.random() < 0.4:
        arms.pop(r.randrange(len(arms)))
    return True


def names_bound(x, out):
    if isinstance(x, dict):
        if "p" in x and isinstance(x["p"], dict):
            out |= bound(x["p"])
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            names_bound(v, out)
    return out


def declared(x, out):
    """type of every name that is declared with one type only in the module"""
    if isinstance(x, dict):
        k = x.get("k")
        new = []
        if k == "decl":
            new = [(x["n"], x["t"])]
        elif k == "para":
            new = [(x["v"], "int")]
        elif k in ("func", "met"):
            new = [tuple(q) for q in x["ps"]]
        elif isinstance(x.get("p"), dict):
            new = [(n, None) for n in bound(x["p"])]
        for n, t in new:
            out[n] = t if out.get(n, t) == t else None
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            declared(v, out)


def bound(p):
    if p["k"] == "b":
        return {p["n"]}
    return set().union(*[bound(q) for q in p["a"]]) if p["k"] == "c" else set()


def spoil(rng, prog, mod):
    """(program with one rule broken in module mod, kind) or None; prog must have been rendered.
    the node that owns the line has "wrong": key of its line, or None when only the file is known"""
    p = json.loads(json.dumps(prog))     # no node is shared
    st = Sites(p, mod)
    kinds = sorted({k for k, *_ in st.out})
    if not kinds:
        return None
    kind = rng.choice(kinds + ["undefined name"] * 2 + ["value of the wrong type"] * 4 + ["match that is not exhaustive"] * (3 if "match that is not exhaustive" in kinds else 0))
    c = [x for x in st.out if x[0] == kind]
    if not c:
        return None
    _, own, key, fn = rng.choice(c)
    node = fn(rng)
    if not node:
        return None
    node["bad"] = True
    if own is None or kind == "declared twice":
        own = node
    own["wrong"] = [kind, key]
    return p, kind

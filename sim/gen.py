"""Seeded generator of well-typed Amanda programs (as ASTs of lang.py)."""
import random
import lang
import names

TXT = ["a", "bc", "olá", "x y", "", "fim", "não", "0", "12", "-7", "3.5", "ção", "Zé", "[]", "a:b", "tab", "abcabc", "ñandu"]
# texts no line of input holds
TXT2 = ["it's", '"q"', "a\"b'c", "l1\nl2", "c:\\dir", "\\t", "x\\\\y", "{", "}", "{}x", "{{a}}", "# nota", "a; b", "\n", "\n\n", "'", '"', "''", "\\'", "\\\"a", "\\\n", "fim fim"]
# characters of several code points, and parts that join what is put beside them
CLUSTER = ["e\u0301", "👩‍👩‍👧", "🇵🇹", "न\u093f", "❤️", "👍🏽", "1️⃣", "가", "\u1100\u1161\u11a8", "각", "\u0301", "\u200d", "🇵", "🌈", "\u0600", "\u093f", "\u1161", "\u11a8", "🏽", "\u0600a",
           "\u200b", "a\u200d", "x\u0903", "👩", "\ufeff", "Ａ", "ß", "İ"]
CH = "abcdefgxyz éãçõ0123456789.,;:+-*/()[]<>=!?_"
SCAL = ["int", "real", "bool", "texto"]


def I(v):
    return {"k": "int", "v": v} if v >= 0 else {"k": "un", "op": "-", "e": {"k": "int", "v": -v}}


def T(s):
    return {"k": "txt", "v": s}


def V(n):
    return {"k": "var", "n": n}


def B(v):
    return {"k": "bool", "v": v}


def bin_(op, l, r):
    return {"k": "bin", "op": op, "l": l, "r": r}


def call(f, *a, m=None):
    e = {"k": "call", "f": f, "a": list(a)}
    if m:
        e["m"] = m
    return e


def mo(e):
    return {"k": "mo", "e": e}


def ex(e):
    return {"k": "ex", "e": e}


def decl(n, t, e=None):
    return {"k": "decl", "n": n, "t": t, "e": e}


def set_(t, e, op="=", ty=None):
    s = {"k": "set", "t": t, "op": op, "e": e}
    if ty:
        s["ty"] = ty
    return s


def se(c, b, el=None, ei=()):
    return {"k": "se", "c": c, "b": b, "ei": list(ei), "el": el}


def func(n, ps, rt, b):
    return {"k": "func", "n": n, "ps": ps, "rt": rt, "b": b}


def ret(e=None):
    return {"k": "ret", "e": e}


def para(v, a, z, b, inc=None):
    return {"k": "para", "v": v, "a": a, "z": z, "inc": inc, "b": b}


def enq(c, b):
    return {"k": "enq", "c": c, "b": b}


def single(items, path="main.ama"):
    return {"main": "main", "mods": {"main": {"path": path, "imports": [], "items": items}}}


DEFAULT = dict(funcs=3, regs=2, unis=1, mets=2, top=10, depth=3, edepth=3, input=0.12, faulty=0.0, vec=1.0, opt=1.0,
               iguala=1.0, fstr=1.0, loops=1.0, promo=0.3, shadow=0.25, cast=1.0, big=0.03, trace=0.35, compound=1.0,
               esc=1.0, rec=1.0, real=1.0, blank=0.15, early=0.5, discard=0.6, igexpr=1.0, inline=0.02,
               mat=0.25, indef=1.0, dress=1.0, nl=1.0)


class Gen:
    def __init__(self, rng, **over):
        self.r = rng
        self.o = dict(DEFAULT, **over)
        self.n = 0
        self.funcs = []        # (name, [types], rt, pure?)
        self.regs = {}         # name -> fields
        self.unis = {}         # name -> variants
        self.mets = []         # (type, name, [types], rt)
        self.scopes = [[]]
        self.infunc = None
        self.loop = 0
        self.alvo = None
        self.nreq = 0
        self.noprim = False
        self.tag = self.utag = ""
        self.glyphs = self.chance(0.06)
        self.spell = names.style(rng)
        self.mat = False       # the module of mathematics is imported

    # ---- names and scopes
    def name(self, p):
        self.n += 1
        return self.spell(p + self.tag, self.n)

    def vars(self, pred):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v["n"] not in seen:
                    seen.add(v["n"])
                    if pred(v):
                        out.append(v)
        return out

    def of(self, t):
        return self.vars(lambda v: v["t"] == t)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def wpick(self, opts):
        tot = sum(w for w, _ in opts)
        x = self.r.random() * tot
        for w, f in opts:
            x -= w
            if x < 0:
                return f
        return opts[-1][1]

    def text(self):
        if self.glyphs and self.chance(0.6):
            return "".join(self.pick(CLUSTER) for _ in range(self.r.randrange(1, 5)))
        if self.chance(0.7):
            return self.pick(TXT)
        if self.chance(0.5):
            return self.pick(TXT2)
        if self.chance(0.15):
            return "".join(self.pick(CLUSTER if self.chance(0.7) else CH) for _ in range(self.r.randrange(1, 6)))
        return "".join(self.pick(CH) for _ in range(self.r.randrange(1, 7)))

    # ---- types
    def anytype(self, comp=True):
        x = self.r.random()
        if not comp or x < 0.62:
            return self.wpick([(4, "int"), (2 * self.o["real"], "real"), (1.5, "bool"), (2, "texto")])
        opts = [(0.8 * self.o["indef"], "indef"), (2 * self.o["vec"], "[int]"), (1 * self.o["vec"], "[texto]"), (0.6 * self.o["vec"] * self.o["real"], "[real]"), (0.7 * self.o["vec"], "[[int]]")]
        for rname in self.regs:
            opts.append((1.2, rname))
            opts.append((0.6 * self.o["opt"], rname + "?"))
        for u in self.unis:
            opts.append((1.0, u))
        opts.append((0.5 * self.o["opt"], "int?"))
        opts.append((0.4 * self.o["opt"], "texto?"))
        opts.append((0.4 * self.o["opt"] * self.o["real"], "real?"))
        opts.append((0.2 * self.o["opt"], "bool?"))
        return self.wpick(opts)

    # ---- expressions
    def e(self, t, d=None):
        if d is None:
            d = self.o["edepth"]
        r = self.r
        if d > 0 and t in SCAL and self.o["inline"] and self.chance(self.o["inline"]):
            return self.ig_inline(t, d)
        if t == "int":
            return self.e_int(d)
        if t == "real":
            return self.e_real(d)
        if t == "bool":
            return self.e_bool(d)
        if t == "texto":
            return self.e_txt(d)
        if t.endswith("?"):
            opts = [(1, lambda: {"k": "nulo"}), (1.5, lambda: self.slot(t[:-1], d - 1))]
            if t[:-1] in SCAL:
                opts.append((0.25 * self.o["cast"], lambda: self.to_option(t, d)))
            vs = self.of(t)
            if vs:
                opts.append((2, lambda: V(self.pick(vs)["n"])))
            return self.wpick(opts)()
        if t.startswith("["):
            return self.e_vec(t, d)
        if t == "indef":
            return self.e_indef(d)
        opts = []
        vs = self.of(t)
        if vs:
            opts.append((3 if d > 0 else 8, lambda: V(self.pick(vs)["n"])))
        if self.alvo == t and t in self.regs:
            opts.append((2, lambda: {"k": "alvo"}))
        if d > 0:
            fs = [f for f in self.funcs if f[2] == t]
            if fs:
                opts.append((1.5, lambda: self.callf(self.pick(fs), d)))
        opts.append((1.5, lambda: self.e_new(t, d)))
        return self.wpick(opts)()

    def to_option(self, t, d):
        """a value converted to an option"""
        x = self.r.random()
        if x < 0.15:
            return {"k": "cast", "e": {"k": "nulo"}, "t": t}
        el = t[:-1]
        vs = self.of("indef")
        if vs and self.o["faulty"] and x < 0.4:
            return {"k": "cast", "e": V(self.pick(vs)["n"]), "t": t, "indef": True}
        src = {"int": ["int", "real"], "real": ["real", "int"], "bool": ["bool", "int", "texto"], "texto": SCAL}[el]
        return {"k": "cast", "e": self.e(self.pick(src), d - 1), "t": t}

    def e_indef(self, d):
        opts = [(3, lambda: self.e(self.pick(SCAL), d - 1)), (0.3 * self.o["cast"], lambda: {"k": "cast", "e": self.e(self.pick(SCAL), d - 1), "t": "indef"}),
                (0.5 * self.o["opt"], lambda: self.optval(d)), (0.7 * self.o["vec"], lambda: self.e("[int]", d - 1))]
        vs = self.of("indef")
        if vs:
            opts.append((4, lambda: V(self.pick(vs)["n"])))
        if self.regs:
            opts.append((0.7, lambda: self.e(self.pick(list(self.regs)), min(d - 1, 1))))
        fs = [f for f in self.funcs if f[2] == "indef"]
        if fs and d > 0:
            opts.append((1.5, lambda: self.callf(self.pick(fs), d)))
        return self.wpick(opts)()

    def optval(self, d):
        ov = self.vars(lambda v: v["t"].endswith("?"))
        return V(self.pick(ov)["n"]) if ov else self.e("int", d - 1)

    def e_new(self, t, d):
        if t in self.regs:
            fs = list(self.regs[t])
            if self.chance(0.5):
                self.r.shuffle(fs)
            return {"k": "new", "r": t, "a": [[n, self.slot(ft, d - 1)] for n, ft in fs]}
        vs = self.unis[t]
        small = [v for v in vs if d > 0 or t not in v[1]] or vs
        v = self.pick(small)
        return {"k": "vari", "u": t, "v": v[0], "a": [self.slot(x, d - 1) for x in v[1]]}

    def e_vec(self, t, d, n=None):
        vs = self.of(t)
        if vs and n is None and self.chance(0.5):
            return V(self.pick(vs)["n"])
        el = t[1:-1]
        if n is None:
            n = self.r.randrange(0, 4)
        if el in SCAL and self.chance(0.15) and n:
            return {"k": "vecn", "t": el, "a": [I(n)]}
        return {"k": "vecl", "t": el, "a": [self.slot(el, min(d - 1, 1)) for _ in range(n)]}

    def slot(self, t, d=None):
        """an expression for a place of type t, where int is accepted for real"""
        if t == "real" and self.chance(self.o["promo"]):
            return self.e("int", d)
        return self.e(t, d)

    def callf(self, f, d):
        return call(f[0], *[self.slot(t, min(d - 1, 1)) for t in f[1]])

    def common(self, t, d, opts):
        vs = self.of(t)
        if vs:
            opts.append((5, lambda: V(self.pick(vs)["n"])))
        vv = self.vars(lambda v: v["t"] == "[%s]" % t and v.get("min", 0) > 0)
        if vv:
            def f():
                v = self.pick(vv)
                return {"k": "idx", "o": V(v["n"]), "i": I(self.r.randrange(v["min"]))}
            opts.append((2, f))
        mm = self.vars(lambda v: v["t"] == "[[%s]]" % t and v.get("min", 0) > 0 and v.get("min2", 0) > 0)
        if mm:
            def f2():
                v = self.pick(mm)
                return {"k": "idx", "o": {"k": "idx", "o": V(v["n"]), "i": I(self.r.randrange(v["min"]))}, "i": I(self.r.randrange(v["min2"]))}
            opts.append((1, f2))
        rv = self.vars(lambda v: v["t"] in self.regs and any(ft == t for _, ft in self.regs[v["t"]]))
        if rv:
            def g():
                v = self.pick(rv)
                return {"k": "get", "o": V(v["n"]), "n": self.pick([n for n, ft in self.regs[v["t"]] if ft == t])}
            opts.append((2.5, g))
        if self.alvo in self.regs:
            afs = [n for n, ft in self.regs[self.alvo] if ft == t]
            if afs:
                opts.append((3, lambda: {"k": "get", "o": {"k": "alvo"}, "n": self.pick(afs)}))
        ov = self.of(t + "?")
        if ov:
            opts.append((1.5, lambda: {"k": "valou", "o": V(self.pick(ov)["n"]), "d": self.slot(t, d - 1), "t": t}))
        if d > 0:
            fs = [f for f in self.funcs if f[2] == t]
            if fs:
                opts.append((2.5, lambda: self.callf(self.pick(fs), d)))
            ms = [m for m in self.mets if m[3] == t]
            ms = [m for m in ms if m[0] in SCAL or self.of(m[0])]
            if ms:
                def h():
                    m = self.pick(ms)
                    o = V(self.pick(self.of(m[0]))["n"]) if self.of(m[0]) else None
                    if o is None:
                        return self.e(t, 0)
                    return {"k": "meth", "o": o, "ty": m[0], "m": m[4] if len(m) > 4 else None, "f": m[1], "a": [self.slot(x, 1) for x in m[2]]}
                opts.append((2, h))

    def e_int(self, d):
        r = self.r
        opts = [(3 if d > 0 else 6, lambda: self.int_lit())]
        self.common("int", d, opts)
        if d > 0:
            opts += [
                (3, lambda: bin_(self.pick("+-"), self.e_int(d - 1), self.e_int(d - 1))),
                (1.2, lambda: bin_("*", bin_("%", self.e_int(d - 1), I(r.randrange(2, 40))), I(r.randrange(-4, 9)))),
                (0.8, lambda: bin_(self.pick(["//", "%"]), self.e_int(d - 1), I(self.pick([1, 2, 3, 7, 10, -1, -2, -3, -7])))),
                (0.5, lambda: {"k": "un", "op": "-", "e": self.e_int(d - 1)}),
                (0.15, lambda: {"k": "un", "op": "+", "e": self.e_int(d - 1)}),
                (0.4 * self.o["cast"], lambda: {"k": "cast", "e": self.e_real(d - 1), "t": "int"}),
                (0.3 * self.o["cast"], lambda: {"k": "cast", "e": T(str(r.randrange(-50, 5000))), "t": "int"}),
                (0.12 * self.o["cast"], lambda: {"k": "cast", "e": self.e_int(d - 1), "t": "int"}),
                (0.5, lambda: call("tam", self.e_txt(min(d - 1, 1)))),
            ]
            if self.mat:
                opts.append((1, lambda: call(self.pick(lang.MAT_INT), self.slot("real", d - 1), m="mat")))
            vv = self.vars(lambda v: v["t"].startswith("["))
            if vv:
                opts.append((1, lambda: call("tam", V(self.pick(vv)["n"]))))
            if self.chance(self.o["input"]):
                opts.append((2, lambda: self.req("leia_int")))
            if self.o["faulty"]:
                opts.append((self.o["faulty"], lambda: self.risky(d)))
        return self.wpick(opts)()

    def risky(self, d):
        r = self.r
        opts = [
            lambda: bin_(self.pick(["//", "%"]), self.e_int(d - 1), self.e_int(d - 1)),
            lambda: bin_(self.pick("+-*"), I(lang.I64MAX - r.randrange(3)), self.e_int(d - 1)),
            lambda: {"k": "cast", "e": self.e_txt(d - 1), "t": "int"},
            lambda: {"k": "cast", "e": {"k": "cast", "e": self.e(self.pick(SCAL), d - 1), "t": "indef"}, "t": "int", "indef": True},
        ]
        vv = self.of("[int]")
        if vv:
            opts.append(lambda: {"k": "idx", "o": V(self.pick(vv)["n"]), "i": self.e_int(d - 1)})
        iv = self.of("indef")
        if iv:
            opts.append(lambda: {"k": "cast", "e": V(self.pick(iv)["n"]), "t": "int", "indef": True})
        ov = self.of("int?")
        if ov:
            opts.append(lambda: {"k": "val", "o": V(self.pick(ov)["n"])})
        return self.pick(opts)()

    def req(self, fn):
        self.nreq += 1
        return call(fn, T(self.pick(["? ", "n: ", "", "valor> ", "é? "])))

    def int_lit(self):
        x = self.r.random()
        if x < self.o["big"]:
            return I(self.pick([lang.I64MAX, lang.I64MAX - 1, 2 ** 53 + 1, 10 ** 18, 2 ** 31, 2 ** 32 - 1, -2 ** 62]))
        if x < 0.75:
            return I(self.r.randrange(0, 10))
        return I(self.r.randrange(-20, 1000))

    def real_lit(self):
        s = self.pick(["0.5", "1.5", "2.25", "10.0", "0.1", "3.14159", "100.0", "0.001", "7.0", "123456.789", "0.0"])
        e = {"k": "real", "s": s}
        return {"k": "un", "op": "-", "e": e} if self.chance(0.15) else e

    def e_real(self, d):
        opts = [(2, self.real_lit)]
        self.common("real", d, opts)
        if d > 0:
            mix = lambda: self.e_int(d - 1) if self.chance(0.3) else self.e_real(d - 1)
            opts += [
                (2.5, lambda: bin_(self.pick(["+", "-", "*"]), self.e_real(d - 1), mix())),
                (1, lambda: bin_("/", mix(), self.pick([I(self.pick([1, 2, 3, 4, -5, 7])), {"k": "real", "s": "0.5"}]))),
                (0.6, lambda: bin_("-", mix(), self.e_real(d - 1))),
                (0.5, lambda: bin_("//", self.e_real(d - 1), self.pick([I(self.pick([1, 2, 3, -5])), {"k": "real", "s": self.pick(["0.5", "2.0", "0.3"])}]))),
                (0.2, lambda: bin_("//", self.e_int(d - 1), {"k": "real", "s": self.pick(["0.5", "2.0", "1.5"])})),
                (0.4, lambda: bin_("%", self.e_real(d - 1), {"k": "real", "s": self.pick(["2.5", "0.75", "3.0"])})),
                (0.5, lambda: {"k": "un", "op": "-", "e": self.e_real(d - 1)}),
                (0.5 * self.o["cast"], lambda: {"k": "cast", "e": self.e_int(d - 1) if self.chance(0.8) else self.e_real(d - 1), "t": "real"}),
                (0.2 * self.o["cast"], lambda: {"k": "cast", "e": T(self.pick(["1.25", "-3", ".5", "1e3", "007.50"])), "t": "real"}),
            ]
            if self.mat:
                opts += [(1.2, lambda: call(self.pick(["abs", "raizqd", "sen", "cos", "tan", "grausprad", "radpgraus"]), self.slot("real", d - 1), m="mat")),
                         (0.6, lambda: call(self.pick(["expoente", "log"]), self.slot("real", d - 1), self.slot("real", d - 1), m="mat")),
                         (0.3, lambda: {"k": "gv", "m": "mat", "n": "PI"})]
            if self.chance(self.o["input"]):
                opts.append((1, lambda: self.req("leia_real")))
        return self.wpick(opts)()

    def e_bool(self, d):
        opts = [(2, lambda: B(self.chance(0.5)))]
        self.common("bool", d, opts)
        if d > 0:
            def cmp_():
                t = self.pick(["int", "int", "real"])
                t2 = self.pick(["int", t])
                return bin_(self.pick(["<", ">", "<=", ">="]), self.e(t, d - 1), self.e(t2, d - 1))

            def eq():
                t = self.pick(SCAL)
                return bin_(self.pick(["==", "!="]), self.e(t, d - 1), self.e(t, d - 1))
            opts += [
                (4, cmp_), (2, eq),
                (2, lambda: bin_(self.pick(["e", "ou"]), self.e_bool(d - 1), self.e_bool(d - 1))),
                (1, lambda: {"k": "un", "op": "nao", "e": self.e_bool(d - 1)}),
                (0.5, lambda: call("txt_contem", self.e_txt(d - 1), self.e_txt(d - 1))),
                (0.2 * self.o["cast"], lambda: {"k": "cast", "e": self.e(self.pick(["int", "texto", "real", "bool"]), d - 1), "t": "bool"}),
            ]
            ov = self.vars(lambda v: v["t"].endswith("?"))
            if ov:
                def nu():
                    a, b = V(self.pick(ov)["n"]), {"k": "nulo"}
                    return bin_(self.pick(["==", "!="]), a, b)
                opts.append((1.5, nu))
            oc = [v for v in ov if v["t"][:-1] in SCAL or v["t"][:-1] in self.regs]
            if oc:
                def opeq():
                    v = self.pick(oc)
                    t = v["t"][:-1]
                    ts = [t] + ([t + "?"] if self.chance(0.5) else []) + (["int" if t == "real" else "real"] if t in ("int", "real") else [])
                    return bin_(self.pick(["==", "!="]), V(v["n"]), self.e(self.pick(ts), d - 1))
                opts.append((1.5, opeq))
            rv = self.vars(lambda v: v["t"] in self.regs)
            if rv:
                def same():
                    v = self.pick(rv)
                    return bin_(self.pick(["==", "!="]), V(v["n"]), self.e(v["t"], d - 1))
                opts.append((1, same))
        return self.wpick(opts)()

    def e_txt(self, d):
        opts = [(2, lambda: T(self.text()))]
        self.common("texto", d, opts)
        if d > 0:
            def sidx():
                vs = [s for s in TXT if len(s) > 1]
                s = self.pick(vs) if self.chance(0.5) and not self.glyphs else self.text() or "a"
                return {"k": "idx", "o": T(s), "i": I(self.r.randrange(len(lang.graphemes(s))))}
            opts += [
                (1.2 * self.o["cast"], lambda: {"k": "cast", "e": self.e(self.pick(["int", "bool", "real", "texto"]), d - 1), "t": "texto"}),
                (2 * self.o["fstr"], lambda: self.fstr(d)),
                (0.5, sidx),
            ]
            if self.chance(self.o["input"]):
                opts.append((3, lambda: self.req("leia")))
        return self.wpick(opts)()

    def fstr(self, d):
        parts = []
        for _ in range(self.r.randrange(1, 4)):
            if self.chance(0.5):
                parts.append(self.pick(["x", "a=", " ", "é ", "val: ", "0", "12", "-", "1.50", "'", ", ", "verdadeiro", "nulo", '"', "\n", "{", "}", "\\t", "\"'"]))
            else:
                t = self.pick(["int", "int", "texto", "bool", "real"] + ["indef"] * bool(self.of("indef")))
                x = self.e(t, min(d - 1, 1)) if t != "indef" else V(self.pick(self.of(t))["n"])
                if has_text(x):
                    vs = self.of(t)
                    x = V(self.pick(vs)["n"]) if vs else I(3)
                parts.append(x)
        out = []
        for p in parts:
            if out and isinstance(p, str) and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return {"k": "fstr", "p": out}

    # ---- statements
    def declare(self, n, t, **kw):
        self.scopes[-1].append(dict(n=n, t=t, **kw))

    def block(self, n, d, pre=()):
        self.scopes.append(list(pre))
        out = []
        for _ in range(n):
            out += self.stmt(d)
        self.scopes.pop()
        return out

    def newname(self, e):
        """fresh name, or the name of an outer variable (shadowing)"""
        if self.chance(self.o["shadow"]) and len(self.scopes) > 1:
            here = {v["n"] for v in self.scopes[-1]}
            cand = [v["n"] for sc in self.scopes[:-1] for v in sc if v["n"] not in here and not v.get("ro")]
            cand = [c for c in cand if not mentions(e, c)]
            if cand:
                return self.pick(cand)
        return self.name("v")

    def s_decl(self, t=None):
        t = t or self.anytype()
        kw = {}
        if t in SCAL and self.chance(0.04):
            ns = [self.name("v") for _ in range(self.r.randrange(2, 4))]
            for n in ns:
                self.declare(n, t)
            return [{"k": "mdecl", "ns": ns, "t": t}]
        if t == "indef":
            return self.s_indef()
        if t in SCAL and self.chance(0.15):
            e = None
        elif t.startswith("["):
            n = self.r.randrange(0, 5)
            vs = self.of(t)
            if vs and self.chance(0.3):
                v = self.pick(vs)
                e = V(v["n"])
                kw = {"min": v.get("min", 0), "min2": v.get("min2", 0)}
            elif t == "[[int]]":
                m = self.r.randrange(1, 4)
                if self.chance(0.4):
                    e = {"k": "vecn", "t": "int", "a": [I(n), I(m)]}
                else:
                    e = {"k": "vecl", "t": "[int]", "a": [self.e_vec("[int]", 1, m) for _ in range(n)]}
                    # literal rows may be variables of unknown length
                    for a in e["a"]:
                        if a["k"] == "var":
                            m = 0
                kw = {"min": n, "min2": m}
            else:
                e = self.e_vec(t, 2, n)
                kw = {"min": n}
        elif self.o["igexpr"] and self.unis and not t.endswith("?") and self.chance(0.08 * self.o["iguala"]):
            e = self.ig_expr(t)
        else:
            e = self.slot(t)
        nm = self.newname(e)
        s = decl(nm, t, e)
        self.declare(nm, t, **kw)
        return [s]

    def s_indef(self):
        """a variable of any type, given a value that is then read back as what it is"""
        vs = self.vars(lambda v: v["t"] == "indef" and not v.get("ro"))
        t = self.pick(SCAL)
        e = self.e(t, 2)
        if vs and self.chance(0.5):
            n = self.pick(vs)["n"]
            s = set_(V(n), e)
        else:
            n = self.newname(e)
            s = decl(n, "indef", e)
            self.declare(n, "indef")
        out = [s]
        x = self.r.random()
        if x < 0.35:
            out.append(mo({"k": "cast", "e": V(n), "t": t, "indef": True}))
        elif x < 0.6:
            v = self.name("v")
            out.append(decl(v, t, {"k": "cast", "e": V(n), "t": t, "indef": True}))
            self.declare(v, t)
        elif x < 0.8:
            out.append(mo(V(n)))
        return out

    def s_elem(self):
        """store into an element of a vector of scalars other than int"""
        vs = self.vars(lambda v: v["t"] in ("[real]", "[texto]", "[[int]]") and v.get("min") and (v["t"] != "[[int]]" or v.get("min2")) and (not v.get("ro") or v.get("ext")))
        if not vs:
            return self.s_set()
        v = self.pick(vs)
        el = v["t"].strip("[]")
        to = {"k": "idx", "o": V(v["n"]), "i": I(self.r.randrange(v["min"]))}
        if v["t"] == "[[int]]":
            to = {"k": "idx", "o": to, "i": I(self.r.randrange(v["min2"]))}
        op = "="
        if el != "texto" and self.o["compound"] and self.chance(0.5):
            op = self.pick(["+=", "-=", "*="])
            if op == "*=":
                return [set_(to, I(self.pick([2, 3, -1])) if el == "int" or self.chance(0.5) else self.real_lit(), op, el)]
        return [set_(to, self.slot(el, 2), op, el)]

    def chain(self, t, s, n=2):
        """the value of an assignment to a place of type t comes from another assignment"""
        if s["op"] != "=" or not (n == 2 or self.chance(0.4)):
            return s
        src = [t] + ["int"] * (t == "real") + [t[:-1]] * (t[-1] == "?") + SCAL * (t == "indef")
        src = self.pick(src)
        if src[-1] == "?" or src not in SCAL + ["indef"]:
            vs = [v for v in self.of(src) if not v.get("ro")]
            if vs and not src.startswith("["):
                s["e"] = self.chain(src, set_(V(self.pick(vs)["n"]), s["e"] if src == t else self.slot(src)), n - 1)
            return s
        to = self.place(src)
        if to:
            s["e"] = self.chain(src, set_(to, self.slot(src), "=", src), n - 1)
        return s

    def place(self, t):
        """somewhere a value of type t can be assigned to"""
        opts = [V(v["n"]) for v in self.of(t) if not v.get("ro")]
        for v in self.vars(lambda v: v["t"] == "[%s]" % t and v.get("min") and (not v.get("ro") or v.get("ext"))):
            opts.append({"k": "idx", "o": V(v["n"]), "i": I(self.r.randrange(v["min"]))})
        for v in self.vars(lambda v: v["t"] in self.regs):
            opts += [{"k": "get", "o": V(v["n"]), "n": n} for n, ft in self.regs[v["t"]] if ft == t]
        return self.pick(opts) if opts else None

    def s_set(self):
        out = self.s_set1()
        s = out[-1]
        if s["k"] == "set" and s["op"] == "=" and self.chance(0.2):
            t = s.get("ty")
            if t is None and s["t"]["k"] == "var":
                t = next((v["t"] for v in self.vars(lambda v: v["n"] == s["t"]["n"])), None)
            if t and t[0] != "[":
                self.chain(t, s)
        return out

    def s_set1(self):
        cand = self.vars(lambda v: not v.get("ro") or (v.get("ext") and (v["t"] in self.regs or (v["t"] == "[int]" and v.get("min")))))
        cand = [v for v in cand if not v["t"].startswith("[") or v["t"] == "[int]"]
        if not cand:
            return self.s_decl()
        v = self.pick(cand)
        t = v["t"]
        if t == "[int]":
            if v.get("min", 0) == 0:
                return self.s_vec(v)
            i = I(self.r.randrange(v["min"]))
            op = self.pick(["=", "=", "+=", "-="]) if self.o["compound"] else "="
            return [set_({"k": "idx", "o": V(v["n"]), "i": i}, self.e("int", 1 if op != "=" else 2), op, "int")]
        if t in self.regs and (v.get("ext") or self.chance(0.75)):
            n, ft = self.pick(self.regs[t])
            if ft in ("int", "real") and self.chance(0.5 * self.o["compound"]):
                return [set_({"k": "get", "o": V(v["n"]), "n": n}, self.slot(ft, 1), self.pick(["+=", "-="]), ft)]
            return [set_({"k": "get", "o": V(v["n"]), "n": n}, self.slot(ft), "=", ft)]
        if t in ("int", "real") and self.chance(0.45 * self.o["compound"]):
            op = self.pick(["+=", "-=", "*="]) if t == "real" else self.pick(["+=", "-="])
            return [set_(V(v["n"]), self.slot(t, 2), op)]
        if t == "real" and self.chance(0.1):
            return [set_(V(v["n"]), I(self.pick([2, 3, 4])), "/=")]
        if t == "int" and self.chance(0.08 * self.o["compound"]):
            return [set_(V(v["n"]), I(self.pick([2, 3, -1, 0])), "*=")]
        return [set_(V(v["n"]), self.slot(t))]

    def s_vec(self, v=None):
        vs = self.vars(lambda v: v["t"].startswith("[") and v["t"][1:-1] in ("int", "texto", "real"))
        if not vs:
            return self.s_decl("[int]")
        v = v or self.pick(vs)
        el = v["t"][1:-1]
        x = self.r.random()
        n = v["n"]
        if x < 0.45:
            c = call("anexa", V(n), self.slot(el, 2))
            c["et"] = el
            return [ex(c)]
        if x < 0.6:
            return [se(bin_(">", call("tam", V(n)), I(0)), [ex(call("remova", V(n), bin_("-", call("tam", V(n)), I(1))))] if v.get("min", 0) == 0 else [mo({"k": "idx", "o": V(n), "i": I(0)})])]
        if x < 0.8:
            i = self.name("i")
            return [para(i, I(0), call("tam", V(n)), [mo({"k": "idx", "o": V(n), "i": V(i)})])]
        i = self.name("i")
        return [para(i, I(0), call("tam", V(n)), [set_({"k": "idx", "o": V(n), "i": V(i)}, self.slot(el, 1), "=", el)])]

    def s_text(self):
        """the characters of a text"""
        vs = self.of("texto")
        if not vs:
            return self.s_decl("texto")
        n = V(self.pick(vs)["n"])
        at = lambda i: {"k": "idx", "o": n, "i": i}
        x = self.r.random()
        if x < 0.4:
            i = self.name("i")
            if not has_text(n) and self.chance(0.5):
                return [para(i, I(0), call("tam", n), [ex(call("escreva", {"k": "fstr", "p": ["<", at(V(i)), ">"]}))])]
            return [para(i, I(0), call("tam", n), [mo(at(V(i)))])]
        last = bin_("-", call("tam", n), I(1))
        mid = bin_("//", call("tam", n), I(2))
        some = lambda: at(self.pick([I(0), last, mid]))
        c = bin_(">", call("tam", n), I(0))
        if x < 0.6:
            return [se(c, [mo(some())], [mo(T("vazio"))] if self.chance(0.5) else None)]
        if x < 0.8:
            return [mo(bin_("e", c, bin_(self.pick(["==", "!="]), some(), some())))]
        v = self.name("v")
        return [se(c, [decl(v, "texto", some()), mo(call("tam", V(v))), mo(bin_("==", V(v), some()))])]

    def s_print(self):
        t = self.wpick([(4, "int"), (2, "texto"), (1.5 * self.o["real"], "real"), (1, "bool"), (0.7 * self.o["vec"], "[int]"), (0.4 * self.o["vec"], "[texto]"), (0.3 * self.o["vec"] * self.o["real"], "[real]")])
        if self.of("indef") and self.chance(0.08):
            t = "indef"
        if self.regs and self.chance(0.05):
            t = self.pick(list(self.regs))
        e = self.e(t)
        x = self.r.random()
        if x < 0.6:
            return [mo(e)]
        return [ex(call("escreva" if x < 0.8 else "escrevaln", e))]

    def s_if(self, d):
        ei = [{"c": self.e_bool(2), "b": self.block(self.r.randrange(0, 3), d - 1)} for _ in range(self.wpick([(5, 0), (2, 1), (1, 2)]))]
        el = self.block(self.r.randrange(0, 3), d - 1) if self.chance(0.5) else None
        return [se(self.e_bool(2), self.block(self.r.randrange(0, 3), d - 1), el, ei)]

    def s_range(self, d):
        """a loop whose bounds, step, vector or control variable change while it runs"""
        r = self.r
        i = self.name("i")
        cap = r.randrange(4, 9)
        pre, body, kw, lit = [], [], {}, True
        lo, hi, inc = I(r.randrange(-1, 3)), I(cap), None
        x = r.random()
        if x < 0.25:
            v = self.name("v")
            t = self.pick(["int", "int", "texto"])
            pre = [decl(v, "[%s]" % t, self.e_vec("[%s]" % t, 1, r.randrange(1, 4)))]
            lo, hi = I(0), call("tam", V(v))
            lit = r.random() < 0.5
            add = ex(call("anexa", V(v), (I(r.randrange(9)) if t == "int" else T(self.text())) if lit else self.e(t, 1)))
            add["e"]["et"] = t
            less = bin_("<", call("tam", V(v)), I(cap))
            y = r.random()
            if y < 0.5:
                body = [se(less, [add])]
            elif y < 0.75:
                body = [mo({"k": "idx", "o": V(v), "i": I(0)}), se(bin_(">", call("tam", V(v)), I(1)), [ex(call("remova", V(v), I(0)))])]
            else:
                body = [se(bin_("==", bin_("%", V(i), I(2)), I(0)), [se(less, [add])], [ex(call("remova", V(v), bin_("-", call("tam", V(v)), I(1))))])]
            if r.random() < 0.3:
                hi = bin_(self.pick(["+", "-"]), hi, I(1))
            body.append(mo(V(v)))
            kw = dict(n=v, t="[%s]" % t, min=0, ro=True)
        elif x < 0.45:
            v = self.name("v")
            pre = [decl(v, "int", I(r.randrange(0, cap)))]
            hi = V(v) if r.random() < 0.6 else bin_(self.pick(["+", "-"]), V(v), I(1))
            body = [se(bin_("<", V(v), I(cap)), [set_(V(v), I(1), "+=")])] if r.random() < 0.6 else [set_(V(v), I(1), "-=")]
            kw = dict(n=v, t="int", ro=True)
        elif x < 0.65:
            v = self.name("v")
            pre = [decl(v, "int", I(r.randrange(1, 3)))]
            inc = V(v) if r.random() < 0.6 else bin_("+", V(v), I(1))
            body = [set_(V(v), I(1), "+=")]
            kw = dict(n=v, t="int", ro=True)
        elif x < 0.8:
            body = [se(bin_("==", bin_("%", V(i), I(self.pick([2, 3]))), I(0)), [set_(V(i), I(self.pick([1, 2])), "+=")])]
        fs = [f for f in self.funcs if f[2] == "int"]
        if fs and r.random() < 0.5:
            e = lambda m: bin_("%", self.callf(self.pick(fs), 1), I(m))
            if x >= 0.8 or r.random() < 0.3:
                hi = e(cap)
            if r.random() < 0.4:
                lo = e(3)
            if r.random() < 0.3 and inc is None:
                inc = bin_("+", e(2), I(2))
        # nothing else may make the loop longer
        if pre and "min" not in kw:
            self.declare(**kw)
        save, self.loop = self.loop, 1
        b = [mo(V(i))] + self.block(r.randrange(0, 2), d - 1, [dict(n=i, t="int", ro=True)])
        self.loop = save
        if pre and "min" in kw:
            self.declare(kw["n"], kw["t"], min=0)
        for s in body:
            # a name in an expression may have another meaning after a declaration
            b.insert(r.randrange(len(b) + 1 if lit else 2), s)
        return pre + [para(i, lo, hi, b, inc)]

    def s_deep(self):
        """blocks inside blocks, with variables of their own on the way in and out"""
        r = self.r
        left = r.randrange(4, 10)
        turns = 3

        def level(k):
            nonlocal turns
            if k == 0:
                out = [mo(I(r.randrange(100)))]
                if self.loop and r.random() < 0.7:
                    out.append(se(self.e_bool(1), [{"k": self.pick(["quebra", "continua"])}]))
                # last, as what it declares may hide other names
                return out + self.block(1, 0)
            save = self.loop
            self.scopes.append([])
            pre = []
            x = r.random()
            loop = turns and x < 0.35
            if r.random() < 0.5:
                v = self.name("v")
                pre = [decl(v, "int", self.e("int", 1))]
                self.declare(v, "int", ro=bool(loop))
            if loop:
                turns -= 1
                i = self.name("i")
                self.loop = 1
                if x < 0.25:
                    self.scopes.append([])
                    self.declare(i, "int", ro=True)
                    out = pre + [para(i, I(0), I(r.randrange(2, 4)), [mo(V(i))] + level(k - 1))]
                    self.scopes.pop()
                else:
                    self.declare(i, "int", ro=True)
                    out = pre + [decl(i, "int", I(0)), enq(bin_("<", V(i), I(r.randrange(2, 4))), [set_(V(i), I(1), "+=")] + level(k - 1))]
            elif x < 0.6:
                sub = level(k - 1)
                c = self.e_bool(1)
                y = r.random()
                if y < 0.5:
                    out = pre + [se(c, sub, [mo(I(k))])]
                elif y < 0.8:
                    out = pre + [se(c, [mo(I(k))], sub)]
                else:
                    out = pre + [se(c, [mo(I(k))], None, [{"c": self.e_bool(1), "b": sub}])]
            else:
                n = r.randrange(3)
                out = pre + [{"k": "esc", "e": bin_("%", self.e("int", 1), I(3)), "cs": [{"x": I(n), "b": [mo(I(n))]}], "el": level(k - 1)}]
                if r.random() < 0.5:
                    e = out[-1]
                    e["cs"][0]["b"], e["el"] = e["el"], e["cs"][0]["b"]
            self.loop = save
            if pre:
                out.append(mo(V(v)))
            if self.loop and r.random() < 0.3:
                out.append(se(self.e_bool(1), [{"k": self.pick(["quebra", "continua"])}]))
            self.scopes.pop()
            return out

        return level(left)

    def s_loop(self, d):
        if self.chance(0.06):
            return self.s_deep()
        if self.chance(0.2):
            return self.s_range(d)
        if self.chance(0.5):
            i = self.name("i")
            inc = None if self.chance(0.7) else I(self.pick([1, 2, 3]))
            lo = self.r.randrange(-2, 3)
            hi = I(lo + self.r.randrange(0, 5))
            save, self.loop = self.loop, 1
            b = self.block(self.r.randrange(1, 4), d - 1, [dict(n=i, t="int", ro=True)])
            self.loop = save
            return [para(i, I(lo), hi, b, inc)]
        c = self.name("c")
        lim = self.r.randrange(0, 5)
        pre = [decl(c, "int", I(0))]
        self.declare(c, "int", ro=True)
        save, self.loop = self.loop, 1
        b = [set_(V(c), I(1), "+=")] + self.block(self.r.randrange(1, 4), d - 1)
        self.loop = save
        cond = bin_("<", V(c), I(lim))
        if self.chance(0.25):
            cond = bin_("e", cond, self.e_bool(1))
        return pre + [enq(cond, b)]

    def s_escolha(self, d):
        t = self.pick(["int", "int", "texto"])
        vals = list(range(-1, 6)) if t == "int" else ["a", "bc", "olá", "x y", "fim", "it's", "l1\nl2"]
        self.r.shuffle(vals)
        n = self.r.randrange(1, 4)
        scr = self.e(t, 2)
        if t == "int" and self.chance(0.6):
            scr = bin_("%", scr, I(4))
        cs = [{"x": I(v) if t == "int" else T(v), "b": self.block(self.r.randrange(1, 3), d - 1)} for v in vals[:n]]
        el = self.block(self.r.randrange(1, 3), d - 1) if self.chance(0.7) else None
        return [{"k": "esc", "e": scr, "cs": cs, "el": el}]

    # patterns: returns pattern and bound variables
    def pattern(self, t, d):
        x = self.r.random()
        if t in self.unis and d > 0 and x < 0.75:
            v = self.pick(self.unis[t])
            ps, bs = [], []
            for at in v[1]:
                p, b = self.pattern(at, d - 1)
                ps.append(p)
                bs += b
            return {"k": "c", "u": t, "v": v[0], "a": ps}, bs
        if t == "int" and x < 0.3 * self.o["iguala"]:
            return {"k": "i", "v": self.r.randrange(0, 4)}, []
        if t == "texto" and x < 0.3 * self.o["iguala"]:
            return {"k": "s", "v": self.pick(["a", "bc", "fim", "x y", "a", "it's", '"q"', "l1\nl2", "\\t"])}, []
        if x < 0.85:
            n = self.name("b")
            return {"k": "b", "n": n}, [dict(n=n, t=t, ro=True)]
        return {"k": "w"}, []

    def one_wild(self, p, seen):
        """a pattern may use the wildcard only once: name the others"""
        if p["k"] == "w":
            if seen:
                p["k"], p["n"] = "b", self.name("b")
            seen.append(p)
        for q in p.get("a", []):
            self.one_wild(q, seen)

    def arms(self, t, n=None):
        """[(pattern, bindings)] covering every value of t, no arm useless"""
        out, seen = [], []
        for _ in range(n if n is not None else self.r.randrange(1, 4)):
            p, b = self.pattern(t, 2)
            if p["k"] in ("w", "b"):
                continue
            self.one_wild(p, [])
            if any(covers(q, p) for q in seen):
                continue
            seen.append(p)
            out.append((p, b))
        if t in self.unis and self.chance(0.5):
            for v, ts in self.unis[t]:
                ps, bs = [], []
                for at in ts:
                    if self.chance(0.6):
                        nm = self.name("b")
                        ps.append({"k": "b", "n": nm})
                        bs.append(dict(n=nm, t=at, ro=True))
                    else:
                        ps.append({"k": "w"})
                p = {"k": "c", "u": t, "v": v, "a": ps}
                self.one_wild(p, [])
                if not any(covers(q, p) for q in seen):
                    seen.append(p)
                    out.append((p, bs))
        else:
            if self.chance(0.5):
                out.append(({"k": "w"}, []))
            else:
                nm = self.name("b")
                out.append(({"k": "b", "n": nm}, [dict(n=nm, t=t, ro=True)]))
        return out

    def scrut(self):
        opts = [(4, u) for u in self.unis] + [(1, "int"), (0.7, "texto")]
        t = self.wpick(opts)
        vs = self.of(t)
        if vs and self.chance(0.7):
            return t, V(self.pick(vs)["n"])
        x = self.e(t, 2)
        if t == "int":
            x = bin_("%", x, I(4))
        return t, x

    def ig_expr(self, rt):
        t, x = self.scrut()
        arms = []
        for p, b in self.arms(t):
            self.scopes.append(list(b))
            if self.chance(0.7):
                arms.append({"p": p, "x": self.e(rt, 1)})
            else:
                body = []
                save, self.infunc = self.infunc, None
                for _ in range(self.r.randrange(1, 3)):
                    body += self.stmt(0)
                self.infunc = save
                arms.append({"p": p, "b": body, "y": self.e(rt, 1)})
            self.scopes.pop()
        return {"k": "ig", "e": x, "arms": arms}

    def ig_inline(self, rt, d):
        t, x = self.scrut()
        arms = []
        for p, b in self.arms(t):
            self.scopes.append(list(b))
            arms.append({"p": p, "x": self.e(rt, d - 1)})
            self.scopes.pop()
        return {"k": "igi", "e": x, "arms": arms}

    def s_iguala(self, d):
        t, x = self.scrut()
        if t in self.unis and self.chance(0.25):
            p, b = self.pattern(t, 2)
            self.one_wild(p, [])
            if p["k"] == "c":
                return [{"k": "seig", "e": x, "p": p, "b": self.block(2, d - 1, b), "el": self.block(1, d - 1) if self.chance(0.5) else None}]
        arms = []
        save = self.infunc
        for p, b in self.arms(t):
            arms.append({"p": p, "b": self.block(self.r.randrange(1, 3), d - 1, b), "y": None})
        return [{"k": "igs", "e": x, "arms": arms}]

    def stmt(self, d):
        o = self.o
        opts = [(4, self.s_decl), (3.5, self.s_set), (4.5, self.s_print), (1.5 * o["vec"], self.s_vec), (0.5, self.s_text),
                (0.4 * o["indef"], self.s_indef), (0.5 * o["vec"], self.s_elem)]
        if d > 0:
            opts += [(1.6, lambda: self.s_if(d)), (1.3 * o["loops"], lambda: self.s_loop(d)), (0.7 * o["esc"], lambda: self.s_escolha(d))]
            if o["iguala"]:
                opts.append((0.9 * o["iguala"], lambda: self.s_iguala(d)))
        fs = [f for f in self.funcs]
        if fs:
            opts.append((1.2 * o["discard"], lambda: [ex(self.callf(self.pick(fs), 2))]))
        ms = [m for m in self.mets if self.of(m[0])]
        if ms:
            def met():
                m = self.pick(ms)
                return [ex({"k": "meth", "o": V(self.pick(self.of(m[0]))["n"]), "ty": m[0], "m": m[4] if len(m) > 4 else None, "f": m[1], "a": [self.slot(t, 1) for t in m[2]]})]
            opts.append((1, met))
        if self.infunc is not None and d < self.o["depth"]:
            rt = self.infunc
            opts.append((0.5 * o["early"], lambda: [se(self.e_bool(1), [ret(self.slot(rt, 2) if rt else None)])]))
        if self.loop:
            opts.append((0.5, lambda: [se(self.e_bool(1), [{"k": self.pick(["quebra", "continua"])}])]))
        out = self.wpick(opts)()
        if out and self.chance(o["blank"]):
            out[0]["bl"] = self.r.randrange(1, 3)
            out[0]["cm"] = self.chance(0.4)
        return out

    # ---- declarations
    def mk_reg(self):
        n = self.name("R")
        fs = []
        for i in range(self.r.randrange(1, 5)):
            t = self.anytype()
            if t in self.unis:
                t = "int"
            fs.append([self.name("c"), t])
        if self.chance(0.3 * self.o["opt"]):
            fs.append([self.name("c"), n + "?"])
        self.regs[n] = fs
        return {"k": "reg", "n": n, "fs": fs}

    def mk_uni(self):
        n = self.name("U" + self.utag)
        vs = []
        for i in range(self.r.randrange(1, 5)):
            ts = []
            for _ in range(self.wpick([(3, 0), (4, 1), (3, 2), (1, 3)])):
                t = self.wpick([(4, "int"), (2, "texto"), (1, "bool"), (1, "real"), (1, "[int]")] + [(1, rr) for rr in self.regs] + ([(1, n)] if i > 0 else []) + [(1, u) for u in self.unis])
                ts.append(t)
            vs.append([self.name("K"), ts])
        if all(n in ts for _, ts in vs):
            vs[0][1] = []
        self.unis[n] = vs
        return {"k": "uni", "n": n, "vs": vs}

    def body(self, ps, rt, n, alvo=None, pre=()):
        save = (self.scopes, self.infunc, self.loop, self.alvo)
        self.scopes = [self.scopes[0], [dict(n=a, t=t) for a, t in ps]]
        self.infunc, self.loop, self.alvo = rt or "", 0, alvo
        if not rt:
            self.infunc = None
        b = list(pre)
        for _ in range(n):
            b += self.stmt(self.o["depth"] - 1)
        if rt:
            b.append(ret(self.slot(rt)))
        self.scopes, self.infunc, self.loop, self.alvo = save
        return b

    def mk_func(self):
        n = self.name("f")
        ps = [[self.name("p"), self.anytype()] for _ in range(self.wpick([(2, 0), (3, 1), (3, 2), (2, 3)]))]
        rt = None if self.chance(0.2) else self.anytype()
        pre = []
        if self.chance(self.o["trace"]):
            pre = [mo(T(n))]
        b = self.body(ps, rt, self.r.randrange(0, 4), pre=pre)
        self.funcs.append((n, [t for _, t in ps], rt))
        return func(n, ps, rt, b)

    def mk_rec(self):
        n = self.name("f")
        p, acc = self.name("p"), self.name("p")
        t = self.pick(["int", "int", "texto", "real", "[int]"])
        ps = [[p, "int"], [acc, t]]
        save = (self.scopes, self.infunc, self.loop, self.alvo)
        self.scopes = [self.scopes[0], [dict(n=p, t="int", ro=True), dict(n=acc, t=t)]]
        self.infunc, self.loop, self.alvo = t, 0, None
        b = [se(bin_("<=", V(p), I(0)), [ret(V(acc))])]
        for _ in range(self.r.randrange(0, 3)):
            b += self.stmt(1)
        rc = call(n, bin_("-", V(p), I(1)), self.slot(t, 1))
        loc = self.name("v")
        b.append(decl(loc, t, rc if t != "int" or self.chance(0.5) else bin_("+", V(acc), rc)))
        self.declare(loc, t)
        for _ in range(self.r.randrange(0, 3)):
            b += self.stmt(1)
        b.append(ret(self.slot(t, 1)))
        self.scopes, self.infunc, self.loop, self.alvo = save
        f = func(n, ps, t, b)
        w = self.name("f")
        wp = self.name("p")
        self.funcs.append((w, [t], t))
        return [f, func(w, [[wp, t]], t, [ret(call(n, I(self.r.randrange(1, 6)), V(wp)))])]

    def mk_met(self):
        cands = [r for r in self.regs if r[0] != "@"] + [u for u in self.unis if u[0] != "@"] + ["int", "texto"]
        ty = self.pick(cands[:-2]) if len(cands) > 2 and (self.chance(0.8) or self.noprim) else self.pick(cands)
        n = self.name("m")
        ps = [[self.name("p"), self.anytype()] for _ in range(self.r.randrange(0, 3))]
        rt = None if self.chance(0.2) else self.anytype()
        b = self.body(ps, rt, self.r.randrange(0, 3), alvo=ty)
        if ty in self.regs and self.chance(0.6):
            fld, ft = self.pick(self.regs[ty])
            if not ft.startswith("["):
                s2 = (self.scopes, self.alvo)
                self.scopes = [self.scopes[0], [dict(n=a, t=t) for a, t in ps]]
                b.insert(0, set_({"k": "get", "o": {"k": "alvo"}, "n": fld}, self.slot(ft, 1), "=", ft))
                self.scopes, self.alvo = s2
        self.mets.append((ty, n, [t for _, t in ps], rt))
        return {"k": "met", "ty": ty, "n": n, "ps": ps, "rt": rt, "b": b}

    def program(self):
        self.mat = self.chance(self.o["mat"])
        p = single(self.items())
        if self.mat:
            p["mods"]["main"]["imports"] = mat_import(self.r)
        return self.dressed(p)

    def dressed(self, p):
        if self.chance(self.o["dress"]):
            dress(p, self.r, self.o["nl"])
        return p

    def items(self, first=()):
        items = list(first)
        o = self.o
        kinds = ["reg"] * self.r.randrange(0, o["regs"] + 1) + ["uni"] * self.r.randrange(0, o["unis"] + 1)
        self.r.shuffle(kinds)
        for k in kinds:
            items.append(self.mk_reg() if k == "reg" else self.mk_uni())
        for _ in range(self.r.randrange(0, 3)):
            items += self.stmt(0)
        nf = self.r.randrange(0, o["funcs"] + 1)
        for _ in range(nf):
            items.append(self.mk_func())
            if self.chance(0.3):
                items += self.stmt(1)
        if self.chance(0.4 * o["rec"]):
            items += self.mk_rec()
        for _ in range(self.r.randrange(0, o["mets"] + 1)):
            if self.noprim and not any(k[0] != "@" for k in list(self.regs) + list(self.unis)):
                break
            items.append(self.mk_met())
        for _ in range(self.r.randrange(2, o["top"] + 1)):
            items += self.stmt(o["depth"])
        return items


SMALL = dict(funcs=3, regs=1, unis=1, mets=1, top=4, depth=2, edepth=2, shadow=0.15)


class MultiGen:
    """programs of several modules.  Styles of naming:
      open   - all names different, imported whole or under an alias
      listed - all names different, imported by name or under an alias
      same   - equal names in every module, imported under an alias
    """
    def __init__(self, rng, nmods=None, style=None, **over):
        self.r = rng
        self.over = dict(SMALL, **over)
        self.style = style or rng.choice(["open", "open", "listed", "same"])
        self.nm = nmods or rng.randrange(2, 6)
        self.exports = {}
        self.nalias = 0
        self.spell = names.style(rng)
        self.count = 0
        self.std = over.get("std", 0)

    def path(self, i):
        r = self.r
        return r.choice(["m%d.ama", "m%d.ama", "sub/m%d.ama", "sub/x/m%d.ama", "outro/m%d.ama"]) % i

    def written(self, path):
        p = path if self.r.random() < 0.5 else path[:-4]
        x = self.r.random()
        if x < 0.15:
            p = "./" + p
        elif x < 0.25 and "/" in p:
            d = p.split("/")[0]
            p = d + "/../" + p
        return p

    def program(self):
        r = self.r
        ms = ["m%d" % i for i in range(1, self.nm)]
        mods, deps = {}, {}
        for i, n in enumerate(ms):
            k = min(i, r.choice([0, 1, 1, 2, 2, 3]))
            deps[n] = r.sample(ms[:i], k)
        deps["main"] = r.sample(ms, min(len(ms), r.choice([1, 2, 2, 3, 4])))
        paths = {n: self.path(i + 1) for i, n in enumerate(ms)}
        paths["main"] = "main.ama"
        for n in ms + ["main"]:
            mods[n] = self.module(n, paths, deps[n])
        p = {"main": "main", "mods": mods}
        if r.random() < self.over.get("dress", 1.0):
            dress(p, r, self.over.get("nl", 1.0))
        return p

    def alias(self):
        self.nalias += 1
        return self.spell("q", self.nalias)

    def module(self, n, paths, deps):
        r = self.r
        g = Gen(r, **self.over)
        g.spell = self.spell
        g.n = 0 if self.style == "same" else self.count
        if self.style == "same":
            g.utag = n
            g.noprim = True
        imports, env = [], []
        deps = list(deps)
        for d in deps:
            if d not in self.exports:
                continue
            x = self.exports[d]
            w = self.written(paths[d])
            if self.style == "open":
                form = r.choice(["global", "alias"])
                if form == "global":
                    imports.append({"mod": d, "form": "global", "as": w})
                    # everything the module imports whole is visible too
                    for k in [d] + x["closure"]:
                        env.append((k, None))
                else:
                    imports.append({"mod": d, "form": "alias", "as": w, "alias": self.alias()})
                    env.append((d, "alias"))
                if r.random() < 0.15:
                    imports.append({"mod": d, "form": "alias", "as": self.written(paths[d]), "alias": self.alias()})
            elif self.style == "listed":
                public = [v["n"] for v in x["vars"]] + [f[0] for f in x["funcs"]] + list(x["regs"]) + list(x["unis"])
                take = [p for p in public if r.random() < 0.5]
                if take:
                    imports.append({"mod": d, "form": "list", "as": w, "names": take})
                if not take or r.random() < 0.6:
                    imports.append({"mod": d, "form": "alias", "as": self.written(paths[d]), "alias": self.alias()})
                    env.append((d, "alias+" + ",".join(take)))
                else:
                    env.append((d, "only+" + ",".join(take)))
            else:
                imports.append({"mod": d, "form": "alias", "as": w, "alias": self.alias()})
                us = list(x["unis"])
                if us and r.random() < 0.6:
                    imports.append({"mod": d, "form": "list", "as": self.written(paths[d]), "names": us})
                    env.append((d, "alias+" + ",".join(us)))
                else:
                    env.append((d, "alias"))
        seen = set()
        for d, how in env:
            if d not in seen:
                seen.add(d)
                self.inject(g, d, how)
        first = [mo(T("=> " + n))]
        if r.random() < 0.7:
            v = g.name("v")
            first.append(decl(v, "int", I(r.randrange(0, 9))))
            g.declare(v, "int")
            f = g.name("f")
            first.append(func(f, [[g.name("p"), "int"]], "int", [set_(V(v), V(g_last(g)), "+="), ret(V(v))]))
            g.funcs.append((f, ["int"], "int"))
        if r.random() < self.over.get("mat", 0.15):
            g.mat = True
            imports += mat_import(r)
            imports[-1]["alias"] = self.alias() if imports[-1]["form"] == "alias" else None
        items = g.items(first)
        if self.style != "same":
            self.count = g.n
        own = lambda k: k[0] != "@"
        closure = []
        for i in imports:
            if i["form"] == "global" and i["mod"] != "mat":
                for k in [i["mod"]] + self.exports[i["mod"]]["closure"]:
                    if k not in closure:
                        closure.append(k)
        self.exports[n] = {
            "vars": [v for v in g.scopes[0] if own(v["n"])],
            "funcs": [f for f in g.funcs if own(f[0])],
            "regs": {k: v for k, v in g.regs.items() if own(k)},
            "unis": {k: v for k, v in g.unis.items() if own(k)},
            "mets": [m for m in g.mets if own(m[0])],
            "closure": closure,
        }
        return {"path": paths[n], "imports": imports, "items": items, "vis": closure}

    def inject(self, g, d, how):
        x = self.exports[d]
        if how is None:
            can = lambda n: True
            uni = lambda n: True
        else:
            kind, _, own = how.partition("+")
            own = set(own.split(","))
            can = (lambda n: True) if kind == "alias" else (lambda n: n in own)
            uni = lambda n: n in own
        mine = set(x["regs"]) | set(x["unis"])

        def q(t):
            """the type as module d writes it, spelled from outside; None if it cannot be"""
            import re
            base = re.sub(r"[\[\]?]", "", t)
            if base in SCAL:
                return t
            if base in mine:
                ok = uni(base) if base in x["unis"] else can(base)
                return t.replace(base, "@%s.%s" % (d, base)) if ok else None
            return t if base in g.regs or base in g.unis else None

        import re
        base = lambda t: re.sub(r"[\[\]?]", "", t)
        new_u, new_r = {}, {}
        for k, vs in x["unis"].items():
            qs = [[v, [q(t) for t in ts]] for v, ts in vs]
            if uni(k) and all(t is not None for _, ts in qs for t in ts):
                new_u["@%s.%s" % (d, k)] = qs
        for k, fs in x["regs"].items():
            qs = [[f, q(t)] for f, t in fs]
            if can(k) and all(t is not None for _, t in qs):
                new_r["@%s.%s" % (d, k)] = qs
        there = lambda t: base(t) in SCAL or any(base(t) in s for s in (g.regs, g.unis, new_r, new_u))
        while True:
            gone = [k for k, vs in new_u.items() if not all(there(t) for _, ts in vs for t in ts)]
            gone_r = [k for k, fs in new_r.items() if not all(there(t) for _, t in fs)]
            for k in gone:
                del new_u[k]
            for k in gone_r:
                del new_r[k]
            if not gone and not gone_r:
                break
        g.unis.update(new_u)
        g.regs.update(new_r)

        def known(t):
            import re
            t = q(t)
            if t is None:
                return None
            base = re.sub(r"[\[\]?]", "", t)
            return t if base in SCAL or base in g.regs or base in g.unis else None
        for v in x["vars"]:
            t = known(v["t"])
            if t and can(v["n"]):
                g.scopes[0].append(dict(v, n="@%s.%s" % (d, v["n"]), t=t, ro=True, ext=True))
        for f in x["funcs"]:
            ts = [known(t) for t in f[1]]
            rt = known(f[2]) if f[2] else None
            if can(f[0]) and None not in ts and (rt or not f[2]):
                g.funcs.append(("@%s.%s" % (d, f[0]), ts, rt))
        for m in x["mets"]:
            ts = [known(t) for t in m[2]]
            rt = known(m[3]) if m[3] else None
            ty = known(m[0])
            if ty and None not in ts and (rt or not m[3]):
                if ty in SCAL and any(q[0] == ty and q[1] == m[1] for q in g.mets):
                    continue
                g.mets.append((ty, m[1], ts, rt) + (((m[4] if len(m) > 4 else d),) if ty in SCAL else ()))


def mat_import(r):
    x = r.random()
    if x < 0.4:
        return [{"mod": "mat", "form": "global", "as": "mat"}]
    if x < 0.75:
        return [{"mod": "mat", "form": "alias", "as": "mat", "alias": "qm"}]
    return [{"mod": "mat", "form": "list", "as": "mat", "names": ["PI"] + list(lang.MAT)}]


def dress(prog, r, nl=1.0):
    """spell the program in one of the many ways that mean the same: with the parentheses it needs
    only, other quotes, lists over several lines, statements joined by ";", comments, tabs"""
    bare = r.choice([0, 0.5, 1])
    join = r.choice([0, 0, 0.15])
    note = r.choice([0, 0, 0.15])
    many = r.choice([0, 0, 0.2]) * nl
    ml = r.choice([0, 0.5]) * nl

    def many_lines(x, inner=False):
        if isinstance(x, dict):
            if x.get("k") in ("fstr", "ig", "igi"):
                return
            if x.get("k") in ("call", "meth", "new", "vari", "vecl") and r.random() < many:
                x["nl"] = 1
            for v in x.values():
                many_lines(v)
        elif isinstance(x, list):
            for v in x:
                many_lines(v)

    def walk(x):
        if isinstance(x, dict):
            k = x.get("k")
            if k in ("bin", "un", "cast") and r.random() < bare:
                x["np"] = 1
            elif k in ("txt", "fstr", "s") and r.random() < 0.3:
                x["q"] = r.choice("'\"")
            elif "p" in x and ("x" in x or "b" in x) and "c" not in x and r.random() < 0.2:
                x["nc"] = 1
            elif k == "reg" and r.random() < 0.3:
                x["jf"] = 1
            if k in lang.Renderer.SIMPLE:
                if r.random() < join:
                    x["sj"] = 1
                if r.random() < note:
                    x["tc"] = 1
                if many and k not in ("quebra", "continua", "mdecl"):
                    many_lines(x)
                e = x.get("e")
                if ml and k in ("decl", "mo", "set") and e and e["k"] == "txt" and r.random() < ml:
                    e["ml"] = 1
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for m in prog["mods"].values():
        if "items" in m:
            walk(m["items"])
            if r.random() < 0.15:
                m["tab"] = r.choice(["\t", " ", "  ", ""])


def g_last(g):
    return g.spell("p" + g.tag, g.n)


def has_text(x):
    if isinstance(x, dict):
        if x.get("k") in ("txt", "fstr") or (x.get("k") == "call" and x["f"].startswith("leia")):
            return True
        if x.get("k") == "vecl" or x.get("k") == "new" or x.get("k") in ("vari", "igi"):
            return True
        return any(has_text(v) for v in x.values())
    if isinstance(x, list):
        return any(has_text(v) for v in x)
    return False


def mentions(x, n):
    if isinstance(x, dict):
        if x.get("k") == "var" and x.get("n") == n:
            return True
        return any(mentions(v, n) for v in x.values())
    if isinstance(x, list):
        return any(mentions(v, n) for v in x)
    return False


def shape(p):
    if p["k"] == "c":
        return (p["v"],) + tuple(shape(a) for a in p["a"])
    return p["k"], p.get("v")


def covers(p, q):
    """every value matching q matches p"""
    if p["k"] in ("w", "b"):
        return True
    if q["k"] in ("w", "b"):
        return False
    if p["k"] != q["k"]:
        return False
    if p["k"] == "c":
        return p["u"] == q["u"] and p["v"] == q["v"] and all(covers(a, b) for a, b in zip(p["a"], q["a"]))
    return p["v"] == q["v"]


def lines_for(rng, res_fns):
    """input lines for a list of request functions"""
    out = []
    for f in res_fns:
        if f == "leia_int":
            out.append(str(rng.choice([0, 1, 2, 3, 7, -4, 12, 100])))
        elif f == "leia_real":
            out.append(rng.choice(["1.5", "2", "-0.25", "10.0", "1e2"]))
        else:
            out.append(rng.choice(TXT + ["linha de texto", "42"]) if rng.random() < 0.9 else "".join(rng.choice(CLUSTER) for _ in range(3)))
    return out


def answer(prog, rng, fuel=30000, limit=60):
    """an input that answers every request of the program; returns (bytes, result)"""
    inp = b""
    lang.render(prog)      # gives every statement its line
    for _ in range(limit):
        r = lang.Interp(prog, inp, fuel).run()
        if r.fuel_out:
            return None, r
        if r.err is not None and r.err.msg is None and len(r.reqfn) > inp.count(b"\n"):
            need = r.reqfn[inp.count(b"\n"):]
            inp += ("\n".join(lines_for(rng, need)) + "\n").encode()
            continue
        return inp, r
    return None, r

"""Programs whose point is one shape: histories of shared objects, of calls, of selections."""
import names
from gen import B, I, T, V, bin_, call, decl, enq, ex, func, mo, para, ret, se, set_, single


def idx(o, i):
    return {"k": "idx", "o": o, "i": i if isinstance(i, dict) else I(i)}


def get(o, n):
    return {"k": "get", "o": o, "n": n}


def tam(o):
    return call("tam", o)


# ------------------------------------------------------------------ shared objects
class Heap:
    """variables of reference types, and a random history of sharing and change.

    types: [int], [texto], [[int]], [No], No (a: int, t: texto, l: [int], n: No?), U (uniao over them), No?
    """
    TYPES = ["[int]", "[int]", "[texto]", "[[int]]", "[No]", "No", "No", "U", "No?"]

    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.spell = names.style(rng, True)
        self.funcs = []
        self.infn = None
        self.long = rng.random() < 0.2

    def name(self, p="x"):
        self.k += 1
        return self.spell(p, self.k)

    def program(self):
        r = self.r
        items = [
            {"k": "reg", "n": "No", "fs": [["a", "int"], ["t", "texto"], ["l", "[int]"], ["n", "No?"]]},
            {"k": "uni", "n": "U", "vs": [["K", ["[int]"]], ["L", ["No", "int"]], ["P", ["U", "[[int]]"]], ["Z", []]]},
        ]
        self.vars = []
        for _ in range(r.choice([0, 1, 2, 3])):
            items += self.mk_met() if r.random() < 0.3 else self.mk_func()
        for t in r.sample(self.TYPES, r.randrange(3, 7)):
            items += self.new_var(t)
        n = r.randrange(8, 30)
        for i in range(n):
            items += self.op(2)
            if len(self.funcs) < 4 and r.random() < 0.06:
                items += self.mk_func()
        items += self.look_all()
        return single(items)

    # -- expressions
    def of(self, t):
        return [n for n, u in self.vars if u == t]

    def int_(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return I(r.randrange(-5, 30))
        vs = self.of("No")
        if x < 0.75 and vs:
            return get(V(r.choice(vs)), "a")
        vs = self.of("[int]")
        if vs:
            return tam(V(r.choice(vs)))
        return I(7)

    def fresh(self, t, d=2):
        r = self.r
        if t == "[int]":
            if r.random() < 0.25:
                return {"k": "vecn", "t": "int", "a": [I(r.randrange(0, 4))]}
            return {"k": "vecl", "t": "int", "a": [self.int_() for _ in range(r.randrange(0, 4))]}
        if t == "[texto]":
            return {"k": "vecl", "t": "texto", "a": [T(r.choice(["a", "bc", "é", ""])) for _ in range(r.randrange(0, 4))]}
        if t == "[[int]]":
            if r.random() < 0.3:
                return {"k": "vecn", "t": "int", "a": [I(r.randrange(1, 4)), I(r.randrange(0, 4))]}
            return {"k": "vecl", "t": "[int]", "a": [self.ref("[int]", d - 1) for _ in range(r.randrange(0, 3))]}
        if t == "[No]":
            return {"k": "vecl", "t": "No", "a": [self.ref("No", d - 1) for _ in range(r.randrange(0, 3))]}
        if t == "No":
            f = [["a", self.int_()], ["t", T(r.choice(["p", "q"]))], ["l", self.ref("[int]", d - 1)], ["n", self.ref("No?", d - 1)]]
            r.shuffle(f)
            return {"k": "new", "r": "No", "a": f}
        if t == "No?":
            return {"k": "nulo"} if d <= 0 or r.random() < 0.4 else self.ref("No", d - 1)
        if t == "U":
            v = r.choice(["K", "L", "Z"] if d <= 0 else ["K", "L", "P", "P", "Z"])
            a = {"K": ["[int]"], "L": ["No", "int"], "P": ["U", "[[int]]"], "Z": []}[v]
            return {"k": "vari", "u": "U", "v": v, "a": [self.int_() if x == "int" else self.ref(x, d - 1) for x in a]}
        return self.int_()

    def ref(self, t, d=2):
        """an existing object of type t if there is one, or a fresh one"""
        r = self.r
        opts = []
        vs = self.of(t)
        if vs:
            opts += [lambda: V(r.choice(vs))] * 5
        if t == "[int]" and self.of("No"):
            opts += [lambda: get(V(r.choice(self.of("No"))), "l")] * 2
        if t == "No?":
            if self.of("No"):
                opts += [lambda: V(r.choice(self.of("No"))), lambda: get(V(r.choice(self.of("No"))), "n")]
        fs = [f for f in self.funcs if f[2] == t]
        if fs and d > 0:
            opts += [lambda: self.callf(r.choice(fs), d - 1)]
        if not opts or r.random() < 0.3:
            return self.fresh(t, d)
        return r.choice(opts)()

    def callf(self, f, d=1):
        return call(f[0], *[self.int_() if t == "int" else self.ref(t, d) for t in f[1]])

    # -- statements
    def new_var(self, t):
        n = self.name()
        s = decl(n, t, self.ref(t))
        self.vars.append((n, t))
        return [s]

    def within(self, k, v, body, other=None):
        """body only if v has an element k"""
        return [se(bin_(">", tam(v), I(k)), body, other)]

    def op(self, d=2):
        r = self.r
        for _ in range(20):
            t = r.choice(self.TYPES)
            vs = self.of(t)
            if not vs:
                continue
            v = V(r.choice(vs))
            out = self.op_on(t, v, d)
            if out:
                return out
        return [mo(self.int_())]

    def op_on(self, t, v, d):
        r = self.r
        x = r.random()
        if x < 0.13:
            return [set_(v, self.ref(t))]
        if x < 0.2 and d == 2:
            return self.new_var(t)
        if x < 0.27:
            return self.look(t, v)
        if x < 0.34 and d > 0:
            mark = len(self.vars)
            body = []
            for _ in range(r.randrange(1, 4)):
                body += self.op(d - 1) if r.random() < 0.7 else self.new_var(r.choice(self.TYPES))
            del self.vars[mark:]
            return [para(self.name("i"), I(0), I(r.randrange(1, 4)), body)]
        if x < 0.45:
            fs = [f for f in self.funcs]
            if fs:
                f = r.choice(fs)
                return [ex(self.callf(f))]
        if t in ("[int]", "[texto]"):
            el = self.int_ if t == "[int]" else lambda: T(r.choice(["n", "m", "oo"]))
            k, at = self.place(v)
            y = r.random()
            if self.long and y < 0.3:
                return self.burst(v, el)
            if y < 0.35:
                return self.within(k, v, [set_({"k": "idx", "o": v, "i": at}, el(), r.choice(["=", "+=", "-="]) if t == "[int]" else "=", t[1:-1])])
            if y < 0.65:
                return [ex(call("anexa", v, el()))]
            if y < 0.9:
                rem = call("remova", v, at)
                return self.within(k, v, [mo(rem) if r.random() < 0.6 else ex(rem)])
            return [mo(v)]
        if t in ("[[int]]", "[No]"):
            el = t[1:-1]
            k, j = r.randrange(0, 3), r.randrange(0, 3)
            y = r.random()
            if self.long and y < 0.1:
                return self.burst(v, lambda: self.ref(el))
            if y < 0.3:
                return [ex(call("anexa", v, self.ref(el)))]
            if y < 0.5:
                return self.within(k, v, [set_(idx(v, k), self.ref(el), "=", el)])
            if y < 0.6:
                return self.within(k, v, [ex(call("remova", v, I(k)))])
            if t == "[[int]]":
                inner = idx(v, k)
                z = r.random()
                if z < 0.5:
                    return self.within(k, v, self.within(j, inner, [set_(idx(inner, j), self.int_(), r.choice(["=", "+="]), "int")]))
                if z < 0.8:
                    return self.within(k, v, [ex(call("anexa", inner, self.int_()))])
                n = self.name()
                return self.within(k, v, [decl(n, "[int]", inner), ex(call("anexa", V(n), I(99)))])
            inner = idx(v, k)
            if r.random() < 0.5:
                return self.within(k, v, [set_(get(inner, "a"), self.int_(), r.choice(["=", "+="]), "int")])
            return self.within(k, v, [ex(call("anexa", get(inner, "l"), self.int_()))])
        if t == "No":
            y = r.random()
            if y < 0.3:
                return [set_(get(v, "a"), self.int_(), r.choice(["=", "+=", "-="]), "int")]
            if y < 0.4:
                return [set_(get(v, "l"), self.ref("[int]"), "=", "[int]")]
            if y < 0.55:
                return [ex(call("anexa", get(v, "l"), self.int_()))]
            if y < 0.7:
                k = r.randrange(3)
                return self.within(k, get(v, "l"), [set_(idx(get(v, "l"), k), self.int_(), r.choice(["=", "+="]), "int")])
            if y < 0.85:
                return [set_(get(v, "n"), self.ref("No?"), "=", "No?")]
            if y < 0.92:
                return [set_(get(v, "t"), T(r.choice(["z", "w"])), "=", "texto")]
            m = [f for f in self.mets_of()]
            if m:
                return [mo({"k": "meth", "o": v, "ty": "No", "f": r.choice(m), "a": [self.int_()]})]
            return [mo(get(v, "a"))]
        if t == "No?":
            n = self.name("o")
            if r.random() < 0.5 or not self.of("No"):
                mark = len(self.vars)
                # the value inside is the same object
                p = decl(n, "No", {"k": "val", "o": v})
                out = [se(bin_("!=", v, {"k": "nulo"}), [p, set_(get(V(n), "a"), self.int_(), r.choice(["=", "+="]), "int"), mo(get(V(n), "a"))], [mo(T("nada"))])]
                del self.vars[mark:]
                return out
            w = V(r.choice(self.of("No")))
            return [set_(get({"k": "valou", "o": v, "d": w}, "a"), self.int_(), "=", "int")] if r.random() < 0.5 else [mo(get({"k": "valou", "o": v, "d": w}, "a"))]
        if t == "U":
            b1, b2, b3, b4, b5 = (self.name("b") for _ in range(5))
            mark = len(self.vars)
            arms = []
            for v2, ps in (("K", [(b1, "[int]")]), ("L", [(b2, "No"), (b3, "int")]), ("P", [(b4, "U"), (b5, "[[int]]")]), ("Z", [])):
                self.vars += [(n, u) for n, u in ps if u != "int"]
                body = []
                for n, u in ps:
                    if u == "U":
                        continue
                    body += self.op_on(u, V(n), 0) or [] if u != "int" else [mo(V(n))]
                if not body:
                    body = [mo(T(v2))]
                arms.append({"p": {"k": "c", "u": "U", "v": v2, "a": [{"k": "b", "n": n} for n, _ in ps]}, "b": body, "y": None})
                del self.vars[mark:]
            return [{"k": "igs", "e": v, "arms": arms}]
        return None

    def place(self, v):
        """(k, an index there is if v has more than k elements)"""
        r = self.r
        k = r.randrange(0, 4)
        x = r.random()
        if x < 0.6:
            return k, I(k)
        if x < 0.85:
            return k, bin_("-", tam(v), I(k + 1))
        return 0, bin_("//", tam(v), I(2))

    def burst(self, v, el):
        """many elements more, or fewer"""
        r = self.r
        if r.random() < 0.6:
            i = self.name("i")
            e = V(i) if v.get("k") == "var" and self.of("[int]").count(v["n"]) and r.random() < 0.7 else el()
            return [se(bin_("<", tam(v), I(60)), [para(i, I(0), I(r.choice([5, 9, 17, 33, 40])), [ex(call("anexa", v, e))])])]
        _, at = self.place(v)
        m = r.choice([4, 5, 8, 15, 16])
        return [enq(bin_(">", tam(v), I(m)), [ex(call("remova", v, at))])]

    def mets_of(self):
        return [m for m in getattr(self, "mets", [])]

    def look(self, t, v):
        if t in ("[int]", "[texto]", "[[int]]"):
            return [mo(v)]
        if t == "[No]":
            n = self.name("i")
            return [mo(tam(v)), para(n, I(0), tam(v), self.look("No", idx(v, V(n))))]
        if t == "No":
            return [mo({"k": "fstr", "p": [get(v, "a"), " ", get(v, "t"), " ", get(v, "l"), " ", bin_("==", get(v, "n"), {"k": "nulo"})]})] if self.r.random() < 0 else \
                [mo(get(v, "a")), mo(get(v, "l")), mo(bin_("==", get(v, "n"), {"k": "nulo"}))]
        if t == "No?":
            n = self.name("o")
            return [se(bin_("!=", v, {"k": "nulo"}), [decl(n, "No", {"k": "val", "o": v})] + self.look("No", V(n)), [mo({"k": "nulo"})] if False else None)]
        if t == "U":
            b1, b2, b3, b4, b5 = (self.name("b") for _ in range(5))
            return [{"k": "igs", "e": v, "arms": [
                {"p": {"k": "c", "u": "U", "v": "K", "a": [{"k": "b", "n": b1}]}, "b": [mo(V(b1))], "y": None},
                {"p": {"k": "c", "u": "U", "v": "L", "a": [{"k": "b", "n": b2}, {"k": "b", "n": b3}]}, "b": self.look("No", V(b2)) + [mo(V(b3))], "y": None},
                {"p": {"k": "c", "u": "U", "v": "P", "a": [{"k": "b", "n": b4}, {"k": "b", "n": b5}]}, "b": [mo(V(b5))], "y": None},
                {"p": {"k": "c", "u": "U", "v": "Z", "a": []}, "b": [mo(T("Z"))], "y": None}]}]
        return []

    def look_all(self):
        out = []
        for n, t in self.vars:
            out.append(mo(T("-- " + n)))
            out += self.look(t, V(n))
        return out

    def mk_func(self):
        """a function that changes or keeps what it is given, and may give it back"""
        r = self.r
        n = self.name("f")
        ts = [r.choice([t for t in self.TYPES if t != "U"] + ["int"]) for _ in range(r.randrange(1, 4))]
        ps = [[self.name("p"), t] for t in ts]
        outer = self.vars
        self.vars = outer + [(p, t) for p, t in ps if t != "int"]
        body = []
        for _ in range(r.randrange(1, 4)):
            body += self.op(1)
        rt = r.choice([t for t in ts if t != "int"] + ["[int]", "No"])
        body.append(ret(self.ref(rt, 1)))
        self.vars = outer
        self.funcs.append((n, ts, rt))
        return [func(n, ps, rt, body)]

    def mk_met(self):
        n = self.name("m")
        self.mets = getattr(self, "mets", []) + [n]
        a = {"k": "alvo"}
        r = self.r
        body = [set_(get(a, "a"), V("p"), "+=", "int")]
        if r.random() < 0.6:
            body.append(ex(call("anexa", get(a, "l"), get(a, "a"))))
        if r.random() < 0.3:
            body.append(set_(get(a, "n"), a, "=", "No?"))
        body.append(ret(tam(get(a, "l"))))
        return [{"k": "met", "ty": "No", "n": n, "ps": [["p", "int"]], "rt": "int", "b": body}]


# ------------------------------------------------------------------ calls
class Calls:
    """functions with many shapes of frame, called from everywhere"""
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.spell = names.style(rng, True)
        self.fs = []            # (name, [types], rt, cost class)

    def name(self, p):
        self.k += 1
        return self.spell(p, self.k)

    def program(self):
        r = self.r
        items = [decl("g", "int", I(1)), {"k": "uni", "n": "U", "vs": [["A", ["int"]], ["B", ["int", "int"]], ["C", []]]}]
        for _ in range(r.randrange(2, 6)):
            items += r.choice([self.plain, self.plain, self.recur, self.recur, self.helper, self.escape, self.method, self.fresh_blocks])()
        self.loc = []
        for _ in range(r.randrange(3, 9)):
            items += self.stmt(2)
        items.append(mo(V("g")))
        return single(items)

    def deep(self):
        """chains of calls whose depth comes near the limit, reaches it, or goes over it; frames of several sizes"""
        r = self.r
        items, fs = [decl("g", "int", I(0))], []
        for _ in range(r.randrange(1, 4)):
            if fs and r.random() < 0.3:
                h = self.name("h")
                items.append(func(h, [["x", "int"], ["y", "int"]], "int", [ret(bin_("%", bin_("+", V("x"), V("y")), I(1009)))]))
            else:
                h = None
            f = self.name("d")
            ps = [[self.name("p"), "int"] for _ in range(r.choice([0, 1, 2, 5, 12]))]
            loc = ["n"] + [p[0] for p in ps]
            ws = [self.name("w") for _ in range(r.choice([0, 1, 3, 8, 30]))]
            b = [decl(w, "int", bin_("+", V("n"), I(k))) for k, w in enumerate(ws)]
            b.insert(0, se(bin_("<=", V("n"), I(0)), [ret(V(r.choice(loc)))], None))
            again = call(f, bin_("-", V("n"), I(1)), *[self.e2(loc + ws) for _ in ps])
            if h:
                again = call(h, again, self.e2(loc + ws))
            x = r.random()
            v = self.name("v")
            use = bin_("%", bin_("+", V(v), V(r.choice(loc + ws))), I(1009))
            if x < 0.3:
                b += [decl(v, "int", again), ret(use)]
            elif x < 0.5:
                b += [para(self.name("i"), I(0), I(1), [decl(v, "int", again), set_(V("g"), I(1), "+="), ret(use)]), ret(I(0))]
            elif x < 0.7 and fs:
                b += [decl(v, "int", again), se(bin_("==", bin_("%", V("n"), I(100)), I(7)), [set_(V(v), call(*r.choice(fs)), "+=")], None), ret(use)]
            elif x < 0.85:
                q, k = self.name("b"), self.name("b")
                b += [decl(v, "int", {"k": "igi", "e": V("n"), "arms": [{"p": {"k": "i", "v": 3}, "x": bin_("+", I(5), again)}, {"p": {"k": "b", "n": q}, "x": bin_("+", again, V(q))}]}), ret(use)]
            else:
                b += [ret(again)]
            items.append(func(f, [["n", "int"]] + ps, "int", b))
            d = r.choice([1, 5, 300, 900, 990, 996, 997, 998, 999, 1000, 1001, 1200])
            fs.append((f, I(r.choice([1, 5, 20])), *[I(k) for k in range(len(ps))]))
            for _ in range(r.choice([1, 1, 2])):
                items.append(mo(call(f, I(d), *[I(r.randrange(9)) for _ in ps])))
            if r.random() < 0.3:
                items.append(se(bin_("<", V("g"), I(10 ** 6)), [para(self.name("i"), I(0), I(2), [mo(call(f, I(r.choice([d, 10, 995])), *[I(1) for _ in ps]))])], None))
        items.append(mo(V("g")))
        return single(items)

    def atom(self, loc):
        r = self.r
        if loc and r.random() < 0.6:
            return V(r.choice(loc))
        return I(r.randrange(-3, 15))

    def call_(self, loc, d):
        r = self.r
        f = r.choice(self.fs)
        if f[0].startswith("m"):
            return {"k": "meth", "o": self.e(loc, d - 1), "ty": "int", "f": f[0], "a": [self.arg(t, loc, d - 1, f) for t in f[1]]}
        return call(f[0], *[self.arg(t, loc, d - 1, f) for t in f[1]])

    def arg(self, t, loc, d, f):
        if t == "n":
            return I(self.r.choice([0, 1, 2, 3, 4, 5]))
        return self.e(loc, d)

    def e(self, loc, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.2:
            return self.atom(loc)
        if x < 0.55 and self.fs:
            c = self.call_(loc, d)
            if c["k"] == "meth" and c["o"]["k"] == "int":
                c["o"] = bin_("+", c["o"], I(0))
            return c
        if x < 0.62:
            return idx({"k": "vecl", "t": "int", "a": [self.e(loc, d - 1), self.e(loc, d - 1), self.e(loc, d - 1)]}, bin_("%", bin_("*", self.e(loc, d - 1), self.atom(loc)), I(1)) if r.random() < 0.4 else I(r.randrange(3)))
        if x < 0.68:
            n = self.name("b")
            return {"k": "igi", "e": bin_("%", self.e(loc, d - 1), I(3)), "arms": [{"p": {"k": "i", "v": 1}, "x": self.e(loc, d - 1)}, {"p": {"k": "b", "n": n}, "x": self.e(loc + [n], d - 1)}]}
        if x < 0.73:
            return tam({"k": "fstr", "p": [self.atom(loc), "é", self.e([v for v in loc], d - 1)]}) if False else tam({"k": "cast", "e": self.e(loc, d - 1), "t": "texto"})
        m = lambda a: bin_("%", a, I(r.choice([101, 1009])))
        return bin_(r.choice("+-"), m(self.e(loc, d - 1)), m(self.e(loc, d - 1)))

    def cond(self, loc, d=1):
        r = self.r
        c = bin_(r.choice(["<", ">", "<=", "==", "!="]), bin_("%", self.e(loc, d), I(7)), I(r.randrange(-2, 6)))
        return bin_(r.choice(["e", "ou"]), c, bin_("<", self.e(loc, 1), self.atom(loc))) if r.random() < 0.2 else c

    def show(self, loc, tag=None):
        return mo({"k": "fstr", "p": [tag + " ", self.e(loc, 1)]}) if tag else mo(self.e(loc, 1))

    def stmt(self, d, loc=None, infn=False, rd=None):
        r = self.r
        loc = self.loc if loc is None else loc
        x = r.random()
        if x < 0.22:
            n = self.name("v")
            s = decl(n, "int", self.e(loc, 2))
            loc.append(n)
            return [s]
        if x < 0.4:
            return [mo(self.e(loc, 2))]
        if x < 0.55:
            ws = [n for n in loc if n[0] == "v"]
            t = V(r.choice(ws)) if ws and r.random() < 0.7 else V("g")
            return [set_(t, bin_("%", self.e(loc, 2), I(1009)), r.choice(["=", "+=", "-="]))]
        if x < 0.62 and self.fs:
            return [ex(self.call_(loc, 2))]
        if d <= 0:
            return [mo(self.e(loc, 1))]
        if x < 0.75:
            i = self.name("i")
            return [para(i, I(0), I(r.randrange(1, 4)), self.body(d - 1, loc + [i], infn, rd, loop=True))]
        if x < 0.87:
            return [se(self.cond(loc), self.body(d - 1, list(loc), infn, rd), self.body(d - 1, list(loc), infn, rd) if r.random() < 0.5 else None)]
        if x < 0.94:
            a, b, c = self.name("b"), self.name("b"), self.name("b")
            u = r.choice([{"k": "vari", "u": "U", "v": "A", "a": [self.e(loc, 1)]}, {"k": "vari", "u": "U", "v": "B", "a": [self.e(loc, 1), self.e(loc, 1)]}, {"k": "vari", "u": "U", "v": "C", "a": []}])
            arms = [{"p": {"k": "c", "u": "U", "v": "A", "a": [{"k": "b", "n": a}]}, "b": self.body(d - 1, loc + [a], infn, rd), "y": None},
                    {"p": {"k": "c", "u": "U", "v": "B", "a": [{"k": "b", "n": b}, {"k": "b", "n": c}]}, "b": self.body(d - 1, loc + [b, c], infn, rd), "y": None},
                    {"p": {"k": "c", "u": "U", "v": "C", "a": []}, "b": self.body(d - 1, list(loc), infn, rd), "y": None}]
            return [{"k": "igs", "e": u, "arms": arms}]
        return [{"k": "esc", "e": bin_("%", self.e(loc, 1), I(4)), "cs": [{"x": I(k), "b": self.body(d - 1, list(loc), infn, rd)} for k in (0, 1)],
                 "el": self.body(d - 1, list(loc), infn, rd) if r.random() < 0.5 else None}]

    def body(self, d, loc, infn=False, rd=None, loop=False):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            out += self.stmt(d, loc, infn, rd)
        x = r.random()
        if infn and x < 0.2:
            out.append(se(self.cond(loc), [ret(self.e(loc, 1))], None) if r.random() < 0.7 else ret(self.e(loc, 1)))
        elif loop and x < 0.3:
            out.append(se(self.cond(loc), [{"k": r.choice(["quebra", "continua"])}], None))
        return out

    def params(self, lo=0, hi=6):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 5, 8]) if self.r.random() < 0.9 else self.r.randrange(lo, 20)
        return [[self.name("p"), "int"] for _ in range(n)]

    def plain(self):
        n, ps = self.name("f"), self.params()
        loc = [p[0] for p in ps]
        b = [self.show(loc, n)] if self.r.random() < 0.3 else []
        b += self.body(2, loc, True)
        if b[-1]["k"] == "ret":
            b.pop()
        b.append(ret(self.e(loc, 2)))
        self.fs.append((n, ["int"] * len(ps), "int"))
        return [func(n, ps, "int", b)]

    def recur(self):
        """a function that calls itself in the middle of things"""
        r = self.r
        n = self.name("r")
        ps = [["n", "int"]] + self.params()[:3]
        loc = [p[0] for p in ps]
        again = lambda: call(n, bin_("-", V("n"), I(r.choice([1, 1, 2]))), *[bin_("%", self.e2(loc), I(101)) for _ in ps[1:]])
        b = [se(bin_("<=", V("n"), I(0)), [ret(self.e2(loc))], None)]
        save, self.fs = self.fs, [f for f in self.fs if f[1][:1] != ["n"]][:2]
        b += self.body(1, loc, True)
        if b[-1]["k"] == "ret":
            b.pop()
        self.fs = save
        x = r.random()
        once = r.random() < 0.6
        if x < 0.4:
            v = self.name("v")
            b += [decl(v, "int", bin_(r.choice("+-"), self.e2(loc), again()))]
            loc.append(v)
            b += [mo(bin_("+", V(v), V("n")))]
            b.append(ret(bin_("%", bin_("+", V(v), self.e2(loc)), I(1009))))
        elif x < 0.7:
            i = self.name("i")
            b += [para(i, I(0), I(1 if once else 2), [mo(bin_("+", again(), V(i))), se(bin_(">", V("n"), I(3)), [ret(again() if once else V("n"))], None)])]
            b.append(ret(self.e2(loc)))
        else:
            b.append(ret(bin_("%", bin_("-", bin_("+", self.e2(loc), again()), again() if not once else V("n")), I(1009))))
        self.fs.append((n, ["n"] + ["int"] * (len(ps) - 1), "int"))
        return [func(n, ps, "int", b)]

    def e2(self, loc):
        r = self.r
        return r.choice([lambda: V(r.choice(loc)), lambda: I(r.randrange(9)), lambda: bin_(r.choice("+-"), V(r.choice(loc)), I(r.randrange(5)))])()

    def helper(self):
        """recursion through the arguments of another function, frames of different sizes alternating"""
        r = self.r
        h, f = self.name("h"), self.name("r")
        w = [self.name("v") for _ in range(r.randrange(1, 12))]
        fh = func(h, [["x", "int"], ["y", "int"]], "int", [decl(v, "int", bin_("+", V("x"), I(k))) for k, v in enumerate(w)] + [
            ret(bin_("%", bin_("-", bin_("+", V(w[0]), V(w[-1])), V("y")), I(1009)))])
        c = lambda k: call(f, bin_("-", V("n"), I(k)), bin_("%", bin_("+", V("x"), V("n")), I(11)))
        ff = func(f, [["n", "int"], ["x", "int"]], "int", [
            se(bin_("<=", V("n"), I(0)), [ret(call(h, V("x"), V("n")))], None), decl("l", "int", bin_("*", V("x"), I(2))),
            decl("t", "int", call(h, c(1), r.choice([V("l"), c(2)]))), mo(bin_("+", bin_("+", V("l"), V("t")), V("x"))),
            ret(bin_("%", bin_("+", V("t"), V("l")), I(1009)))])
        self.fs += [(h, ["int", "int"], "int"), (f, ["n", "int"], "int")]
        return [fh, ff]

    def escape(self):
        """returns out of the middle of nested blocks"""
        r = self.r
        n = self.name("f")
        ps = [["p", "int"], ["q", "int"]]
        c, i, j, b = self.name("c"), self.name("i"), self.name("j"), self.name("b")
        inner = [decl("w", "int", bin_("+", V(i), V("q"))),
                 se(bin_("==", bin_("%", bin_("+", V("w"), V("p")), I(r.randrange(2, 6))), I(0)), [ret(bin_("+", bin_("*", V(i), I(10)), V("w")))], None), set_(V("q"), V("w"))]
        layer = inner
        for _ in range(r.randrange(0, 3)):
            x = r.random()
            if x < 0.35:
                j = self.name("j")
                layer = [para(j, I(0), I(2), [decl(self.name("w"), "int", V(j))] + layer)]
            elif x < 0.7:
                b = self.name("b")
                layer = [{"k": "igs", "e": bin_("%", V("q"), I(3)), "arms": [{"p": {"k": "i", "v": 1}, "b": list(layer), "y": None}, {"p": {"k": "b", "n": b}, "b": [mo(V(b))], "y": None}]}]
            else:
                layer = [{"k": "esc", "e": bin_("%", V("q"), I(2)), "cs": [{"x": I(0), "b": layer}], "el": [mo(V("q"))]}]
        body = [para(i, I(0), I(r.randrange(2, 5)), layer), ret(I(-1))]
        self.fs.append((n, ["int", "int"], "int"))
        return [func(n, ps, "int", body)]

    def method(self):
        n = self.name("m")
        ps = self.params()[:3]
        loc = [p[0] for p in ps]
        a = {"k": "alvo"}
        b = self.body(1, loc, True)
        if b[-1]["k"] == "ret":
            b.pop()
        b.append(ret(bin_("%", bin_("+", a, self.e(loc, 1)), I(1009))))
        self.fs.append((n, ["int"] * len(ps), "int"))
        return [{"k": "met", "ty": "int", "n": n, "ps": ps, "rt": "int", "b": b}]

    def fresh_blocks(self):
        """variables without a value, declared again and again"""
        r = self.r
        n = self.name("f")
        i, a, b = self.name("i"), self.name("a"), self.name("a")
        t = r.choice(["int", "texto", "real", "bool"])
        grow = {"int": lambda v: set_(V(v), I(3), "+="), "texto": lambda v: set_(V(v), bin_("+", V(v), T("x"))) if False else set_(V(v), T("x" * r.randrange(1, 4))),
                "real": lambda v: set_(V(v), {"k": "real", "s": "1.5"}, "+="), "bool": lambda v: set_(V(v), {"k": "un", "op": "nao", "e": V(v)})}[t]
        body = [para(i, I(0), I(3), [decl(a, t), grow(a), mo(V(a)), se(bin_(">", V(i), I(0)), [decl(b, t), mo(V(b)), grow(b), mo(V(b))], [decl(b, t), grow(b), mo(V(b))])]),
                decl(self.name("z"), t), ret(V("p"))]
        body.insert(-1, mo(V(body[-2]["n"])))
        self.fs.append((n, ["int"], "int"))
        return [func(n, [["p", "int"]], "int", body)]

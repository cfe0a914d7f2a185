"""Programs whose expressions change the state they read: every function and method changes
global variables, vectors, records and options while the operands, arguments, elements, parts,
targets and bounds around the call are being evaluated.  What such an expression gives depends on the
order of evaluation, on what is read when, and on what is shared."""
import names
from gen import B, I, T, V, bin_, call, decl, enq, ex, func, has_text, mo, para, ret, se, set_, single

KINDS = ["int", "real", "bool", "texto", "[int]", "R", "int?", "U"]
LIT = ["a", "b", "cd", "é", "x y", "0", "12", ""]


class Effects:
    def __init__(self, rng, deep=False):
        self.r = rng
        self.n = 0
        self.fs = []            # (name, params, result)
        self.ms = []            # methods of R: (name, params, result)
        self.spell = names.style(rng)
        self.quiet = rng.random() < 0.3
        r = rng
        self.g = {t: [self.name("g") for _ in range(r.randrange(1, 3))] for t in KINDS}
        self.R = self.name("R")
        self.U = self.name("U")
        self.f = {t: self.name("c") for t in ["int", "real", "texto", "[int]", "int?"]}
        self.v = {n: self.name("W") for n in "ABC"}
        self.loc = []

    def name(self, p):
        self.n += 1
        return self.spell(p, self.n)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def ty(self, t):
        return {"R": self.R, "U": self.U}.get(t, t)

    def small(self, e):
        return bin_("%", e, I(self.pick([7, 13, 97])))

    # ---- expressions
    def places(self, t):
        """what holds a value of type t and can be assigned to"""
        out = [V(n) for n in self.g[t]] + [V(n) for n, lt in self.loc if lt == t]
        if t in self.f:
            out += [{"k": "get", "o": o, "n": self.f[t]} for o in self.recs()]
        if t == "int":
            out += [{"k": "idx", "o": v, "i": self.index()} for v in self.vecs()]
        return out

    def recs(self):
        return [V(n) for n in self.g["R"]] + [V(n) for n, t in self.loc if t == "R"]

    def vecs(self):
        return [V(n) for n in self.g["[int]"]] + [V(n) for n, t in self.loc if t == "[int]"] + [{"k": "get", "o": o, "n": self.f["[int]"]} for o in self.recs()]

    def index(self, d=0):
        # vectors always have two elements
        if d > 0 and self.r.random() < 0.6:
            e = self.e("int", d - 1)
            return bin_("*", bin_("%", e, I(2)), bin_("%", e, I(2))) if e["k"] == "var" else I(self.r.randrange(2))
        if d > 0:
            return self.calls("int", d, unit=True) or I(self.r.randrange(2))
        return I(self.r.randrange(2))

    def lit(self, t):
        r = self.r
        if t == "int":
            return I(r.randrange(-5, 20))
        if t == "real":
            return {"k": "real", "s": self.pick(["0.5", "1.0", "2.25", "10.0"])}
        if t == "bool":
            return B(r.random() < 0.5)
        if t == "texto":
            return T(self.pick(LIT))
        if t == "[int]":
            return {"k": "vecl", "t": "int", "a": [I(r.randrange(9)) for _ in range(r.randrange(2, 5))]}
        if t == "int?":
            return {"k": "nulo"} if r.random() < 0.4 else I(r.randrange(9))
        raise ValueError(t)

    def arg(self, t, d):
        if t == "real" and self.r.random() < 0.3:
            return self.e("int", d)
        if t == "int?" and self.r.random() < 0.4:
            return self.e("int", d)
        return self.e(t, d)

    def calls(self, t, d, unit=False):
        fs = [f for f in self.fs if f[2] == t and len(f) > 3 and f[3]] if unit else [f for f in self.fs if f[2] == t]
        ms = [] if unit else [m for m in self.ms if m[2] == t]
        if ms and self.r.random() < 0.3:
            m = self.pick(ms)
            o = self.calls("R", d - 1) if d > 1 and self.r.random() < 0.4 else None
            return {"k": "meth", "o": o or self.pick(self.recs()), "ty": self.R, "f": m[0], "a": [self.arg(p, d - 1) for p in m[1]]}
        if fs:
            f = self.pick(fs)
            return call(f[0], *[self.arg(p, d - 1) for p in f[1]])
        return None

    def new(self, d):
        a = [[n, self.arg(t, d)] for t, n in self.f.items()]
        self.r.shuffle(a)
        return {"k": "new", "r": self.R, "a": a}

    def e(self, t, d):
        r = self.r
        x = r.random()
        if d <= 0:
            if t == "R":
                return self.pick(self.recs())
            if t == "U":
                return V(self.pick(self.g["U"]))
            return self.pick(self.places(t)) if x < 0.75 else self.lit(t)
        if x < 0.4:
            c = self.calls(t, d)
            if c:
                return c
        if x < 0.5:
            return self.e(t, 0)
        y = r.random()
        d -= 1
        if t == "int":
            if y < 0.5:
                return bin_(self.pick("+-"), self.e("int", d), self.e("int", d))
            if y < 0.6:
                return call("tam", self.e(self.pick(["[int]", "texto"]), d))
            if y < 0.72:
                return {"k": "idx", "o": self.e("[int]", d), "i": self.index(d)}
            if y < 0.8:
                return {"k": "valou", "o": self.calls("int?", d) if r.random() < 0.4 and d > 0 and any(f[2] == "int?" for f in self.fs) else self.pick(self.places("int?")), "d": self.e("int", d), "t": "int"}
            if y < 0.88:
                return {"k": "get", "o": self.e("R", d), "n": self.f["int"]}
            return {"k": "cast", "e": bin_("%", self.e("real", d), I(100)), "t": "int"}
        if t == "real":
            return bin_(self.pick("+-"), self.e("real", d), self.arg("real", d)) if y < 0.8 else {"k": "cast", "e": self.e("int", d), "t": "real"}
        if t == "bool":
            if y < 0.3:
                return bin_(self.pick(["<", ">", "<=", ">=", "==", "!="]), self.e("int", d), self.e("int", d))
            if y < 0.5:
                return bin_(self.pick(["==", "!="]), self.e("texto", d), self.e("texto", d))
            if y < 0.75:
                return bin_(self.pick(["e", "ou"]), self.e("bool", d), self.e("bool", d))
            if y < 0.85:
                return {"k": "un", "op": "nao", "e": self.e("bool", d)}
            return bin_(self.pick(["==", "!="]), self.e("R", d), self.e("R", d))
        if t == "texto":
            if y < 0.7:
                ps = []
                for _ in range(r.randrange(1, 4)):
                    e = self.e(self.pick(["int", "int", "bool", "texto", "real"]), d)
                    ps += [self.pick(["<", "|", " "])] if r.random() < 0.5 and not (ps and isinstance(ps[-1], str)) else []
                    ps.append(V(self.pick(self.g["int"])) if has_text(e) else e)
                return {"k": "fstr", "p": ps}
            return {"k": "cast", "e": self.e(self.pick(["int", "bool", "real"]), d), "t": "texto"}
        if t == "[int]":
            return {"k": "vecl", "t": "int", "a": [self.e("int", d) for _ in range(r.randrange(2, 4))]} if y < 0.7 else self.e(t, 0)
        if t == "R":
            return self.new(0) if y < 0.3 else self.e(t, 0)
        if t == "U":
            return self.uni(d)
        return self.e(t, 0)

    def uni(self, d):
        n = self.pick("ABC")
        return {"k": "vari", "u": self.U, "v": self.v[n], "a": [self.e(t, d) for t in {"A": [], "B": ["int"], "C": ["texto", "[int]"]}[n]]}

    # ---- statements
    def change(self):
        """a change of the state"""
        r = self.r
        x = r.random()
        if x < 0.3:
            p = self.pick(self.places("int"))
            return [set_(p, self.small(self.pick(self.places("int"))) if r.random() < 0.3 else I(r.randrange(30)), "=", "int")] if r.random() < 0.5 else [set_(p, I(1), self.pick(["+=", "-="]), "int")]
        if x < 0.4:
            v = self.pick(self.vecs())
            c = call("anexa", v, I(r.randrange(50)))
            c["et"] = "int"
            return [se(bin_("<", call("tam", v), I(6)), [ex(c)], [ex(call("remova", v, I(0)))])]
        if x < 0.47:
            v = self.pick(self.vecs())
            return [se(bin_(">", call("tam", v), I(2)), [ex(call("remova", v, self.pick([I(0), I(1), bin_("-", call("tam", v), I(1))])))])]
        if x < 0.57:
            t = "[int]"
            return [set_(self.pick(self.places(t)), self.lit(t) if r.random() < 0.6 else self.pick(self.places(t)), "=", t)]
        if x < 0.67:
            return [set_(V(self.pick(self.g["R"])), self.new(0) if r.random() < 0.6 else self.pick(self.recs()))]
        if x < 0.77:
            return [set_(self.pick(self.places("texto")), self.lit("texto"), "=", "texto")]
        if x < 0.85:
            return [set_(self.pick(self.places("int?")), self.lit("int?"), "=", "int?")]
        if x < 0.9:
            return [set_(V(self.pick(self.g["U"])), self.uni(0))]
        if x < 0.95:
            p = V(self.pick(self.g["bool"]))
            return [set_(p, {"k": "un", "op": "nao", "e": p})]
        return [set_(self.pick(self.places("real")), self.lit("real"), self.pick(["=", "=", "+="]), "real")]

    def match(self, d, inner):
        r = self.r
        b = self.name("b")
        arms = [{"p": {"k": "c", "u": self.U, "v": self.v["A"], "a": []}, "b": inner()},
                {"p": {"k": "c", "u": self.U, "v": self.v["B"], "a": [{"k": "b", "n": b}]}, "b": inner() + [mo(V(b))]}]
        b1, b2 = self.name("b"), self.name("b")
        arms.append({"p": {"k": "c", "u": self.U, "v": self.v["C"], "a": [{"k": "b", "n": b1}, {"k": "b", "n": b2}]}, "b": inner() + [mo(V(b1)), mo(V(b2))]})
        return arms

    def st(self, d, infn=None):
        r = self.r
        x = r.random()
        if x < 0.2:
            return [mo(self.e(self.pick(["int", "int", "real", "bool", "texto", "[int]"]), 3))]
        if x < 0.3:
            t = self.pick(["int", "texto", "bool", "[int]"])
            to = self.pick(self.places(t))
            if to["k"] == "idx":
                to = dict(to, i=self.index(2))
            s = set_(to, self.small(self.e("int", 2)) if t == "int" else self.short(t, 2), "=", t)
            if r.random() < 0.25 and t != "[int]":
                to2 = self.pick(self.places(t))
                s["e"] = set_(to2, s["e"], "=", t)
            return [s, mo(self.pick(self.places(t)))]
        if x < 0.38:
            to = self.pick([V(n) for n in self.g["int"]] + [{"k": "idx", "o": V(n), "i": I(r.randrange(2))} for n in self.g["[int]"]])
            return [set_(to, self.small(self.e("int", 2)), self.pick(["+=", "-="]), "int"), set_(to, self.small(to), "=", "int"), mo(to)]
        if x < 0.46:
            t = self.pick(["int", "texto", "[int]", "bool", "R"])
            n = self.name("l")
            out = [decl(n, self.ty(t), self.small(self.e("int", 2)) if t == "int" else self.short(t, 2))]
            if infn is not None or d < 2:
                self.loc.append((n, t))
            return out
        if x < 0.54:
            return self.change()
        if x < 0.6:
            c = self.calls(self.pick(["int", "bool", "R", "texto"]), 2)
            return [ex(c)] if c else []
        if x < 0.65:
            return [mo({"k": "get", "o": self.e("R", 2), "n": self.f[self.pick(["int", "texto", "[int]"])]})]
        if x < 0.7:
            return [mo({"k": "idx", "o": self.e("[int]", 2), "i": self.index(2)})]
        if d <= 0:
            return [mo(self.e("int", 1))]
        if x < 0.76:
            return [se(self.e("bool", 2), self.blk(d), self.blk(d) if r.random() < 0.6 else None, [{"c": self.e("bool", 2), "b": self.blk(d)}] if r.random() < 0.4 else [])]
        if x < 0.82:
            cs = [{"x": self.small(self.e("int", 1)) if r.random() < 0.5 else I(k), "b": self.blk(d)} for k in range(r.randrange(1, 4))]
            return [{"k": "esc", "e": bin_("%", self.e("int", 2), I(4)), "cs": cs, "el": self.blk(d) if r.random() < 0.6 else None}]
        if x < 0.9:
            tgt = V(self.pick(self.g["U"])) if r.random() < 0.6 else self.e("U", 2)
            return [{"k": "igs", "e": tgt, "arms": self.match(d, lambda: self.blk(d))}]
        if x < 0.95:
            i = self.name("i")
            return [para(i, I(0), bin_("%", self.e("int", 1), I(4)), [mo(V(i))] + self.blk(d))]
        c = self.name("k")
        return [decl(c, "int", I(0)), enq(bin_("e", bin_("<", V(c), I(3)), self.e("bool", 2)), [set_(V(c), I(1), "+=")] + self.blk(d))]

    def short(self, t, d):
        """texts kept in variables do not grow"""
        e = self.e(t, d)
        if t == "texto" and e["k"] not in ("txt",):
            i = {"k": "cast", "e": self.small(self.e("int", d - 1)), "t": "texto"}
            return self.pick([i, T(self.pick(LIT))])
        return e

    def blk(self, d):
        n = len(self.loc)
        out = []
        for _ in range(self.r.randrange(1, 3)):
            out += self.st(d - 1, True)
        del self.loc[n:]
        return out or [mo(I(0))]

    def fn(self, k):
        r = self.r
        t = self.pick(["int", "int", "int", "bool", "texto", "real", "[int]", "R", "int?", "U"]) if k >= 3 else ["int", "texto", "bool"][k]
        unit = k == 0
        ps = [self.pick(["int", "int", "texto", "[int]", "R"]) for _ in range(r.randrange(0, 3))]
        if unit:
            ps = []
        pn = [self.name("p") for _ in ps]
        self.loc = list(zip(pn, ps))
        n = self.name("f")
        b = [] if self.quiet else [ex(call("escreva", T(self.pick("abcdefgh") + " ")))]
        for _ in range(r.randrange(1, 4)):
            b += self.change()
        if r.random() < 0.4 and k > 2:
            b += self.st(1, True)
        if r.random() < 0.4:
            b += self.change()
        if unit:
            gi = V(self.g["int"][0])
            b += [set_(gi, I(1), "+=")]
            b += [se(bin_("==", bin_("%", gi, I(2)), I(0)), [ret(I(0))]), ret(I(1))]
        else:
            res = self.e(t, 2 if k > 2 else 0)
            b.append(ret(self.small(res) if t == "int" else res))
        rt = self.ty(t)
        if not unit and r.random() < 0.25:
            self.ms.append((n, ps, t))
            item = {"k": "met", "ty": self.R, "n": n, "ps": [[a, self.ty(p)] for a, p in zip(pn, ps)], "rt": rt,
                    "b": [set_({"k": "get", "o": {"k": "alvo"}, "n": self.f["int"]}, I(1), "+=", "int")] + b}
        else:
            self.fs.append((n, ps, t, unit))
            item = func(n, [[a, self.ty(p)] for a, p in zip(pn, ps)], rt, b)
        self.loc = []
        return item

    def program(self):
        r = self.r
        items = [{"k": "reg", "n": self.R, "fs": [[n, t] for t, n in self.f.items()]},
                 {"k": "uni", "n": self.U, "vs": [[self.v["A"], []], [self.v["B"], ["int"]], [self.v["C"], ["texto", "[int]"]]]}]
        for t in KINDS:
            for n in self.g[t]:
                if t == "R":
                    e = {"k": "new", "r": self.R, "a": [[f, self.lit(ft)] for ft, f in self.f.items()]}
                elif t == "U":
                    e = {"k": "vari", "u": self.U, "v": self.v["B"], "a": [I(r.randrange(9))]}
                else:
                    e = self.lit(t)
                items.append(decl(n, self.ty(t), e))
        for k in range(r.randrange(4, 9)):
            items.append(self.fn(k))
        hist = []
        for _ in range(r.randrange(4, 12)):
            hist += self.st(2)
        if r.random() < 0.3:
            self.loc = []
            items.append(func("principal", [], None, hist))
            hist = [ex(call("principal"))] * r.choice([1, 2])
        items += hist
        for t in ("int", "real", "bool", "texto", "[int]"):
            items += [mo(V(n)) for n in self.g[t]]
        for o in [V(n) for n in self.g["R"]]:
            items += [mo({"k": "get", "o": o, "n": self.f[t]}) for t in ("int", "[int]", "texto")]
        return single(items)


def program(rng):
    return Effects(rng).program()

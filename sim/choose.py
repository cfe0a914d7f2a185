"""Selection: pattern matches, choices and conditional matches over histories of values.

Also the reference for when a match is exhaustive and which arms can ever be selected."""
import names
from gen import B, I, T, V, bin_, call, decl, ex, func, mo, para, ret, se, set_, single

TEXTS = ["", "a", "ab", "é", "sim", "x y"]


# ------------------------------------------------------------------ reference: usefulness of a pattern
def sig(unions, ty):
    """the constructors of a type, or None if there are too many to list"""
    return unions.get(ty)


def head(p):
    if p["k"] in ("w", "b"):
        return None
    return (p["v"], len(p["a"])) if p["k"] == "c" else (p["v"], 0)


def useful(unions, rows, q, tys):
    """is there a value matched by the pattern row q and by none of rows?  (Maranget's algorithm)"""
    if not tys:
        return not rows
    ty, rest = tys[0], tys[1:]
    h = head(q[0])
    if h is not None:
        sub = dict(unions[ty])[h[0]] if q[0]["k"] == "c" else []
        return useful(unions, special(rows, h[0], len(sub)), (q[0]["a"] if q[0]["k"] == "c" else []) + q[1:], sub + rest)
    cons = sig(unions, ty)
    used = {head(r[0])[0] for r in rows if head(r[0]) is not None}
    if cons and all(v in used for v, _ in cons):
        return any(useful(unions, special(rows, v, len(ts)), [W] * len(ts) + q[1:], ts + rest) for v, ts in cons)
    return useful(unions, [r[1:] for r in rows if head(r[0]) is None], q[1:], rest)


W = {"k": "w"}


def special(rows, v, n):
    out = []
    for r in rows:
        h = head(r[0])
        if h is None:
            out.append([W] * n + r[1:])
        elif h[0] == v:
            out.append((r[0]["a"] if r[0]["k"] == "c" else []) + r[1:])
    return out


def exhaustive(unions, pats, ty):
    return not useful(unions, [[p] for p in pats], [W], [ty])


def reachable_arms(unions, pats, ty):
    return [useful(unions, [[p] for p in pats[:k]], [p], [ty]) for k, p in enumerate(pats)]


# ------------------------------------------------------------------ generation
class Choose:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.spell = names.style(rng, True)
        self.unions = {}
        self.made = []          # every match of the program: (union types, patterns, type)

    def name(self, p="b"):
        self.k += 1
        return self.spell(p, self.k)

    # ---- types
    def types(self):
        r = self.r
        items = []
        us = ["Ua", "Ub", "Uc"][:r.choice([1, 2, 2, 3])]
        for n, u in enumerate(us):
            vs = []
            for k in range(r.choice([1, 2, 2, 3, 3, 4, 6])):
                ts = []
                for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3])):
                    x = r.random()
                    if x < 0.35 and n:
                        ts.append(r.choice(us[:n]))
                    elif x < 0.5:
                        ts.append(u)
                    else:
                        ts.append(r.choice(["int", "int", "texto", "bool", "real", "[int]"]))
                vs.append([chr(65 + k) + ("x" if r.random() < 0.3 else ""), ts])
            if all(u in ts for _, ts in vs):
                vs[r.randrange(len(vs))][1] = []
            r.shuffle(vs)
            self.unions[u] = vs
            items.append({"k": "uni", "n": u, "vs": vs})
        return items

    # ---- patterns
    def pat(self, ty, d, st, wide=0.3):
        """st: names bound by this pattern, whether _ is used"""
        r = self.r
        if ty in self.unions and d > 0 and r.random() > wide:
            v, ts = r.choice(self.unions[ty])
            return {"k": "c", "u": ty, "v": v, "a": [self.pat(t, d - 1, st, wide) for t in ts]}
        if ty == "int" and r.random() > wide + 0.15:
            return {"k": "i", "v": r.choice([0, 1, 2, 3, 7, 10, 2 ** 40])}
        if ty == "texto" and r.random() > wide + 0.15:
            return {"k": "s", "v": r.choice(TEXTS)}
        return self.any_(ty, st)

    def any_(self, ty, st):
        r = self.r
        if not st.get("_") and r.random() < 0.3:
            st["_"] = True
            return {"k": "w"}
        n = r.choice(["x", "y", "z", "w", "p", "q"]) if r.random() < 0.5 else self.name()
        while n in st:
            n = self.name()
        st[n] = ty
        return {"k": "b", "n": n}

    def split(self, ty, depth):
        """patterns that together cover ty, by splitting one pattern again and again; no bindings yet"""
        r = self.r
        pats = [dict(W)]
        for _ in range(r.randrange(0, 5)):
            i = r.randrange(len(pats))
            out = self.split1(pats[i], ty, depth)
            if out and len(pats) + len(out) <= 14:
                pats[i:i + 1] = out
        return pats

    def split1(self, p, ty, d):
        r = self.r
        if p["k"] == "w":
            if ty in self.unions:
                return d > 0 and [{"k": "c", "u": ty, "v": v, "a": [dict(W) for _ in ts]} for v, ts in self.unions[ty]]
            if ty == "int":
                return [{"k": "i", "v": r.choice([0, 1, 2, 3, 7])}, dict(W)]
            if ty == "texto":
                return [{"k": "s", "v": r.choice(TEXTS)}, dict(W)]
            return None
        if p["k"] == "c" and p["a"]:
            ts = dict(self.unions[ty])[p["v"]]
            j = r.randrange(len(ts))
            sub = self.split1(p["a"][j], ts[j], d - 1)
            return sub and [dict(p, a=p["a"][:j] + [s] + p["a"][j + 1:]) for s in sub]
        return None

    def named(self, p, ty, st):
        if p["k"] in ("w", "b"):
            return self.any_(ty, st)
        if p["k"] == "c":
            return dict(p, a=[self.named(q, t, st) for q, t in zip(p["a"], dict(self.unions[ty])[p["v"]])])
        return dict(p)

    def patterns(self, ty, depth=3):
        """[(pattern, names bound)] of a match over ty, mostly exhaustive"""
        r = self.r
        out = []
        x = r.random()
        if x < 0.55:
            base = self.split(ty, depth)
            if r.random() < 0.5:
                r.shuffle(base)
            out = [(p, None) for p in base]
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                st = {}
                out.insert(r.randrange(len(out) + 1), (self.pat(ty, depth, st), st))
        else:
            for _ in range(r.choice([1, 2, 3, 4, 6])):
                st = {}
                out.append((self.pat(ty, depth, st, r.choice([0.1, 0.3, 0.5])), st))
        res = []
        for p, st in out:
            if st is None:
                st = {}
                p = self.named(p, ty, st)
            res.append((p, st))
        return res

    def complete(self, pats, ty):
        """add arms until the match is exhaustive"""
        r = self.r
        out = list(pats)
        while not exhaustive(self.unions, [p for p, _ in out], ty):
            st = {}
            if r.random() < 0.4 and ty in self.unions:
                v, ts = r.choice(self.unions[ty])
                out.append(({"k": "c", "u": ty, "v": v, "a": [self.any_(t, st) for t in ts]}, st))
            elif len(out) > len(pats) and r.random() < 0.3 and len(out) < 16:
                out.append((self.pat(ty, 3, st), st))
            else:
                out.append((self.any_(ty, st), st))
        self.made.append((out, ty))
        return out

    # ---- values
    def value(self, ty, d=3, like=None):
        """an expression of type ty; like: a pattern it should (mostly) match"""
        r = self.r
        if like is not None and like["k"] not in ("w", "b") and r.random() < 0.85:
            if like["k"] == "i":
                return I(like["v"])
            if like["k"] == "s":
                return T(like["v"])
            return {"k": "vari", "u": ty, "v": like["v"], "a": [self.value(t, d - 1, q) for t, q in zip(dict(self.unions[ty])[like["v"]], like["a"])]}
        if ty in self.unions:
            vs = [(v, ts) for v, ts in self.unions[ty] if d > 0 or ty not in ts] or self.unions[ty]
            v, ts = r.choice(vs)
            if d < -2:
                v, ts = min(self.unions[ty], key=lambda x: len(x[1]))
            return {"k": "vari", "u": ty, "v": v, "a": [self.value(t, d - 1) for t in ts]}
        if ty == "int":
            return I(r.choice([0, 1, 2, 3, 4, 7, 10, -1, 2 ** 40]))
        if ty == "texto":
            return T(r.choice(TEXTS + ["z"]))
        if ty == "bool":
            return B(r.random() < 0.5)
        if ty == "real":
            return {"k": "real", "s": r.choice(["0.5", "2.0", "3.25"])}
        return {"k": "vecl", "t": "int", "a": [I(r.randrange(5)) for _ in range(r.randrange(3))]}

    # ---- code
    def shower(self, u):
        """a function that writes a value of the union"""
        arms = []
        for v, ts in self.unions[u]:
            ns = [self.name("s") for _ in ts]
            b = [ex(call("escreva", T(v + "(")))]
            for n, t in zip(ns, ts):
                b += [ex(call("m" + t, V(n))) if t in self.unions else ex(call("escreva", V(n))), ex(call("escreva", T(" ")))]
            b.append(ex(call("escreva", T(")"))))
            arms.append({"p": {"k": "c", "u": u, "v": v, "a": [{"k": "b", "n": n} for n in ns]}, "b": b, "y": None})
        return func("m" + u, [["v", u]], None, [{"k": "igs", "e": V("v"), "arms": arms}])

    def show(self, n, t):
        return [ex(call("m" + t, V(n)))] if t in self.unions else [ex(call("escreva", V(n))), ex(call("escreva", T(";")))]

    def ints(self, st):
        return [n for n, t in st.items() if t == "int"]

    def expr(self, st, d=1):
        """an int expression over the names bound"""
        r = self.r
        ns = self.ints(st)
        x = r.random()
        if ns and x < 0.5:
            return bin_("%", V(r.choice(ns)), I(97))
        if x < 0.6 and d > 0:
            us = [(n, t) for n, t in st.items() if t in self.unions or t in ("texto", "int")]
            if us:
                n, t = r.choice(us)
                return self.inline(V(n), t, st, d - 1)
        if x < 0.75:
            return call("conta", I(r.randrange(1, 9)))
        if x < 0.85 and d > 0:
            return bin_(r.choice("+-*"), self.expr(st, d - 1), self.expr(st, d - 1))
        return I(r.randrange(50))

    def inline(self, e, ty, outer, d):
        arms = []
        for p, st in self.complete(self.patterns(ty, 2), ty):
            arms.append({"p": p, "x": self.expr({**outer, **st}, d)})
        return {"k": "igi", "e": e, "arms": arms}

    def arms(self, pats, outer, d, value=None):
        """statement arms; value: a function giving the value of an arm"""
        r = self.r
        out = []
        for k, (p, st) in enumerate(pats):
            sc = {**outer, **{n: t for n, t in st.items() if n != "_"}}
            if value and r.random() < 0.5:
                out.append({"p": p, "x": value(sc)})
                continue
            if not value and r.random() < 0.15:
                out.append({"p": p, "x": call("escreva", T("=%d " % k))})
                continue
            b = [ex(call("escreva", T("#%d " % k)))]
            for n, t in st.items():
                if n != "_":
                    b += self.show(n, t)
            x = r.random()
            if x < 0.2 and d > 0:
                us = [(n, t) for n, t in sc.items() if t in self.unions or t in ("texto", "int")]
                if us:
                    n, t = r.choice(us)
                    b.append(self.match(V(n), t, sc, d - 1))
            elif x < 0.3 and self.ints(st):
                b += [set_(V(r.choice(self.ints(st))), I(5), "+="), mo(V(self.ints(st)[0]))]
            elif x < 0.4 and outer.get("v") in self.unions:
                b += [set_(V("v"), self.value(outer["v"], 1))] if "v" not in st else []
                for n, t in st.items():
                    if n != "_":
                        b += self.show(n, t)
            elif x < 0.48 and not value and outer.get("#ret"):
                b.append(ret(self.expr(sc)))
            out.append({"p": p, "b": b, "y": value(sc) if value else None})
        return out

    def match(self, e, ty, outer, d):
        r = self.r
        if r.random() < 0.25:
            st = {}
            p = self.pat(ty, 3, st, 0.2)
            if p["k"] != "b" and p["k"] != "w":
                b = [ex(call("escreva", T("se ")))]
                for n, t in st.items():
                    if n != "_":
                        b += self.show(n, t)
                if d > 0 and r.random() < 0.4 and [n for n, t in st.items() if t in self.unions]:
                    n, t = r.choice([x for x in st.items() if x[1] in self.unions])
                    b.append(self.match(V(n), t, {**outer, **st}, d - 1))
                return {"k": "seig", "e": e, "p": p, "b": b, "el": [ex(call("escreva", T("outro ")))] if r.random() < 0.6 else None}
        if ty in ("int", "texto") and r.random() < 0.35:
            return self.choice_(e, ty, outer, d)
        return {"k": "igs", "e": e, "arms": self.arms(self.complete(self.patterns(ty), ty), outer, d)}

    def choice_(self, e, ty, outer, d):
        r = self.r
        cs = []
        for k in range(r.randrange(0, 6)):
            v = self.value(ty)
            if ty == "int" and r.random() < 0.35:
                v = r.choice([call("conta", v), bin_("+", v, I(0)), self.expr(outer, 0)])
            b = [ex(call("escreva", T("caso%d " % k)))]
            if d > 0 and r.random() < 0.2:
                b.append(self.choice_(V("v") if outer.get("v") == ty else self.value(ty), ty, outer, d - 1))
            if r.random() < 0.15 and outer.get("#ret"):
                b.append(ret(self.expr(outer, 0)))
            cs.append({"x": v, "b": b})
        if outer.get("v") == ty and cs and r.random() < 0.2:
            cs[0]["b"].append(set_(V("v"), cs[-1]["x"]))
        return {"k": "esc", "e": e, "cs": cs, "el": [ex(call("escreva", T("nenhum ")))] if r.random() < 0.6 else None}

    def classifier(self, ty):
        """a function from a value of ty to an int that selects in some way"""
        r = self.r
        n = self.name("f")
        st = {"v": ty}
        x = r.random()
        sc = V("v") if r.random() < 0.6 else call("mesmo" + tag(ty), V("v"))
        if x < 0.35:
            b = [self.match(sc, ty, {**st, "#ret": 1}, 2), ex(call("escrevaln", T(""))), ret(I(r.randrange(100)))]
        elif x < 0.6:
            e = {"k": "ig", "e": sc, "arms": self.arms(self.complete(self.patterns(ty), ty), st, 1, lambda sc: self.expr(sc))}
            b = r.choice([lambda: [decl("res", "int", e), ret(V("res"))], lambda: [ret(e)], lambda: [decl("res", "int", I(1)), set_(V("res"), e, r.choice(["+=", "-=", "="])), ret(V("res"))]])()
        elif x < 0.8:
            b = [ret(self.spot(self.inline(sc, ty, st, 1), st))]
        elif x < 0.9 and ty in ("int", "texto"):
            b = [self.choice_(sc, ty, {**st, "#ret": 1}, 2), ret(I(-1))]
        else:
            i = "i1"
            b = [decl("soma", "int", I(0)), para(i, I(0), I(r.randrange(2, 4)), [
                {"k": "igs", "e": sc, "arms": [dict(a, b=a.get("b", [])) if "x" not in a else a for a in self.arms(self.complete(self.patterns(ty), ty), {**st, i: "int"}, 1)]},
                set_(V("soma"), self.inline(V("v"), ty, {**st, i: "int"}, 0), "+=")]), ret(V("soma"))]
        return n, func(n, [["v", ty]], "int", b)

    def spot(self, e, st):
        """an int expression that has e somewhere in the middle of a computation"""
        r = self.r
        c = lambda k: call("conta", I(k))
        return r.choice([
            lambda: e,
            lambda: bin_("-", c(1), e),
            lambda: bin_("+", bin_("*", e, I(2)), c(2)),
            lambda: call("soma3", c(1), e, c(2)),
            lambda: {"k": "idx", "o": {"k": "vecl", "t": "int", "a": [c(3), e, c(4)]}, "i": I(1)},
            lambda: call("tam", {"k": "fstr", "p": ["<", c(1), e, ">"]}) if no_text(e) else e,
            lambda: {"k": "igi", "e": e, "arms": [{"p": {"k": "i", "v": 1}, "x": c(5)}, {"p": {"k": "b", "n": self.name()}, "x": c(6)}]},
            lambda: {"k": "un", "op": "-", "e": e},
            lambda: call("tam", {"k": "cast", "e": e, "t": "texto"}),
            lambda: {"k": "get", "o": {"k": "new", "r": "Par", "a": [["a", c(1)], ["b", e]]}, "n": r.choice("ab")},
        ])()

    def program(self):
        r = self.r
        items = [decl("cont", "int", I(0))] + self.types()
        items += [func("conta", [["k", "int"]], "int", [set_(V("cont"), I(1), "+="), ex(call("escreva", {"k": "fstr", "p": ["[", V("k"), "]"]})), ret(bin_("+", V("k"), I(100)))]),
                  func("soma3", [["a", "int"], ["b", "int"], ["c", "int"]], "int", [ret(bin_("-", bin_("+", V("a"), bin_("*", V("b"), I(3))), V("c")))]),
                  {"k": "reg", "n": "Par", "fs": [["a", "int"], ["b", "int"]]}]
        tys = list(self.unions) + ["int", "texto"]
        for u in self.unions:
            items.append(self.shower(u))
        for t in tys:
            items.append(func("mesmo" + tag(t), [["o", t]], t, [set_(V("cont"), I(1), "+="), ex(call("escreva", T("!"))), ret(V("o"))]))
        calls = []
        for _ in range(r.randrange(1, 4)):
            t = r.choice(tys[:-2] * 3 + tys)
            n, f = self.classifier(t)
            items.append(f)
            seen = [p for ps, ty in self.made if ty == t for p, _ in ps]
            vals = [self.value(t, 3, r.choice(seen) if seen and r.random() < 0.8 else None) for _ in range(r.randrange(4, 12))]
            if r.random() < 0.5:
                q = self.name("lista")
                items += [decl(q, "[%s]" % t, {"k": "vecl", "t": t, "a": vals}), para(self.name("i"), I(0), call("tam", V(q)), [])]
                items[-1]["b"] = [mo(call(n, {"k": "idx", "o": V(q), "i": V(items[-1]["v"])}))]
            else:
                calls += [mo(call(n, v)) for v in vals]
        # straight at the top level too
        if r.random() < 0.5:
            t = r.choice(tys)
            q = self.name("g")
            items += [decl(q, t, self.value(t)), self.match(V(q), t, {}, 1)]
        items += calls
        items.append(mo(V("cont")))
        return single(items)


def tag(t):
    return {"int": "I", "texto": "T"}.get(t, t)


def no_text(x):
    if isinstance(x, dict):
        return x.get("k") not in ("s", "txt") and all(no_text(v) for v in x.values())
    if isinstance(x, list):
        return all(no_text(v) for v in x)
    return True

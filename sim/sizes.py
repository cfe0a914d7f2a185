"""Programs that are extreme in one or a few sizes: what is handed to the runtime must arrive whole."""
from gen import B, I, T, V, bin_, call, decl, enq, ex, func, mo, para, ret, se, set_, single

# sizes of things held in one byte and in two
SMALL = [1, 2, 100, 126, 127, 128, 129, 200, 250, 254, 255, 256, 257, 300]
MIDDLE = [255, 256, 257, 300, 511, 512, 1000, 1023, 1025, 3000]
LARGE = [4096, 8200, 16390, 32767, 32769, 40000]
HUGE = [65000, 65530, 65536, 65600]


def idx(o, i):
    return {"k": "idx", "o": o, "i": i if isinstance(i, dict) else I(i)}


class Sizes:
    KINDS = ["consts", "texts", "globals", "locals", "funcs", "params", "fields", "variant", "variants", "vector", "fstr", "jump", "jump", "lines", "lines", "cases", "arms", "names",
             "long text", "mods", "blocks", "stmts", "records", "reals", "nest", "methods", "args", "mixed"]

    def __init__(self, rng, tier="quick"):
        self.r = rng
        self.over = False       # may be refused as too big
        self.big = tier

    def size(self, small=False):
        r = self.r
        x = r.random()
        if small:
            n = r.choice(SMALL)
            return n if r.random() < 0.5 else max(1, n + r.randrange(-3, 4))
        n = r.choice(MIDDLE) if x < 0.8 else r.choice(LARGE) if x < 0.985 else r.choice(HUGE)
        if r.random() < 0.5:
            n += r.randrange(-4, 5)
        return n

    def some(self, n, k=12):
        """a few indices below n, the ends included"""
        r = self.r
        c = {0, n - 1, n // 2, 255, 256, 257, 65535, 65536} | {r.randrange(n) for _ in range(k)}
        return sorted(x for x in c if 0 <= x < n)

    def program(self):
        kind = self.r.choice(self.KINDS)
        self.mods = None
        items = getattr(self, "k_" + kind.replace(" ", "_"))()
        # what comes after the large part must be right too
        items += [func("depois", [["a", "int"]], "int", [decl("l", "int", bin_("*", V("a"), I(3))), ret(bin_("-", V("l"), I(1)))]), mo(call("depois", I(14))), mo(T("fim"))]
        p = single(items)
        if self.mods:
            p["mods"].update(self.mods[0])
            p["mods"]["main"]["imports"] = self.mods[1]
        return kind, p

    def k_consts(self):
        n = self.size()
        self.over = n > 65000
        step = self.r.choice([1, 3, 2 ** 40, -(2 ** 33) - 7])
        out = []
        for k in range(0, n, 200):
            out.append(decl("v%d" % k, "[int]", {"k": "vecl", "t": "int", "a": [I(abs(j * step)) for j in range(k, min(n, k + 200))]}))
        return out + [mo(idx(V("v%d" % (j // 200 * 200)), j % 200)) for j in self.some(n)]

    def k_reals(self):
        n = min(self.size(), 40000)
        out = []
        for k in range(0, n, 250):
            out.append(decl("v%d" % k, "[real]", {"k": "vecl", "t": "real", "a": [{"k": "real", "s": "%d.%d" % (j, j % 7 * 125)} for j in range(k, min(n, k + 250))]}))
        return out + [mo(idx(V("v%d" % (j // 250 * 250)), j % 250)) for j in self.some(n)]

    def k_texts(self):
        r = self.r
        n = self.size()
        self.over = n > 65000
        f = r.choice([lambda j: "t%d" % j, lambda j: "%d" % j, lambda j: "é%dção" % j, lambda j: "%d.5" % j, lambda j: "x" * (j % 600) + str(j), lambda j: ["verdadeiro", "nulo", "falso", "'", '"', ""][j % 6] + str(j // 6 or "")])
        out = []
        for k in range(0, n, 200):
            out.append(decl("v%d" % k, "[texto]", {"k": "vecl", "t": "texto", "a": [T(f(j)) for j in range(k, min(n, k + 200))]}))
        return out + [mo(idx(V("v%d" % (j // 200 * 200)), j % 200)) for j in self.some(n)]

    def k_globals(self):
        n = min(self.size(), 40000 if self.r.random() < 0.97 else 70000)
        self.over = n > 65000
        out = [decl("g%d" % j, "int", I(j % 300)) for j in range(n)]
        s = self.some(n)
        out += [set_(V("g%d" % j), I(1000), "+=") for j in s[::2]]
        out += [func("le", [], "int", [set_(V("g%d" % s[0]), I(1), "+="), ret(bin_("-", V("g%d" % s[-1]), V("g%d" % s[0])))])]
        return out + [mo(V("g%d" % j)) for j in s] + [mo(call("le")), mo(call("le"))]

    def k_names(self):
        n = self.size()
        self.over = n > 60000
        w = self.r.choice([40, 256, 1000, 70000 if n < 600 else 40])
        pre = self.r.choice(["n", "ção", "é_", "N"]) + "x" * (w if n * w < 8000000 else 10)
        out = [decl("%s%d" % (pre, j), "int", I(j % 300)) for j in range(min(n, 2000 if w > 100 else n))]
        n = len(out)
        s = self.some(n)
        return out + [set_(V("%s%d" % (pre, s[-1])), I(1000), "+=")] + [mo(V("%s%d" % (pre, j))) for j in s]

    def k_locals(self):
        r = self.r
        n = self.size()
        self.over = n > 65000
        b = [decl("l%d" % j, r.choice(["int", "int", "int"]), bin_("+", V("p"), I(j % 300)) if j % 5 == 0 else I(j % 1000)) for j in range(n)]
        s = self.some(n)
        b += [set_(V("l%d" % j), I(7), "+=") for j in s[::3]] + [mo(V("l%d" % j)) for j in s]
        b += [decl("q", "int", call("h", V("l%d" % s[-1]), V("l0"))), mo(V("q")), mo(V("l%d" % s[-1])), ret(bin_("+", V("l%d" % s[0]), V("l%d" % s[-1])))]
        return [func("h", [["a", "int"], ["b", "int"]], "int", [decl("c", "int", bin_("-", V("a"), V("b"))), ret(V("c"))]), func("f", [["p", "int"]], "int", b), mo(call("f", I(1))), mo(call("f", I(5)))]

    def k_blocks(self):
        """as many locals, but at the top level and in blocks"""
        n = min(self.size(), 20000)
        b = [decl("l%d" % j, "int", I(j % 300)) for j in range(n)]
        s = self.some(n)
        return [para("i", I(0), I(2), b + [set_(V("l%d" % s[-1]), V("i"), "+=")] + [mo(V("l%d" % j)) for j in s]),
                se(B(True), [decl("m%d" % j, "int", I(j)) for j in range(min(n, 700))] + [mo(V("m0"))])]

    def k_funcs(self):
        n = min(self.size(), 20000)
        out = []
        for j in range(n):
            out.append(func("f%d" % j, [["a", "int"]], "int", [ret(bin_("+", V("a"), I(j)))] if j % 3 or not j else [ret(call("f%d" % (j // 2), bin_("+", V("a"), I(1))))]))
        return out + [mo(call("f%d" % j, I(5))) for j in self.some(n)]

    def k_methods(self):
        n = min(self.size(), 8000)
        out = [{"k": "reg", "n": "R", "fs": [["a", "int"]]}]
        for j in range(n):
            out.append({"k": "met", "ty": "R" if j % 2 else "int", "n": "m%d" % j, "ps": [["x", "int"]], "rt": "int", "b": [ret(bin_("+", V("x"), I(j)))]})
        out += [decl("r", "R", {"k": "new", "r": "R", "a": [["a", I(1)]]}), decl("k", "int", I(3))]
        return out + [mo({"k": "meth", "o": V("r") if j % 2 else V("k"), "ty": "R" if j % 2 else "int", "f": "m%d" % j, "a": [I(5)]}) for j in self.some(n)]

    def k_params(self):
        n = self.size(True)
        self.over = n > 250
        ps = [["p%d" % j, "int"] for j in range(n)]
        s = self.some(n)
        out = [func("f", ps, "int", [mo(V("p%d" % j)) for j in s] + [decl("l", "int", V("p%d" % s[-1])), set_(V("p0"), I(1), "+="), ret(bin_("+", V("l"), V("p0")))])]
        out.append({"k": "met", "ty": "int", "n": "m", "ps": ps[:-1], "rt": "int", "b": [mo({"k": "alvo"})] + [mo(V("p%d" % j)) for j in s[:-1]] + [ret(I(3))]})
        return out + [mo(call("f", *[I(j * 3) for j in range(n)])), mo({"k": "meth", "o": V("z"), "ty": "int", "f": "m", "a": [I(j * 2) for j in range(n - 1)]})] if False else \
            [decl("z", "int", I(77))] + out + [mo(call("f", *[I(j * 3) for j in range(n)])), mo({"k": "meth", "o": V("z"), "ty": "int", "f": "m", "a": [I(j * 2) for j in range(n - 1)]})]

    def k_args(self):
        """deep nests of calls with many arguments"""
        n = self.r.choice([3, 10, 40])
        out = [func("f", [["p%d" % j, "int"] for j in range(n)], "int", [ret(bin_("-", V("p%d" % (n - 1)), V("p0")))])]
        e = I(5)
        for d in range(self.r.choice([2, 5, 12])):
            a = [I(d * 10 + j) for j in range(n)]
            a[self.r.choice([0, n - 1, n // 2])] = e
            e = call("f", *a)
        return out + [mo(e)]

    def k_fields(self):
        n = self.size(True)
        self.over = n > 250
        out = [{"k": "reg", "n": "R", "fs": [["c%d" % j, ["int", "texto", "int?"][j % 3]] for j in range(n)]}]
        order = list(range(n))
        if self.r.random() < 0.5:
            self.r.shuffle(order)
        out.append(decl("r", "R", {"k": "new", "r": "R", "a": [["c%d" % j, [I(j), T("t%d" % j), I(j) if j % 2 else {"k": "nulo"}][j % 3]] for j in order]}))
        s = self.some(n)
        out += [set_({"k": "get", "o": V("r"), "n": "c%d" % j}, I(9), "+=", "int") for j in s if j % 3 == 0]
        return out + [mo({"k": "get", "o": V("r"), "n": "c%d" % j} if j % 3 < 2 else bin_("==", {"k": "get", "o": V("r"), "n": "c%d" % j}, {"k": "nulo"})) for j in s]

    def k_records(self):
        n = min(self.size(), 4000)
        out = [{"k": "reg", "n": "R%d" % j, "fs": [["c%d" % (j % 5), "int"], ["d", "texto"]]} for j in range(n)]
        s = self.some(n)
        for j in s:
            out += [decl("r%d" % j, "R%d" % j, {"k": "new", "r": "R%d" % j, "a": [["d", T("x%d" % j)], ["c%d" % (j % 5), I(j)]]})]
        return out + [mo({"k": "get", "o": V("r%d" % j), "n": f}) for j in s for f in ("c%d" % (j % 5), "d")]

    def k_variant(self):
        """one variant of many arguments"""
        n = self.size(True)
        self.over = n > 250
        s = self.some(n)
        return [{"k": "uni", "n": "U", "vs": [["A", ["int"] * n], ["B", []]]},
                decl("u", "U", {"k": "vari", "u": "U", "v": "A", "a": [I(j * 7) for j in range(n)]}),
                {"k": "igs", "e": V("u"), "arms": [{"p": {"k": "c", "u": "U", "v": "A", "a": [{"k": "b", "n": "b%d" % j} for j in range(n)]}, "b": [mo(V("b%d" % j)) for j in s], "y": None},
                                                   {"p": {"k": "c", "u": "U", "v": "B", "a": []}, "b": [mo(T("B"))], "y": None}]}]

    def k_variants(self):
        """a union of many variants"""
        n = min(self.size(), 1200)
        vs = [["V%d" % j, ["int"] if j % 2 else []] for j in range(n)]
        mk = lambda j: {"k": "vari", "u": "U", "v": "V%d" % j, "a": [I(j)] if j % 2 else []}
        pat = lambda j: {"k": "c", "u": "U", "v": "V%d" % j, "a": [{"k": "b", "n": "b"}] if j % 2 else []}
        s = self.some(n)
        own = list(range(n)) if n < 320 and self.r.random() < 0.5 else s
        arms = [{"p": pat(j), "x": bin_("+", V("b"), I(1000)) if j % 2 else I(j)} for j in own]
        if len(own) < n:
            arms.append({"p": {"k": "w"}, "x": I(-1)})
        self.r.shuffle(own)
        return [{"k": "uni", "n": "U", "vs": vs}, func("f", [["u", "U"]], "int", [ret({"k": "ig", "e": V("u"), "arms": arms})])] + [mo(call("f", mk(j))) for j in s]

    def k_arms(self):
        n = min(self.size(), 120)
        ty = self.r.choice(["int", "texto"])
        arms = [{"p": {"k": "i", "v": j * 3} if ty == "int" else {"k": "s", "v": "t%d" % j}, "x": I(j)} for j in range(n)] + [{"p": {"k": "w"}, "x": I(-1)}]
        return [func("f", [["u", ty]], "int", [ret({"k": "ig", "e": V("u"), "arms": arms})])] + [mo(call("f", I(j * 3) if ty == "int" else T("t%d" % j))) for j in self.some(n)] + [mo(call("f", I(2) if ty == "int" else T("z")))]

    def k_cases(self):
        n = min(self.size(), 5000)
        return [func("f", [["u", "int"]], "int", [{"k": "esc", "e": V("u"), "cs": [{"x": I(j), "b": [ret(I(j * 2 + 1))]} for j in range(n)], "el": [ret(I(-1))]}, ret(I(-2))])] + \
            [mo(call("f", I(j))) for j in self.some(n)] + [mo(call("f", I(n)))]

    def k_vector(self):
        n = self.size()
        self.over = n > 65000
        r = self.r
        t = r.choice(["int", "texto", "bool"])
        f = {"int": lambda j: I(j % 7), "texto": lambda j: T("ab"[j % 2]), "bool": lambda j: B(j % 3 == 0)}[t]
        return [decl("v", "[%s]" % t, {"k": "vecl", "t": t, "a": [f(j) for j in range(n)]}), mo(call("tam", V("v")))] + [mo(idx(V("v"), j)) for j in self.some(n)]

    def k_fstr(self):
        n = min(self.size(), 3000)
        parts = []
        for j in range(n):
            parts += ["a%d " % j, V("x") if j % 2 else I(j)]
        return [decl("x", "int", I(8)), decl("s", "texto", {"k": "fstr", "p": parts}), mo(call("tam", V("s"))), mo(V("s"))]

    def k_jump(self):
        """jumps over long stretches of code"""
        r = self.r
        n = self.size()
        body = lambda k: [set_(V("s"), bin_("%", bin_("+", V("s"), I(j % 9)), I(1000)), "=") for j in range(k)]
        x = r.random()
        head = [decl("s", "int", I(0))]
        if x < 0.25:
            return head + [se(bin_("<", V("s"), I(0)), body(n), body(n // 2) if r.random() < 0.5 else None), mo(V("s"))]
        if x < 0.5:
            b = body(n)
            b.insert(r.randrange(len(b)), se(bin_("==", V("i"), I(1)), [{"k": r.choice(["quebra", "continua"])}]))
            return head + [para("i", I(0), I(3), b + [mo(V("s"))]), mo(V("s"))]
        if x < 0.75:
            return head + [decl("i", "int", I(0)), enq(bin_("<", V("i"), I(3)), [set_(V("i"), I(1), "+=")] + body(n)), mo(V("s"))]
        b = body(n)
        b.insert(r.randrange(len(b)), se(bin_("==", V("a"), I(1)), [ret(V("s"))]))
        return head + [func("f", [["a", "int"]], "int", b + [ret(I(-1))]), mo(call("f", I(1))), mo(call("f", I(0))), mo(V("s"))]

    def k_stmts(self):
        n = self.size()
        return [decl("s", "int", I(0))] + [set_(V("s"), I(j % 5), "+=") for j in range(n)] + [mo(V("s"))]

    def k_lines(self):
        """errors far down: the line table must arrive whole"""
        r = self.r
        n = self.size()
        bad = r.choice([lambda: mo(bin_("/", I(1), V("z"))), lambda: mo(idx(V("v"), V("z"))), lambda: set_(V("z"), bin_("%", I(4), V("z")), "=")])
        fill = lambda k: [dict(set_(V("s"), I(j % 5), "+="), bl=r.choice([0, 0, 1, 3]) if r.random() < 0.05 else 0) for j in range(k)]
        head = [decl("s", "int", I(0)), decl("z", "int", I(0)), decl("v", "[int]", {"k": "vecl", "t": "int", "a": []})]
        a = r.randrange(n)
        if r.random() < 0.3:
            head[-1]["bl"] = r.choice([300, 65000, 70000])
        f = func("f", [["a", "int"]], "int", fill(a % 2000) + [bad()] + fill(5) + [ret(I(1))])
        if r.random() < 0.5:
            return head + fill(a) + [f] + fill(n - a) + [mo(call("f", I(1)))] + fill(3)
        return head + fill(a) + [mo(V("s")), bad()] + fill(n - a)

    def k_long_text(self):
        r = self.r
        n = r.choice([255, 256, 65535, 65536, 100000, 1000000])
        c = r.choice(["a", "é", "日", "𝛀", "'", "1"])
        t = c * (n // len(c.encode()))
        return [decl("t", "texto", T(t)), mo(V("t")), mo(call("tam", V("t"))), mo({"k": "fstr", "p": [t[:70000], call("tam", V("t"))]})]

    def k_nest(self):
        n = self.r.choice([2, 5, 10, 20, 40])
        kind = self.r.choice(["se", "para", "expr", "esc", "paren"])
        if kind == "expr":
            e = I(1)
            for j in range(n * 2):
                e = bin_("+-"[j % 2], e, I(j)) if j % 3 else bin_("-", I(j), e)
            return [mo(e)]
        if kind == "paren":
            e = I(1)
            for j in range(n):
                e = {"k": "un", "op": "-", "e": e}
            return [mo(e)]
        b = [mo(V("x"))]
        for j in range(n):
            d = decl("d%d" % j, "int", I(j))
            u = set_(V("x"), V("d%d" % j), "+=")
            if kind == "se":
                b = [se(bin_(">=", V("x"), I(0)), [d, u] + b + [mo(V("d%d" % j))])]
            elif kind == "para":
                b = [para("i%d" % j, I(0), I(1), [d, u] + b + [mo(V("i%d" % j))])]
            else:
                b = [{"k": "esc", "e": I(j), "cs": [{"x": I(j), "b": [d, u] + b + [mo(V("d%d" % j))]}], "el": None}]
        return [decl("x", "int", I(1))] + b

    def k_mods(self):
        n = self.r.choice([2, 10, 60, 120, 130, 254, 257, 300])
        mods, imps = {}, []
        form = self.r.choice(["global", "alias"])
        for j in range(n):
            m = "m%d" % j
            mods[m] = {"path": m + ".ama", "imports": [], "items": [decl("g%d" % j, "int", I(j)), func("f%d" % j, [["a", "int"]], "int", [set_(V("g%d" % j), I(1), "+="), ret(bin_("+", V("a"), V("g%d" % j)))])]}
            imps.append({"mod": m, "form": form, "as": m + ".ama", "alias": "q%d" % j})
        self.mods = (mods, imps)
        s = self.some(n)
        return [mo(call("f%d" % j, I(100), ) | {"m": "m%d" % j}) for j in s + s[:3]]

    def k_mixed(self):
        out = []
        for _ in range(self.r.randrange(2, 4)):
            k = self.r.choice(["stmts", "fstr", "arms", "nest"])
            out.append(se(B(True), getattr(self, "k_" + k)()) if k != "arms" else se(B(True), [mo(T("x"))]))
        return out

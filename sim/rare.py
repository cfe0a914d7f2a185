"""Programs of rarer features the reference model leaves out (mathematics, indef,
texts of many code points per character, extreme reals, spellings), as text.  They are for the
properties that compare runs with each other."""

REALS = ["0.0", "-0.0", "0.5", "1.5", "2.5", "-2.5", "0.1", "1.0", "-1.0", "3.0", "10.0", "100.0", "1000000.0", "123456.789", "9007199254740993.0",
         "9223372036854775807.0", "-9223372036854775808.0", "18446744073709551616.0", "0.00001", "0.000000000000001", "1.7976931348623157", "4.9", "2.2250738585072014",
         "1" + "0" * 22 + ".0", "1" + "0" * 300 + ".0", "0." + "0" * 320 + "1", "0." + "0" * 306 + "22250738585072014", "179769313486231570" + "0" * 291 + ".0"]
INTS = ["0", "1", "-1", "2", "3", "7", "-7", "10", "0", "1", "2", "3", "4", "5", "6", "12", "40", "99", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993",
        "9223372036854775807", "-9223372036854775807"]
TEXTS = ["", "a", "olá", "e\u0301a", "👩‍👩‍👧x", "日本", "🇵🇹🇧🇷", "\u200d", "न\u093f", "ﬁ", "İi", "ß", "\u0301", "a\tb", "abc def", "\\n", "\\t", "x\\\\y", "{{", "ção", "\ufeff",
         "\u2028", "\r", "'", "z" * 60, "\u202e", "𝒳", "\u0000".replace("\0", "nul")]
F1 = ["abs", "raizqd", "arredonda", "piso", "teto", "sen", "cos", "tan", "grausprad", "radpgraus"]
F2 = ["expoente", "log"]


class Rare:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.reals, self.ints, self.texts, self.vecs, self.indefs = [], [], [], [], []
        self.pre = ""

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def quote(self, t):
        q = "'" if '"' in t or (self.r.random() < 0.3 and "'" not in t) else '"'
        return q + t + q

    def real(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3:
            return r.choice(self.reals) if self.reals and r.random() < 0.5 else r.choice(REALS) if r.random() < 0.8 else "%r" % round(r.uniform(-1e6, 1e6), r.randrange(1, 9))
        if x < 0.5:
            return "%s%s(%s)" % (self.pre, r.choice(["abs", "raizqd", "sen", "cos", "tan", "grausprad", "radpgraus"]), self.real(d - 1))
        if x < 0.6:
            return "%s%s(%s, %s)" % (self.pre, r.choice(F2), self.real(d - 1), self.real(d - 1))
        if x < 0.9:
            return "(%s %s %s)" % (self.real(d - 1), r.choice(["+", "-", "*", "/", "%", "*", "/"]), self.real(d - 1) if r.random() < 0.8 else self.int(d - 1))
        if x < 0.95:
            return "(%s :> real)" % self.int(d - 1)
        return self.pre + "PI"

    def int(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.35:
            return r.choice(self.ints) if self.ints and r.random() < 0.5 else r.choice(INTS)
        if x < 0.5:
            return "%s%s(%s)" % (self.pre, r.choice(["arredonda", "piso", "teto"]), self.real(d - 1))
        if x < 0.6:
            return "tam(%s)" % (self.text(d - 1) if r.random() < 0.7 or not self.vecs else r.choice(self.vecs))
        if x < 0.9:
            return "(%s %s %s)" % (self.int(d - 1), r.choice(["+", "-", "*", "//", "%", "-"]), self.int(d - 1))
        return "(%s :> int)" % self.real(d - 1)

    def text(self, d=1):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.55:
            return r.choice(self.texts) if self.texts and r.random() < 0.5 else self.quote(r.choice(TEXTS))
        if x < 0.7:
            return "(%s)[%s]" % (self.text(d - 1), r.choice(["0"] * 9 + ["1", "2", "5", "-1"]))
        if x < 0.85 and self.texts:
            return 'f"%s{%s}%s{%s}"' % (r.choice(["", "a", "çé"]), r.choice(self.texts), r.choice(["", " ", "👩‍👩‍👧"]), r.choice(self.ints or ["1"]))
        return "(%s :> texto)" % r.choice([self.real, self.int])(d - 1) if r.random() < 0.03 else self.quote(r.choice(TEXTS))

    def expr(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return self.real()
        if x < 0.6:
            return self.int()
        if x < 0.8:
            return self.text()
        if x < 0.88:
            return "(%s %s %s)" % (self.real(), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.real())
        if x < 0.94:
            return "(%s %s %s)" % (self.text(), r.choice(["==", "!="]), self.text())
        return "txt_contem(%s, %s)" % (self.text(), self.text())

    def stmt(self, ind, d=2):
        r = self.r
        p = "    " * ind
        x = r.random()
        if x < 0.4:
            return [p + r.choice(["mostra %s", "escrevaln(%s)", "mostra [%s]"])
                    .replace("[%s]", r.choice(["%s", "%s"])) % self.expr()]
        if x < 0.5:
            n, e = self.name("r"), self.real()
            if ind == 0:
                self.reals.append(n)
            return [p + "%s: real = %s" % (n, e)]
        if x < 0.57:
            n, e = self.name("i"), self.int()
            if ind == 0:
                self.ints.append(n)
            return [p + "%s: int = %s" % (n, e)]
        if x < 0.65:
            n, e = self.name("t"), self.text()
            if ind == 0:
                self.texts.append(n)
            return [p + "%s: texto = %s" % (n, e)]
        if x < 0.7:
            n, e = self.name("u"), self.expr()
            out = [p + "%s: indef = %s" % (n, e)]
            for _ in range(r.randrange(3)):
                out.append(p + r.choice(["mostra %s", "mostra %s :> int", "mostra %s :> real", "mostra %s :> texto", "mostra %s :> bool", "%s = 1"]) % n)
            return out
        if x < 0.75:
            n = self.name("v")
            t = r.choice(["int", "real", "texto"])
            es = ", ".join({"int": self.int, "real": self.real, "texto": self.text}[t]() for _ in range(r.randrange(1, 4)))
            if ind == 0:
                self.vecs.append(n)
            return [p + "%s: [%s] = [%s: %s]" % (n, t, t, es), p + "mostra %s" % n]
        if x < 0.82 and self.vecs:
            v = r.choice(self.vecs)
            return [p + r.choice(["mostra %s[0]", "mostra remova(%s, 0)", "mostra tam(%s)", "mostra %s[9]", "mostra %s"]) % v]
        if x < 0.87 and d:
            n = self.name("k")
            out = [p + "para %s de %s..%s faca" % (n, r.choice(["0", "1", "3"]), r.choice(["3", "5", "0"]))]
            for _ in range(r.randrange(1, 3)):
                out += self.stmt(ind + 1, d - 1)
            return out + [p + "fim"]
        if x < 0.92 and d:
            out = [p + "se %s %s %s entao" % (self.real(1), r.choice(["<", ">", "=="]), self.real(1))]
            out += self.stmt(ind + 1, d - 1)
            if r.random() < 0.5:
                out += [p + "senao"] + self.stmt(ind + 1, d - 1)
            return out + [p + "fim"]
        if x < 0.95:
            n = self.name("t")
            self.texts += [n] if ind == 0 else []
            return [p + '%s: texto = leia("%s")' % (n, r.choice(["? ", "nome: ", "é> ", ""]))]
        if x < 0.97:
            n = self.name("r")
            self.reals += [n] if ind == 0 else []
            return [p + '%s: real = leia_real("r ")' % n]
        a, b = self.name("m"), self.name("m")
        if ind == 0:
            self.ints += [a, b]
        return [p + "%s, %s: int; %s = %s; %s += 2; %s *= 3" % (a, b, a, self.int(), b, a)]


def text(rng):
    g = Rare(rng)
    form = rng.randrange(3)
    if form == 0:
        head = ['usa "mat"']
    elif form == 1:
        head, g.pre = ['usa "mat" => mm'], "mm."
    else:
        head = ['usa "mat" => [PI, %s]' % ", ".join(F1 + F2)]
    body = []
    for _ in range(rng.randrange(3, 14)):
        if rng.random() < 0.12:
            n = g.name("f")
            t = rng.choice(["real", "int"])
            save = g.reals, g.ints, g.texts
            g.reals, g.ints = g.reals + ["a"], g.ints + ["b"]
            body += ["func %s(a: real, b: int): %s" % (n, t)] + g.stmt(1) + ["    retorna %s" % (g.real() if t == "real" else g.int()), "fim"]
            g.reals, g.ints, g.texts = save
            body += ["mostra %s(%s, %s)" % (n, g.real(), g.int())]
        else:
            body += g.stmt(0)
    inp = "".join(rng.choice(["1", "2.5", "abc", "e\u0301", "1e3", "-0", "inf", "NaN", " 1", "9" * 20, ""]) + "\n" for _ in range(rng.choice([0, 3, 9])))
    src = "\n".join(head + body) + "\n"
    if rng.random() < 0.2:
        return {"main.ama": 'usa "q/um"\nmostra "depois"\n', "q/um.ama": src}, inp.encode()
    return {"main.ama": src}, inp.encode()

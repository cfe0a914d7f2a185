"""Programs that repeat something any number of times and keep a bounded amount of it, and programs that
release long chains of objects; as text, @N@ standing for the number of repetitions."""

HEAD = '''registo Par
    a: int
    t: texto
    v: [int]
fim
registo No
    val: int
    prox: No?
    rot: texto
fim
uniao Arv
    Folha,
    Valor(int, texto),
    Ramo(Arv, Arv)
fim
g: int = 0
gt: texto = "abc"
gv: [int] = [int: 1, 2, 3]
gm: [[int]] = vec(int, 3, 3)
gp: Par = Par(a: 1, t: "x", v: [int: 1])
go: Par? = nulo
gu: Arv = Arv::Folha
gi: indef = 1
gn: No = No(val: 1, prox: nulo, rot: "")
func soma(a: int, b: int): int
    c: int = a + b
    retorna c % 1009
fim
func texto_de(n: int): texto
    t: texto = f"numero {n} de muitos"
    retorna t
fim
func novo(n: int): Par
    retorna Par(a: n, t: f"par {n}", v: [int: n, n + 1, n + 2])
fim
func fila(n: int): [[texto]]
    x: [[texto]] = vec(texto, 2, 3)
    x[0][1] = texto_de(n)
    retorna x
fim
func talvez(n: int): Par?
    se n % 3 == 0 entao
        retorna nulo
    fim
    retorna novo(n)
fim
func arvore(n: int): Arv
    se n <= 0 entao
        retorna Arv::Folha
    fim
    se n % 2 == 0 entao
        retorna Arv::Valor(n, f"v{n}")
    fim
    retorna Arv::Ramo(arvore(n - 1), arvore(n - 2))
fim
func tamanho(x: Arv): int
    retorna iguala x
        Arv::Folha => 0,
        Arv::Valor(n, _) => n,
        Arv::Ramo(l, d) => tamanho(l) + tamanho(d)
    fim
fim
func cadeia(n: int): No?
    c: No? = nulo
    para i de 0..n faca
        c = No(val: i, prox: c, rot: f"no {i}")
    fim
    retorna c
fim
func procura(n: int): int
    para i de 0..5 faca
        para j de 0..5 faca
            l: [int] = [int: i, j]
            se i * j == n % 7 entao
                retorna l[0] + l[1]
            fim
        fim
    fim
    retorna 0 - 1
fim
func sai(n: int): texto
    enquanto verdadeiro faca
        iguala arvore(n % 4)
            Arv::Folha => faca
                retorna "folha"
            fim,
            Arv::Valor(k, s) => faca
                para i de 0..k faca
                    se i == 1 entao
                        retorna f"{s}{i}"
                    fim
                fim
            fim,
            outro => escreva("")
        fim
        escolha n % 3:
            caso 0:
                retorna "zero"
            caso 1:
                se iguala arvore(n % 4) => Arv::Valor(_, t) entao
                    retorna t
                fim
            senao:
                quebra
        fim
        quebra
    fim
    retorna "fim"
fim
func desce(n: int, a: texto, b: [int]): int
    se n <= 0 entao
        retorna tam(a) + tam(b)
    fim
    l: [texto] = [texto: a, "z", texto_de(n)]
    retorna 1 + desce(n - 1, l[0], [int: n, b[0]])
fim
met Par::muda(alvo, n: int): Par
    alvo.a += n
    alvo.a = alvo.a % 1000
    retorna Par(a: alvo.a, t: alvo.t, v: alvo.v)
fim
met Par::nada(alvo, x: texto)
    l: [texto] = [texto: x, x, x]
fim
met int::cubo(alvo): int
    retorna (alvo % 100) * (alvo % 100) * (alvo % 100)
fim
'''


class Churn:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.outputs = self.inputs = False
        self.mod = False

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def text(self, d=2):
        r = self.r
        o = ['texto_de(%s)' % self.int(d - 1), 'f"a {i} b {g} c"', '"constante"', 'sai(i)', 'f"{gt}{i % 10}"[1]', 'novo(i).t', 'gp.t', 'fila(i)[0][1]',
             'iguala arvore(i % 5) Arv::Valor(_, s) => s, _ => f"nada {i}" fim', 'talvez(i).valor_ou(gp).t']
        return r.choice(o[:9]) if d > 0 else o[r.randrange(1, 3)]

    def int(self, d=2):
        r = self.r
        if d <= 0:
            return r.choice(["i", "g", "1", "i % 7", "gv[0]", "gp.a"])
        o = ["soma(i, g)", "tam(%s)" % self.text(d - 1), "soma(%s, %s)" % (self.int(d - 1), self.int(d - 1)), "tamanho(arvore(i %% %d))" % r.choice([3, 5, 7]), "procura(i)",
             "desce(%d, %s, [int: i])" % (r.choice([0, 1, 5]), self.text(0)), "[int: i, g, 3][1]", "vec(int, 2, 2)[1][0]", "novo(i).v[2]", "(i % 50).cubo()", "gp.muda(1).a",
             "iguala i %% 3 0 => %s, 1 => soma(1, i), k => k fim" % self.int(d - 1), "(talvez(i).valor_ou(gp)).a", "cadeia(3).valor_ou(gn).val",
             "((i :> real) :> int)", "tam(fila(i))", "tam(gv)"]
        if self.mod:
            o += ["mm.conta(i)", "tam(mm.lista(i))"]
        return r.choice(o)

    def stmt(self, ind, d=2):
        r = self.r
        p = "    " * ind
        o = [lambda: [p + "g = (%s) %% 1009" % self.int()],
             lambda: [p + "gt = %s" % self.text()],
             lambda: [p + "soma(i, 1)"], lambda: [p + "texto_de(i)"], lambda: [p + "novo(i)"], lambda: [p + "fila(i)"], lambda: [p + "sai(i)"], lambda: [p + "cadeia(4)"],
             lambda: [p + "gp.muda(1)"], lambda: [p + "gp.nada(%s)" % self.text(1)], lambda: [p + "i.cubo()"],
             lambda: [p + "[int: i, i, i]"], lambda: [p + 'f"{i} {g}"'], lambda: [p + "i + 1"], lambda: [p + "iguala i % 2 0 => texto_de(i), _ => gt fim"],
             lambda: [p + "gp = novo(i)"], lambda: [p + "go = talvez(i)"], lambda: [p + "gu = arvore(i % 6)"], lambda: [p + "gv = [int: i, 2, 3]"],
             lambda: [p + "gp.t = %s" % self.text(1)], lambda: [p + "gp.v = [int: 1, i]"], lambda: [p + "gm[i % 3] = [int: i, 1, 2]"], lambda: [p + "gm[1] = gm[2]"],
             lambda: [p + "anexa(gv, i)", p + "remova(gv, %s)" % r.choice(["0", "tam(gv) - 1"])],
             lambda: [p + "gi = %s" % r.choice(["i", "novo(i)", "texto_de(i)", "[int: i]"])],
             lambda: [p + "%s: Par = gp" % self.name("x"), p + "%s: indef = i" % self.name("x"), p + "%s: texto" % self.name("x")],
             lambda: self.push(p), lambda: [p + "tamanho(gu)"], lambda: [p + "desce(%d, gt, gv)" % r.choice([1, 3, 20])],
             lambda: [p + "se iguala arvore(i %% 6) => Arv::Valor(%s, _) entao" % self.bind("y")] + [p + "    g = %s %% 7" % self.last, p + "fim"],
             lambda: [p + "iguala arvore(i % 6)", p + "    Arv::Valor(n9, s9) => faca", p + "        g = n9", p + "        gt = s9", p + "    fim,", p + "    z9 => faca",
                      p + "        gu = z9", p + "    fim", p + "fim"],
             lambda: [p + "g = iguala i % 3", p + "    0 => faca", p + "        q9: texto = texto_de(i)", p + "        produz tam(q9)", p + "    fim,", p + "    _ => 4", p + "fim"],
             lambda: [p + "se txt_contem(gt, texto_de(i)) ou (i % 2 == 0) entao", p + "    gt = texto_de(i)", p + "fim"]]
        if self.inputs:
            o += [lambda: [p + 'gt = leia("")'], lambda: [p + 'leia("")'], lambda: [p + 'gt = leia("? ")', p + "tam(gt)"]] * 3
        if self.outputs:
            o += [lambda: [p + "mostra %s" % r.choice(["i", "gt", "gv", "gp", "gu", "novo(i)", self.text(1), self.int(1)])], lambda: [p + "escreva(%s)" % self.text(1)]] * 4
        if self.mod:
            o += [lambda: [p + "mm.guarda(i)"], lambda: [p + "mm.lista(i)"], lambda: [p + "mm.conta(g)"], lambda: [p + "mm.Caixa(n: i, t: gt)"]] * 2
        if d:
            o += [lambda: self.loop(p, ind, d), lambda: self.choice(p, ind, d)] * 3
        return r.choice(o)()

    def bind(self, p):
        self.last = self.name(p)
        return self.last

    def push(self, p):
        v, k = self.name("l"), self.name("k")
        t, e = self.r.choice([("texto", "texto_de(i)"), ("Par", "novo(i)"), ("[int]", "[int: i, %s]" % k), ("Arv", "arvore(3)"), ("No", 'No(val: 1, prox: cadeia(2), rot: "r")')])
        return [p + "%s: [%s] = [%s: %s]" % (v, t, t, e.replace(k, "1")), p + "para %s de 0..3 faca" % k, p + "    anexa(%s, %s)" % (v, e), p + "fim", p + "remova(%s, 1)" % v]

    def loop(self, p, ind, d):
        r = self.r
        k = self.name("k")
        out = [p + "para %s de 0..%d faca" % (k, r.choice([1, 2, 3]))] if r.random() < 0.7 else [p + "%s: int = 0" % k, p + "enquanto %s < 2 faca" % k, p + "    %s += 1" % k]
        for _ in range(r.randrange(1, 3)):
            out += self.stmt(ind + 1, d - 1)
        if r.random() < 0.4:
            out += [p + "    se i %% 2 == %s %% 2 entao" % k, p + "        " + r.choice(["quebra", "continua"]), p + "    fim"] + self.stmt(ind + 1, d - 1)
        return out + [p + "fim"]

    def choice(self, p, ind, d):
        r = self.r
        if r.random() < 0.5:
            out = [p + "se i % 2 == 0 entao"] + self.stmt(ind + 1, d - 1) + [p + "senaose i % 3 == 0 entao"] + self.stmt(ind + 1, d - 1)
            return out + [p + "senao"] + self.stmt(ind + 1, d - 1) + [p + "fim"]
        out = [p + "escolha i % 3:", p + "    caso 0:"] + self.stmt(ind + 2, d - 1) + [p + "    caso soma(0, 1):"] + self.stmt(ind + 2, d - 1)
        return out + ([p + "    senao:"] + self.stmt(ind + 2, d - 1) if r.random() < 0.6 else []) + [p + "fim"]

    def program(self):
        r = self.r
        x = r.random()
        self.outputs, self.inputs = x < 0.15, 0.15 <= x < 0.3
        self.mod = r.random() < 0.3
        files = {}
        head = ""
        if self.mod:
            head = 'usa "q/m" => mm\n'
            files["q/m.ama"] = ("registo Caixa\n    n: int\n    t: texto\nfim\nc: Caixa = Caixa(n: 0, t: \"\")\nfunc guarda(n: int)\n    c = Caixa(n: n, t: f\"caixa {n}\")\nfim\n"
                                "func conta(n: int): int\n    c.n = n\n    retorna c.n % 9\nfim\nfunc lista(n: int): [Caixa]\n    x: [Caixa] = [Caixa: Caixa(n: n, t: \"a\"), c]\n    retorna x\nfim\n")
        style = r.choice(["top", "top", "func", "while", "calls", "rec"])
        body = []
        for _ in range(r.randrange(1, 5)):
            body += self.stmt(1)
        if style == "top":
            main = ["para i de 0..@N@ faca"] + body + ["fim"]
        elif style == "while":
            main = ["i: int = 0", "enquanto i < @N@ faca", "    i += 1"] + body + ["fim"]
        elif style == "func":
            main = ["func corre(n: int)", "    para i de 0..n faca"] + ["    " + b for b in body] + ["    fim", "fim", "corre(@N@)"]
        elif style == "calls":
            main = ["func passo(i: int)"] + body + ["fim", "para i de 0..@N@ faca", "    passo(i)", "fim"]
        else:
            main = ["func rec(i: int, n: int)", "    se n <= 0 entao", "        retorna", "    fim"] + body + \
                   ["    rec(i, n - 1)", "fim", "para i de 0..(@N@ // 50) faca", "    rec(i, 49)", "fim"]
        files["main.ama"] = head + HEAD + "\n".join(main) + '\nmostra "fim"\n'
        return files

    def chain(self):
        """a long chain of objects, released in one of many ways"""
        r = self.r
        kind = r.choice(["No", "No2", "Arv", "vec", "opt"])
        if kind == "No":
            t, null, link = "No?", "nulo", 'No(val: i, prox: c, rot: "r")'
        elif kind == "No2":
            t, null, link = "Lado?", "nulo", "Lado(esq: c, dir: c, n: i)"
        elif kind == "Arv":
            t, null, link = "Arv", "Arv::Folha", r.choice(["Arv::Ramo(c, Arv::Folha)", "Arv::Ramo(Arv::Folha, c)", 'Arv::Ramo(Arv::Valor(i, "x"), c)', "Arv::Ramo(c, c)"])
        elif kind == "vec":
            t, null, link = "Vagao?", "nulo", r.choice(["Vagao(v: [Vagao?: c])", "Vagao(v: [Vagao?: nulo, c, nulo])"])
        else:
            t, null, link = "Elo", 'Elo::Fim', r.choice(["Elo::Mais([Elo: c])", "Elo::Mais([Elo: Elo::Fim, c])"])
        pre = "registo Lado\n    esq: Lado?\n    dir: Lado?\n    n: int\nfim\nregisto Vagao\n    v: [Vagao?]\nfim\nuniao Elo\n    Fim,\n    Mais([Elo])\nfim\n"
        build = ["func faz(n: int): %s" % t, "    c: %s = %s" % (t, null), "    para i de 0..n faca", "        c = %s" % link, "    fim", "    retorna c", "fim"]
        use = r.choice([
            ["x: %s = faz(@N@)" % t, 'mostra "feito"', "x = %s" % null],
            ["x: %s = faz(@N@)" % t, 'mostra "feito"'],
            ["faz(@N@)", 'mostra "feito"'],
            ["func usa_e_larga()", "    y: %s = faz(@N@)" % t, '    mostra "feito"', "fim", "usa_e_larga()"],
            ["l: [%s] = [%s: faz(@N@)]" % (t, t), 'mostra "feito"', "remova(l, 0)"],
            ["l: [%s] = [%s: faz(@N@), %s]" % (t, t, null), 'mostra "feito"', "l[0] = l[1]"],
            ["se verdadeiro entao", "    z: %s = faz(@N@)" % t, '    mostra "feito"', "fim"],
            ["para k de 0..3 faca", "    z: %s = faz(@N@ // 3)" % t, "fim", 'mostra "feito"'],
            ["func erra(k: int): int", "    y: %s = faz(@N@)" % t, '    mostra "feito"', "    retorna 1 // k", "fim", "erra(0)"],
            ["func fundo(k: int, y: %s): int" % t, "    se k == 0 entao", "        retorna 0", "    fim", "    retorna fundo(k - 1, y) + 1", "fim", "mostra fundo(900, faz(@N@))"],
        ])
        files = {"main.ama": HEAD + pre + "\n".join(build + use) + '\nmostra "fim"\n'}
        return files, "erra(0)" in use

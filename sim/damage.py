"""Damaged source texts: what storage, transfer and editing do to programs."""
import re

import gen
import lang
import shapes
import choose

SNIPPETS = [s.encode() for s in [
    'usa "mod/a" => q\nusa "mod/b" => [x, f]\nusa "mod/c"\nmostra q.x + x\nq.f(1)\n',
    'registo Par[T, U]\n    a: T\n    b: U\nfim\np: Par[int, texto] = Par(a: 1, b: "x")\nmostra p.a\nmet Par[int, texto]::soma(n: int): int\n    retorna alvo.a + n\nfim\n',
    'registo Caixa[T]\n    v: T\nfim\nmet[T] Caixa[T]::pega(alvo): T\n    retorna alvo.v\nfim\nc: Caixa[int] = Caixa(v: 3)\nmostra c.pega()\n',
    'met int::dobro(): int\n    retorna alvo * 2\nfim\nmostra 4.dobro()\nx: int = 3\nmostra x.dobro().dobro()\n',
    'uniao Forma\n    Circulo(real),\n    Rect(int, int),\n    Nada\nfim\nf: Forma = Forma::Rect(1, 2)\niguala f\n    Forma::Circulo(r) => mostra r,\n    Forma::Rect(a, 2) => mostra a,\n    Forma::Rect(_, b) => mostra b,\n    outro => mostra 0\nfim\n',
    'uniao L\n    N(int, L),\n    F\nfim\nfunc s(l: L): int\n    retorna iguala l\n        L::N(a, r) => a + s(r),\n        L::F => 0\n    fim\nfim\nmostra s(L::N(1, L::N(2, L::F)))\n',
    'x: int? = nulo\nse iguala x => y entao\n    mostra y\nsenao\n    mostra "nada"\nfim\nmostra x.valor_ou(4)\n',
    'v: indef = 4\nmostra v :> int\nw: indef = "abc"\nmostra (w :> texto)[0]\n',
    'a, b, c: int\na = 1; b = 2; c += a * b; c -= 1; c *= 3; c /= 1\nmostra a, b\n',
    'x: int = iguala 4\n    1 => 2,\n    k => faca\n        z: int = k * 2\n        produz z\n    fim\nfim\nmostra x\n',
    'para i de 0..10 inc 3 faca\n    se i == 3 entao\n        continua\n    senaose i > 6 entao\n        quebra\n    senao\n        mostra i\n    fim\nfim\n',
    'escolha 3:\n    caso 1:\n        mostra "um"\n    caso 2:\n        mostra "dois"\n    senao:\n        mostra "outro"\nfim\n',
    'escolha "a" + "b":\n    caso "ab": mostra 1\n    caso "c": mostra 2\nfim\n',
    'm: [[int]] = vec(int, 3, 4)\nm[1][2] = 5\nanexa(m[0], 7)\nmostra tam(m), m[1]\nv: [texto] = [texto: "a", "b"]\nmostra remova(v, 0)\n',
    'nome: texto = leia("nome> ")\nidade: int = leia_int("idade> ")\nmostra f"olá {nome}, {idade + 1} {{ }} {tam(nome)}"\n',
    '# comentário\nfunc f(a: int, b: [real], c: texto?): real # fim\n    se a <= 0 entao\n        retorna 0.5\n    fim\n    retorna f(a - 1, b, nulo) + 1\nfim\nmostra f(3, [real: 1.0, 2.5], "x")\n',
    'enquanto verdadeiro e nao falso ou 1 < 2 faca\n    quebra\nfim\nmostra -1 + +2 % 3 // 4 / 5.0 >= 2 != falso\n',
    "t: texto = 'a \\' \\n \\\" b'\nmostra t + \"linha 1\nlinha 2\" + 'x'\nmostra \"x\" == t\n",
    '@embutido\nfunc nat(a: int): int fim\n@anot(a = "b", c = "d")\nfunc g() fim\n',
    '@@embutido(nome = "embutidos")\n@embutido\nfunc escreva(item: indef) fim\nescreva(1)\n',
    'nativa func h(a: int): int\nmostra h(1)\n',
    'func nativa h(a: int): int\nmostra h(1)\n',
    'func nativa h()\n\nfunc f(a: int)\n    h()\nfim\nf(1)\n',
    'classe A\n    x: int\n    func constructor(x: int)\n        eu.x = x\n    fim\nfim\na: A = A(1)\nmostra a.x\n',
    'registo P\n    x: int\n    n: P?\nfim\np: P = P(x: 1, n: nulo)\np.n = P(x: 2, n: p)\np.x += 3\nse iguala p.n => k entao k.x = 9 fim\nmostra p.n.valor_ou(p).x\n',
    'usa "mat"\nmostra PI\nmostra abs(-1.5)\n',
    'func v(): vazio\n    retorna\nfim\nv()\nmostra 9223372036854775807\nmostra 1.7976931348623157\nmostra 100000000.0 * 100000000.0\n',
    'mostra iguala iguala 3 x => x fim\n    3 => "sim",\n    _ => "nao"\nfim\n',
    'se verdadeiro entao mostra 1 senaose falso entao mostra 2 senao mostra 3 fim; mostra 4\n',
    'mostra f"{iguala 1 x => x fim}{[int: 1, 2][0]}{\'a\'}"\n',
]]

TOK = (b"mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de continua quebra usa alvo registo "
       b"iguala inc fim func met nulo vazio nativa uniao classe eu super ( ) . .. ; , [ ] @ @@ : ? :: :> => + - * / // % += -= *= /= < > <= >= != == = "
       b"' \" f\" f' {{ } # \\ 0 1 -1 9223372036854775808 99999999999999999999 1.5 1..2 1e5 \xc2\xb2 _ __ x int real texto bool indef Opcao leia vec tam anexa "
       b"embutidos _r0_1_ alvo.x x.y x() x[0] [int:] int? int?? [[int]] f\"{x}\" \xef\xbb\xbf").split(b" ") + [
    b"\n", b"\n\n", b"\x00", b"\r", b"\r\n", b"\xff", b"\xe2\x80\xa8", b"\x0c", b"\x0b", b"\x85", b"\xc2\x85", "\u0661".encode(), b"{", b"}", b"\t", b" ", b"\xf0\x9f\x98\x80", b"e\xcc\x81", b"\x1a", b"\xed\xa0\x80"]


def whole(rng):
    """an undamaged text: a generated program or a snippet of rarer syntax"""
    x = rng.random()
    if x < 0.1:
        k = rng.choice([choose.Choose, shapes.Heap, shapes.Calls])
        return list(lang.render(k(rng).program()).values())[0].encode()
    if x < 0.5:
        for _ in range(5):
            try:
                return list(lang.render(gen.Gen(rng, top=rng.choice([2, 3, 5])).program()).values())[0].encode()
            except RecursionError:
                pass
    return b"".join(rng.choice(SNIPPETS) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def sectors(rng, d):
    """damage in units of storage"""
    z = rng.choice([1, 2, 4, 8, 16, 16, 32, 64, 128])
    s = [d[i:i + z] for i in range(0, len(d), z)] or [b""]
    i, j = rng.randrange(len(s)), rng.randrange(len(s))
    k = rng.randrange(8)
    if k == 0:
        s[i] = bytes([rng.choice([0, 0, 0xff, 0x20, 0x0a])]) * len(s[i])
    elif k == 1:
        s[i:i] = [s[i]] * rng.choice([1, 1, 2, 9])
    elif k == 2:
        s[i], s[j] = s[j], s[i]
    elif k == 3:
        del s[i]
    elif k == 4:
        o = whole(rng)              # left over from another file
        a = (i * z) % max(1, len(o))
        s[i] = o[a:a + z]
    elif k == 5:
        s = s[:i]
    elif k == 6:
        s = s[:i] + s[j:]
    else:
        o = whole(rng)              # a shorter new version over a longer old one
        return o + d[len(o):]
    return b"".join(s)


LEX = re.compile(rb"[A-Za-z_0-9\x80-\xff]+|::|:>|=>|\.\.|//=?|[-+*/%=<>!]=?|[^ ]")


def lexed(rng, d):
    """one token lost, repeated, exchanged or in place of another"""
    s = [m.span() for m in LEX.finditer(d)]
    if not s:
        return d
    i = rng.randrange(len(s))
    a, b = s[i]
    k = rng.randrange(6)
    if k == 0:
        return d[:a] + d[b:]
    if k == 1:
        return d[:b] + b" " + d[a:]
    if k == 2 and i + 1 < len(s):
        x, y = s[i + 1]
        return d[:a] + d[x:y] + d[b:x] + d[a:b] + d[y:]
    if k == 3:
        return d[:a] + rng.choice(TOK) + d[b:]
    if k == 4:
        x, y = rng.choice(s)
        return d[:a] + d[x:y] + d[b:]
    x, y = s[min(len(s) - 1, i + rng.choice([1, 2, 3, 5]))]      # all from one token up to another
    return d[:a] + d[x:]


def edit(rng, d):
    if rng.random() < 0.4:
        return lexed(rng, d)
    n = len(d)
    k = rng.randrange(10)
    a = rng.randrange(n + 1)
    b = min(n, a + rng.choice([1, 2, 5, 20, 80]))
    if k == 0:
        return d[:a]
    if k == 1:
        return d[:a] + d[b:]
    if k == 2:
        return d[:a] + d[a:b] * rng.choice([2, 2, 3]) + d[b:]
    if k == 3:
        return d[:a] + rng.choice(TOK) + d[a:]
    if k == 4:
        return d[:a] + rng.choice(TOK) + d[b:]
    if k == 5:
        o = whole(rng)
        x = rng.randrange(len(o) + 1)
        return d[:a] + o[x:x + rng.choice([5, 30, 200])] + d[a:]
    if k == 6 and n:
        c = bytearray(d)
        c[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return bytes(c)
    if k == 7:
        s = d.split(b"\n")
        i, j = rng.randrange(len(s)), rng.randrange(len(s))
        s[i], s[j] = s[j], s[i]
        return b"\n".join(s)
    if k == 8:
        s = d.split(b"\n")
        i = rng.randrange(len(s))
        w = s[i].split(b" ")
        rng.shuffle(w)
        s[i] = b" ".join(w)
        return b"\n".join(s)
    w = d.split(b" ")               # one word in place of another
    i, j = rng.randrange(len(w)), rng.randrange(len(w))
    w[i] = w[j]
    return b" ".join(w)


OPEN = [b"(", b"[int: ", b"-", b"nao ", b"f(", b"a[", b"1 + ", b"x.", b"se verdadeiro entao\n", b"iguala 1 x => ", b"[", b"func f()\n", b"enquanto verdadeiro faca ", b"U::K(",
        b"\"", b"f\"{", b"9", b"a", b"1 + (", b"x :> ", b"x, ", b"# ", b"{", b"\n", b"@a(b = ", b"se falso entao mostra 1 senao ", b"escolha 1: caso 1: ", b"a: [", b"f\"{'"]


def deep(rng, d):
    o = rng.choice(OPEN)
    n = rng.choice([30, 200, 1000, 3000])
    a = rng.randrange(len(d) + 1)
    if rng.random() < 0.5:
        a = d.rfind(b"\n", 0, a) + 1
    x = rng.choice([b"", b"mostra ", b"x: int = "]) + o * n
    if rng.random() < 0.5:
        x += b"1" + {b"(": b")", b"[": b"]", b"f": b")", b"a": b"]"}.get(o[:1], b"") * n
    return d[:a] + x + d[a:]


def damaged(rng):
    d = whole(rng)
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 6])):
        x = rng.random()
        d = deep(rng, d) if x < 0.02 else sectors(rng, d) if x < 0.4 else edit(rng, d)
    return d[:60000]

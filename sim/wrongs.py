"""Single violations of the language's rules, as source text to plant into a
valid program.  (name, text, line of the diagnosis relative to the first line or
None, where it may stand: t = top level, b = inside any body)"""

WRONG = [
    ("undefined name", "mostra znada", 0, "tb"),
    ("undefined function", "znada(1)", 0, "tb"),
    ("undefined name in expression", "mostra (1 + znada) * 2", 0, "tb"),
    ("undefined name assigned", "znada = 1", 0, "tb"),
    ("text for int", 'zq1: int = "a"', 0, "tb"),
    ("int for text", "zq2: texto = 1", 0, "tb"),
    ("int for bool", "zq3: bool = 1", 0, "tb"),
    ("real for int", "zq4: int = 1.5", 0, "tb"),
    ("vector of wrong element", 'zq5: [int] = [texto: "a"]', 0, "tb"),
    ("element of wrong type", 'mostra [int: 1, "a"]', 0, "tb"),
    ("null for int", "zq6: int = nulo", 0, "tb"),
    ("unknown type", "zq7: ZNada = 1", 0, "tb"),
    ("int plus text", 'mostra 1 + "a"', 0, "tb"),
    ("text minus text", 'mostra "b" - "a"', 0, "tb"),
    ("bool times int", "mostra verdadeiro * 2", 0, "tb"),
    ("minus text", 'mostra -"a"', 0, "tb"),
    ("not of int", "mostra nao 1", 0, "tb"),
    ("and of ints", "mostra 1 e 2", 0, "tb"),
    ("compare text and int", 'mostra "a" < 1', 0, "tb"),
    ("equal of different types", 'mostra "a" == 1', 0, "tb"),
    ("condition not bool", "se 1 entao\n    mostra 1\nfim", 0, "tb"),
    ("loop condition not bool", 'enquanto "a" faca\n    mostra 1\nfim', 0, "tb"),
    ("range not int", 'para zi1 de 0.."a" faca\n    mostra zi1\nfim', 0, "tb"),
    ("argument of wrong type", "mostra tam(1)", 0, "tb"),
    ("prompt not text", "zq8: int = leia_int(1)", 0, "tb"),
    ("too few arguments", "escrevaln()", 0, "tb"),
    ("too many arguments", "escrevaln(1, 2)", 0, "tb"),
    ("return outside function", "retorna 1", 0, "t"),
    ("break outside loop", "quebra", 0, "t"),
    ("continue outside loop", "continua", 0, "t"),
    ("yield outside match", "produz 1", 0, "t"),
    ("index not int", 'mostra [int: 1]["a"]', 0, "tb"),
    ("index of int", "zq9: int = 1\nmostra zq9[0]", 1, "tb"),
    ("field of int", "zq10: int = 1\nmostra zq10.campo", 1, "tb"),
    ("call of int", "zq11: int = 1\nzq11()", 1, "tb"),
    ("declared twice", "zq12: int = 1\nzq12: int = 2", 1, "tb"),
    ("assigned wrong type", 'zq13: int = 1\nzq13 = "a"', 1, "tb"),
    ("compound on text", 'zq14: texto = "a"\nzq14 -= "a"', 1, "tb"),
    ("used in its declaration", "zq15: int = zq15", 0, "tb"),
    ("function declared twice", "func zf1()\nfim\nfunc zf1()\nfim", 2, "t"),
    ("parameter twice", "func zf2(a: int, a: int)\nfim", 0, "t"),
    ("function without return", "func zf3(a: int): int\n    mostra a\nfim", None, "t"),
    ("return missing on a path", "func zf4(a: int): int\n    se a > 0 entao\n        retorna 1\n    fim\nfim", None, "t"),
    ("return of wrong type", 'func zf5(a: int): int\n    retorna "a"\nfim', 1, "t"),
    ("value from procedure", "func zf6(a: int)\n    retorna 1\nfim", 1, "t"),
    ("call with wrong type", 'func zf7(a: int): int\n    retorna a\nfim\nmostra zf7("a")', 3, "t"),
    ("call with too few", "func zf8(a: int, b: int): int\n    retorna a\nfim\nmostra zf8(1)", 3, "t"),
    ("call with too many", "func zf9(a: int): int\n    retorna a\nfim\nmostra zf9(1, 2)", 3, "t"),
    ("local used outside", "func zf10()\n    zloc1: int = 1\nfim\nmostra zloc1", 3, "t"),
    ("block variable used outside", "se verdadeiro entao\n    zloc2: int = 1\nfim\nmostra zloc2", 3, "tb"),
    ("loop variable used outside", "para zi2 de 0..1 faca\n    mostra zi2\nfim\nmostra zi2", 3, "tb"),
    ("function inside function", "func zf11()\n    func zf12()\n    fim\nfim", None, "t"),
    ("unknown field", "registo ZRa\n    a: int\nfim\nzr1: ZRa = ZRa(a: 1)\nmostra zr1.b", 4, "t"),
    ("field of wrong type", 'registo ZRb\n    a: int\nfim\nzr2: ZRb = ZRb(a: "x")', 3, "t"),
    ("missing field", "registo ZRc\n    a: int\n    b: int\nfim\nzr3: ZRc = ZRc(a: 1)", 4, "t"),
    ("field twice", "registo ZRd\n    a: int\n    a: int\nfim", 2, "t"),
    ("record as text", 'registo ZRe\n    a: int\nfim\nzr4: ZRe = "x"', 3, "t"),
    ("nulo for record", "registo ZRf\n    a: int\nfim\nzr5: ZRf = nulo", 3, "t"),
    ("optional used as value", "zq16: int? = 1\nmostra zq16 + 1", 1, "tb"),
    ("unknown method", "zq17: int = 1\nmostra zq17.zmetodo()", 1, "tb"),
    ("alvo outside method", "mostra alvo", 0, "t"),
    ("unknown variant", "uniao ZUa\n    A,\n    B\nfim\nzu1: ZUa = ZUa::C", 4, "t"),
    ("variant argument missing", "uniao ZUb\n    A(int),\n    B\nfim\nzu2: ZUb = ZUb::A()", 4, "t"),
    ("variant argument of wrong type", 'uniao ZUc\n    A(int),\n    B\nfim\nzu3: ZUc = ZUc::A("x")', 4, "t"),
    ("match not exhaustive", "uniao ZUd\n    A(int),\n    B\nfim\nzu4: ZUd = ZUd::B\niguala zu4\n    ZUd::A(x) => faca\n        mostra x\n    fim\nfim", None, "t"),
    ("nested match not exhaustive", "uniao ZUe\n    A(bool, ZUe),\n    B,\n    C\nfim\nzu5: ZUe = ZUe::B\niguala zu5\n    ZUe::A(_, ZUe::B) => faca\n    fim,\n    ZUe::B => faca\n    fim,\n    ZUe::C => faca\n    fim\nfim", None, "t"),
    ("int match not exhaustive", "zq18: int = 1\niguala zq18\n    1 => faca\n    fim\nfim", None, "tb"),
    ("pattern of wrong type", 'zq19: int = 1\niguala zq19\n    "a" => faca\n    fim,\n    _ => faca\n    fim\nfim', None, "tb"),
    ("case of wrong type", 'zq20: int = 1\nescolha zq20:\n    caso "a":\n        mostra 1\nfim', None, "tb"),
    ("unknown module", 'usa "znao_existe"', 0, "t"),
    ("impossible conversion", "mostra ([int: 1] :> int)", 0, "tb"),
    ("append of wrong type", 'zq21: [int] = [int: 1]\nanexa(zq21, "a")', 1, "tb"),
    ("missing parenthesis", "mostra (1 + 2", 0, "tb"),
    ("stray parenthesis", "mostra 1)", 0, "tb"),
    ("stray end", "fim", 0, "t"),
    ("unterminated text", 'mostra "abc', None, "tb"),
    ("unknown character", "mostra 1 $ 2", 0, "tb"),
    ("two values", "mostra 1 2", 0, "tb"),
    ("missing operand", "mostra 1 +", 0, "tb"),
    ("missing entao", "se verdadeiro\n    mostra 1\nfim", 0, "tb"),
    ("assignment to literal", "1 = 2", 0, "tb"),
    ("missing type", "zq22: = 1", 0, "tb"),
    ("keyword as name", "fim: int = 1", 0, "tb"),
    ("f-string with unknown name", 'mostra f"a{znada}b"', 0, "tb"),
    ("f-string with wrong type", 'mostra f"a{1 + verdadeiro}b"', 0, "tb"),
    ("non-primitive without value", "zq23: [int]", 0, "tb"),
    ('range of reals', 'para zi3 de 0..1.5 faca\n    mostra zi3\nfim', 0, 'tb'),
    ('range from real', 'para zi4 de 0.5..3 faca\n    mostra zi4\nfim', 0, 'tb'),
    ('step real', 'para zi5 de 0..3 inc 1.5 faca\n    mostra zi5\nfim', 0, 'tb'),
    ('step text', 'para zi6 de 0..3 inc "a" faca\n    mostra zi6\nfim', 0, 'tb'),
    ('step null', 'para zi6 de 0..3 inc nulo faca\n    mostra zi6\nfim', 0, 'tb'),
    ('int too large', 'zq30: int = 9223372036854775808', 0, 'tb'),
    ('int far too large', 'mostra 99999999999999999999999999', 0, 'tb'),
    ('real from large', 'zq31: real = 9223372036854775808', 0, 'tb'),
    ('int too large negated', 'zq32: int = -9223372036854775808', 0, 'tb'),
    ('pattern too large', 'zq33: int = 1\niguala zq33\n    9223372036854775808 => faca\n    fim,\n    _ => faca\n    fim\nfim', 2, 'tb'),
    ('case too large', 'zq34: int = 1\nescolha zq34:\n    caso 9223372036854775808:\n        mostra 1\nfim', 2, 'tb'),
    ('fstring too large', 'mostra f"a{9223372036854775808}"', 0, 'tb'),
    ('index too large', 'mostra [int: 1][9223372036854775808]', 0, 'tb'),
    ('pattern with too many', 'uniao ZUf\n    A(int),\n    B\nfim\nzu6: ZUf = ZUf::B\niguala zu6\n    ZUf::A(x, y) => faca\n    fim,\n    _ => faca\n    fim\nfim', 6, 't'),
    ('pattern with too few', 'uniao ZUg\n    A(int, int),\n    B\nfim\nzu7: ZUg = ZUg::B\niguala zu7\n    ZUg::A(x) => faca\n    fim,\n    _ => faca\n    fim\nfim', 6, 't'),
    ('pattern args on none', 'uniao ZUh\n    A(int, int),\n    B\nfim\nzu8: ZUh = ZUh::B\niguala zu8\n    ZUh::B(x) => faca\n    fim,\n    _ => faca\n    fim\nfim', 6, 't'),
    ('se iguala too many', 'uniao ZUi\n    A(int),\n    B\nfim\nzu9: ZUi = ZUi::B\nse iguala zu9 => ZUi::A(x, y) entao\n    mostra 1\nfim', 5, 't'),
    ('void value declared', 'zq35: int = escrevaln(1)', 0, 'tb'),
    ('void value in sum', 'mostra 1 + escrevaln(1)', 0, 'tb'),
    ('void as argument', 'escrevaln(escrevaln(1))', 0, 'tb'),
    ('void in vector', 'mostra [int: escrevaln(1)]', 0, 'tb'),
    ('void in fstring', 'mostra f"a{escrevaln(1)}"', 0, 'tb'),
    ('void as condition', 'se escrevaln(1) entao\n    mostra 1\nfim', 0, 'tb'),
    ('void as index', 'mostra [int: 1][escrevaln(1)]', 0, 'tb'),
    ('void as match', 'iguala escrevaln(1)\n    _ => faca\n    fim\nfim', 0, 'tb'),
    ('void compared', 'mostra escrevaln(1) == escrevaln(1)', 0, 'tb'),
    ('void negated', 'mostra nao escrevaln(1)', 0, 'tb'),
    ('void cast', 'mostra escrevaln(1) :> int', 0, 'tb'),
    ('void indef', 'zq36: indef = escrevaln(1)', 0, 'tb'),
    ('void type', 'zq37: vazio', 0, 'tb'),
    ('void vector', 'zq38: [vazio] = [vazio: ]', 0, 'tb'),
    ('void param', 'func zf20(a: vazio)\nfim', 0, 't'),
    ('void returned', 'func zf21()\n    retorna escrevaln(1)\nfim', 1, 't'),
    ('indef sum', 'zq39: indef = 1\nmostra zq39 + 1', 1, 'tb'),
    ('indef to int', 'zq40: indef = 1\nzq41: int = zq40', 1, 'tb'),
    ('text element set', 'zq42: texto = "abc"\nzq42[0] = "x"', 1, 'tb'),
    ('field of literal', 'mostra (1).x', 0, 'tb'),
    ('call of text', 'mostra "a"(1)', 0, 'tb'),
    ('call of call', 'mostra tam("a")(1)', 0, 'tb'),
    ('named argument to function', 'func zf22(a: int)\nfim\nzf22(a: 1)', 2, 't'),
    ('record without names', 'registo ZRg\n    a: int\nfim\nzr6: ZRg = ZRg(1)', 3, 't'),
    ('record too many', 'registo ZRh\n    a: int\nfim\nzr7: ZRh = ZRh(a: 1, b: 2)', 3, 't'),
    ('record given twice', 'registo ZRi\n    a: int\n    b: int\nfim\nzr8: ZRi = ZRi(a: 1, a: 2)', 4, 't'),
    ('record twice', 'registo ZRj\n    a: int\nfim\nregisto ZRj\n    a: int\nfim', 3, 't'),
    ('union twice', 'uniao ZUj\n    A\nfim\nuniao ZUj\n    A\nfim', 3, 't'),
    ('variant twice', 'uniao ZUk\n    A,\n    A\nfim', 2, 't'),
    ('method twice', 'registo ZRk\n    a: int\nfim\nmet ZRk::x(alvo)\nfim\nmet ZRk::x(alvo)\nfim', 5, 't'),
    ('method named like field', 'registo ZRl\n    a: int\nfim\nmet ZRl::a(alvo)\nfim', 3, 't'),
    ('method on unknown type', 'met ZNada::x(alvo)\nfim', 0, 't'),
    ('method without alvo', 'registo ZRm\n    a: int\nfim\nmet ZRm::x(a: int)\nfim', 3, 't'),
    ('method on vector', 'met [int]::x(alvo)\nfim', 0, 't'),
    ('alvo as parameter of function', 'func zf23(alvo: int)\nfim', 0, 't'),
    ('unknown param type', 'func zf24(a: ZNada)\nfim', 0, 't'),
    ('unknown return type', 'func zf25(): ZNada\nfim', 0, 't'),
    ('native function', 'func nativa zf90(a: int): int', 0, 't'),
    ('native function without result', 'func nativa zf91()', 0, 't'),
    ('unknown field type', 'registo ZRn\n    a: ZNada\nfim', 1, 't'),
    ('unknown variant type', 'uniao ZUl\n    A(ZNada)\nfim', 1, 't'),
    ('unknown vector type', 'zq43: [ZNada] = [int: 1]', 0, 'tb'),
    ('unknown literal type', 'mostra [ZNada: 1]', 0, 'tb'),
    ('unknown vec type', 'mostra vec(ZNada, 1)', 0, 'tb'),
    ('unknown cast type', 'mostra (1 :> ZNada)', 0, 'tb'),
    ('function as value', 'func zf26()\nfim\nmostra zf26', 2, 't'),
    ('function as argument', 'func zf27()\nfim\nescrevaln(zf27)', 2, 't'),
    ('function assigned', 'func zf28()\nfim\nzf28 = 1', 2, 't'),
    ('record as value', 'registo ZRo\n    a: int\nfim\nmostra ZRo', 3, 't'),
    ('union as value', 'uniao ZUm\n    A\nfim\nmostra ZUm', 3, 't'),
    ('type as value', 'mostra int', 0, 'tb'),
    ('module type as value', 'zq44: int = texto', 0, 'tb'),
    ('builtin assigned', 'escrevaln = 1', 0, 'tb'),
    ('builtin redeclared', 'escrevaln: int = 1', 0, 't'),
    ('builtin function redeclared', 'func tam(a: int)\nfim', 0, 't'),
    ('type redeclared', 'registo int\n    a: int\nfim', 0, 't'),
    ('variable named like type', 'texto: int = 1', 0, 't'),
    ('variable named like function', 'func zf29()\nfim\nzf29: int = 1', 2, 't'),
    ('record named like function', 'func zf30()\nfim\nregisto zf30\n    a: int\nfim', 2, 't'),
    ('generic argument on plain', 'zq45: int[int] = 1', 0, 'tb'),
    ('option without argument', 'zq46: Opcao = nulo', 0, 'tb'),
    ('option with two', 'zq47: Opcao[int, int] = nulo', 0, 'tb'),
    ('null compared', 'mostra nulo == 1', 0, 'tb'),
    ('null summed', 'mostra nulo + 1', 0, 'tb'),
    ('null member', 'mostra nulo.valor', 0, 'tb'),
    ('valor_ou wrong', 'zq48: int? = 1\nmostra zq48.valor_ou("a")', 1, 'tb'),
    ('valor_ou none', 'zq49: int? = 1\nmostra zq49.valor_ou()', 1, 'tb'),
    ('valor_ou two', 'zq50: int? = 1\nmostra zq50.valor_ou(1, 2)', 1, 'tb'),
    ('option of option', 'zq52: int?? = 1', 0, 'tb'),
    ('remova of text', 'mostra remova("abc", 0)', 0, 'tb'),
    ('remova wrong index', 'mostra remova([int: 1], "a")', 0, 'tb'),
    ('remova real index', 'mostra remova([int: 1], 1.5)', 0, 'tb'),
    ('anexa to text', 'anexa("abc", "d")', 0, 'tb'),
    ('tam of bool', 'mostra tam(verdadeiro)', 0, 'tb'),
    ('txt_contem int', 'mostra txt_contem("a", 1)', 0, 'tb'),
    ('vec no size', 'mostra vec(int)', 0, 'tb'),
    ('vec text size', 'mostra vec(int, "a")', 0, 'tb'),
    ('vec real size', 'mostra vec(int, 1.5)', 0, 'tb'),
    ('vec value type', 'mostra vec(1, 1)', 0, 'tb'),
    ('vec of record', 'registo ZRp\n    a: int\nfim\nmostra vec(ZRp, 1)', 3, 't'),
    ('vector plus vector', 'mostra [int: 1] + [int: 2]', 0, 'tb'),
    ('vector less', 'mostra [int: 1] < [int: 2]', 0, 'tb'),
    ('record less', 'registo ZRq\n    a: int\nfim\nzr9: ZRq = ZRq(a: 1)\nmostra zr9 < zr9', 4, 't'),
    ('text times', 'mostra "a" * 2', 0, 'tb'),
    ('text plus', 'mostra "a" + "b"', 0, 'tb'),
    ('text floor', 'mostra "a" // "b"', 0, 'tb'),
    ('bool less', 'mostra verdadeiro < falso', 0, 'tb'),
    ('int and bool', 'mostra 1 e verdadeiro', 0, 'tb'),
    ('bool minus', 'mostra -verdadeiro', 0, 'tb'),
    ('bool plus', 'mostra +verdadeiro', 0, 'tb'),
    ('compound text', 'zq53: texto = "a"\nzq53 += "b"', 1, 'tb'),
    ('compound bool', 'zq54: bool = falso\nzq54 += 1', 1, 'tb'),
    ('compound real into int', 'zq55: int = 1\nzq55 += 1.5', 1, 'tb'),
    ('compound div int', 'zq56: int = 1\nzq56 /= 2', 1, 'tb'),
    ('compound undefined', 'znada += 1', 0, 'tb'),
    ('compound index text', 'zq57: [texto] = [texto: "a"]\nzq57[0] += "b"', 1, 'tb'),
    ('element of wrong type set', 'zq58: [int] = [int: 1]\nzq58[0] = "a"', 1, 'tb'),
    ('element real into int', 'zq59: [int] = [int: 1]\nzq59[0] = 1.5', 1, 'tb'),
    ('vector of other', 'zq60: [real] = [int: 1]', 0, 'tb'),
    ('rows of wrong type', 'zq61: [[int]] = [[int]: [texto: "a"]]', 0, 'tb'),
    ('field of wrong type set', 'registo ZRr\n    a: int\nfim\nzr10: ZRr = ZRr(a: 1)\nzr10.a = "x"', 4, 't'),
    ('field real into int', 'registo ZRs\n    a: int\nfim\nzr11: ZRs = ZRs(a: 1)\nzr11.a = 1.5', 4, 't'),
    ('method assigned', 'registo ZRt\n    a: int\nfim\nmet ZRt::x(alvo)\nfim\nzr12: ZRt = ZRt(a: 1)\nzr12.x = 1', 6, 't'),
    ('method as value', 'registo ZRu\n    a: int\nfim\nmet ZRu::x(alvo)\nfim\nzr13: ZRu = ZRu(a: 1)\nmostra zr13.x', 6, 't'),
    ('method too many', 'registo ZRv\n    a: int\nfim\nmet ZRv::x(alvo)\nfim\nzr14: ZRv = ZRv(a: 1)\nzr14.x(1)', 6, 't'),
    ('call result assigned', 'tam("a") = 1', 0, 'tb'),
    ('alvo assigned', 'registo ZRw\n    a: int\nfim\nmet ZRw::x(alvo)\n    alvo = 1\nfim', 4, 't'),
    ('other record', 'registo ZRx\n    a: int\nfim\nregisto ZRy\n    a: int\nfim\nzr15: ZRx = ZRy(a: 1)', 6, 't'),
    ('other union', 'uniao ZUn\n    A\nfim\nuniao ZUo\n    A\nfim\nzu10: ZUn = ZUo::A', 6, 't'),
    ('pattern of other union', 'uniao ZUp\n    A\nfim\nuniao ZUq\n    A\nfim\nzu11: ZUp = ZUp::A\niguala zu11\n    ZUq::A => faca\n    fim\nfim', 8, 't'),
    ('union compared with int', 'uniao ZUr\n    A\nfim\nmostra ZUr::A == 1', 3, 't'),
    ('path into int', 'mostra int::x', 0, 'tb'),
    ('path into variable', 'zq62: int = 1\nmostra zq62::x', 1, 'tb'),
    ('path three', 'uniao ZUs\n    A\nfim\nmostra ZUs::A::B', 3, 't'),
    ('escolha of real', 'escolha 1.5:\n    caso 1.5:\n        mostra 1\nfim', 0, 'tb'),
    ('escolha of bool', 'escolha verdadeiro:\n    caso verdadeiro:\n        mostra 1\nfim', 0, 'tb'),
    ('case real', 'zq63: int = 1\nescolha zq63:\n    caso 1.5:\n        mostra 1\nfim', 2, 'tb'),
    ('case undefined', 'zq64: int = 1\nescolha zq64:\n    caso znada:\n        mostra 1\nfim', 2, 'tb'),
    ('return value in procedure', 'func zf31()\n    retorna 1\nfim', 1, 't'),
    ('return nothing in function', 'func zf32(): int\n    retorna\nfim', 1, 't'),
    ('return only in loop', 'func zf33(): int\n    se verdadeiro entao\n        mostra 1\n    senao\n        retorna 1\n    fim\nfim', None, 't'),
    ('return missing in match', 'func zf34(a: int): int\n    iguala a\n        1 => faca\n            retorna 1\n        fim,\n        _ => faca\n        fim\n    fim\nfim', None, 't'),
    ('return missing in choice', 'func zf35(a: int): int\n    escolha a:\n        caso 1:\n            retorna 1\n    fim\nfim', None, 't'),
    ('break in function in loop', 'enquanto verdadeiro faca\n    func zf36()\n        quebra\n    fim\nfim', None, 't'),
    ('arms of two types', 'zq65: int = 1\nmostra iguala zq65\n    1 => 2,\n    _ => "a"\nfim', None, 'tb'),
    ('produz not last', 'zq66: int = 1\nmostra iguala zq66\n    _ => faca\n        produz 1\n        mostra 2\n    fim\nfim', None, 'tb'),
    ('produz and retorna', 'func zf37(a: int): int\n    retorna iguala a\n        1 => faca\n            se a == 1 entao\n                retorna 2\n            fim\n            produz 1\n        fim,\n        _ => 3\n    fim\nfim', None, 't'),
    ('produz outside', 'func zf38(): int\n    produz 1\nfim', None, 't'),
    ('name bound twice', 'uniao ZUt\n    A(int, int)\nfim\nzu12: ZUt = ZUt::A(1, 2)\niguala zu12\n    ZUt::A(x, x) => faca\n    fim\nfim', 5, 't'),
    ('real pattern', 'zq67: real = 1.5\niguala zq67\n    1.5 => faca\n    fim,\n    _ => faca\n    fim\nfim', 2, 'tb'),
    ('text pattern for int', 'zq68: int = 1\niguala zq68\n    "1" => faca\n    fim,\n    _ => faca\n    fim\nfim', 2, 'tb'),
    ('int pattern for real', 'zq69: real = 1.0\niguala zq69\n    1 => faca\n    fim,\n    _ => faca\n    fim\nfim', 2, 'tb'),
    ('binding used later', 'zq70: int = 1\niguala zq70\n    zb => faca\n    fim\nfim\nmostra zb', 5, 'tb'),
    ('match without arms', 'zq71: int = 1\niguala zq71\nfim', None, 'tb'),
    ('self in vector', 'zq72: [int] = [int: zq72[0]]', 0, 'tb'),
    ('self in call', 'zq73: int = tam(f"{zq73}")', 0, 'tb'),
    ('forward use', 'mostra zq74\nzq74: int = 1', 0, 'tb'),
    ('forward function', 'zf39()\nfunc zf39()\nfim', 0, 't'),
    ('multi declared twice', 'zq75, zq75: int', 0, 'tb'),
    ('multi init', 'zq76, zq77: int = 1', None, 'tb'),
    ('semicolon wrong', 'mostra 1; mostra znada', 0, 'tb'),
    ('used in its own sum', 'zq80: int = zq80 + 1', 0, 'tb'),
    ('used in its own vector', 'zq81: [int] = [int: 1, tam(zq81)]', 0, 'tb'),
    ('used in its own text', 'zq82: texto = f"a{zq82}"', 0, 'tb'),
    ('used in its own match', 'zq83: int = iguala 1 1 => zq83, _ => 2 fim', 0, 'tb'),
    ('used in its own index', 'zq84: int = [int: 1][zq84]', 0, 'tb'),
    ('used in its own conversion', 'zq85: real = zq85 :> real', 0, 'tb'),
    ('used in its own arguments', 'func zf50(a: int): int\n    retorna a\nfim\nzq86: int = zf50(1 + zf50(zq86))', 3, 't'),
    ("fstr junk", 'zq1: int = 1\nmostra f"a{zq1 zq1}"', 1, "tb"),
    ("fstr junk 2", 'zq1: int = 1\nmostra f"a{zq1)}"', 1, "tb"),
    ("fstr assign", 'zq1: int = 1\nmostra f"a{zq1 = 2}"', 1, "tb"),
    ("fstr compound", 'zq1: int = 1\nmostra f"a{zq1 += 2}"', 1, "tb"),
    ("fstr open", 'mostra f"a{1"', 0, "tb"),
    ("fstr nothing", 'mostra f"a{}"', 0, "tb"),
    ("assign in parens", "zq1: int = 1\nmostra (zq1 = 2)", 1, "tb"),
    ("assign in arg", "zq1: int = 1\nescrevaln(zq1 = 2)", 1, "tb"),
    ("assign to call", 'tam("a") = 2', 0, "tb"),
    ("assign to sum", "zq1: int = 1\nzq1 + 1 = 2", 1, "tb"),
    ("compound to call", 'tam("a") += 2', 0, "tb"),
    ("chain assign type", 'zq1: int = 1\nzq2: texto = "a"\nzq2 = zq1 = 3', 2, "tb"),
    ("assign to function", "func zf1()\nfim\nzf1 = 2", 2, "t"),
    ("assign to type", "int = 2", 0, "tb"),
    ("assign to record", "registo ZR\n    a: int\nfim\nZR = 2", 3, "t"),
    ("assign to variant", "uniao ZU\n    A,\n    B\nfim\nZU::A = 1", 4, "t"),
    ("assign to alvo", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo)\n    alvo = ZR(a: 1)\nfim", 4, "t"),
    ("assign to method", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo)\nfim\nzr: ZR = ZR(a: 1)\nzr.m = 2", 6, "t"),
    ("two statements on a line", "mostra 1 mostra 2", 0, "tb"),
    ("extra senao", "senao", 0, "t"),
    ("extra caso", "caso 1:", 0, "t"),
    ("extra paren", "mostra (1))", 0, "tb"),
    ("missing paren", "mostra (1", 0, "tb"),
    ("list without type", "mostra [1, 2]", 0, "tb"),
    ("list trailing comma", "mostra [int: 1, 2,]", 0, "tb"),
    ("call trailing comma", "escrevaln(1,)", 0, "tb"),
    ("call double comma", "escrevaln(1,,2)", 0, "tb"),
    ("positional after named", "registo ZR\n    a: int\n    b: int\nfim\nzr: ZR = ZR(a: 1, 2)", 4, "t"),
    ("positional new", "registo ZR\n    a: int\nfim\nzr: ZR = ZR(1)", 3, "t"),
    ("named in call", "func zf2(a: int)\nfim\nzf2(a: 1)", 2, "t"),
    ("named in builtin", "escrevaln(item: 1)", 0, "tb"),
    ("named in method", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo, b: int)\nfim\nzr: ZR = ZR(a: 1)\nzr.m(b: 1)", 6, "t"),
    ("named in variant", "uniao ZU\n    A(int)\nfim\nzu: ZU = ZU::A(x: 1)", 3, "t"),
    ("field twice 2", "registo ZR\n    a: int\n    a: int\nfim", 2, "t"),
    ("fields twice multi", "registo ZR\n    a, a: int\nfim", 1, "t"),
    ("field given twice", "registo ZR\n    a: int\nfim\nzr: ZR = ZR(a: 1, a: 2)", 3, "t"),
    ("variant twice 2", "uniao ZU\n    A,\n    A\nfim", 2, "t"),
    ("param twice", "func zf3(a: int, a: int)\nfim", 0, "t"),
    ("param no type", "func zf4(a)\nfim", 0, "t"),
    ("function in function", "func zf5()\n    func zf6()\n    fim\nfim", 1, "t"),
    ("met in block", "se verdadeiro entao\n    met int::zm(alvo)\n    fim\nfim", 1, "tb"),
    ("met twice", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo)\nfim\nmet ZR::m(alvo)\nfim", 5, "t"),
    ("met like field", "registo ZR\n    a: int\nfim\nmet ZR::a(alvo)\nfim", 3, "t"),
    ("met without alvo", "registo ZR\n    a: int\nfim\nmet ZR::m(b: int)\nfim", 3, "t"),
    ("met of unknown", "met ZNada::m(alvo)\nfim", 0, "t"),
    ("met of vector", "met [int]::m(alvo)\nfim", 0, "t"),
    ("alvo with type", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo: int)\nfim", 3, "t"),
    ("alvo twice", "registo ZR\n    a: int\nfim\nmet ZR::m(alvo, alvo)\nfim", 3, "t"),
    ("alvo second", "registo ZR\n    a: int\nfim\nmet ZR::m(b: int, alvo)\nfim", 3, "t"),
    ("function named alvo", "func alvo()\nfim", 0, "t"),
    ("variable named se", "zx: int = se", 0, "tb"),
    ("generic call", 'mostra tam[int]("a")', 0, "tb"),
    ("path of int", "mostra int::A", 0, "tb"),
    ("path of three", "uniao ZU\n    A\nfim\nmostra ZU::A::B", 3, "t"),
    ("variant shown", "uniao ZU\n    A\nfim\nmostra ZU::B", 3, "t"),
    ("variant args missing", "uniao ZU\n    A(int)\nfim\nzu: ZU = ZU::A", 3, "t"),
    ("variant args many", "uniao ZU\n    A(int)\nfim\nzu: ZU = ZU::A(1, 2)", 3, "t"),
    ("variant args none", "uniao ZU\n    A\nfim\nzu: ZU = ZU::A(1)", 3, "t"),
    ("variant args empty", "uniao ZU\n    A\nfim\nzu: ZU = ZU::A()", 3, "t"),
    ("variant arg type", 'uniao ZU\n    A(int)\nfim\nzu: ZU = ZU::A("a")', 3, "t"),
    ("union compared", "uniao ZU\n    A\nfim\nmostra ZU::A == ZU::A", 3, "t"),
    ("vector compared", "mostra [int: 1] == [int: 1]", 0, "tb"),
    ("vector added", "mostra [int: 1] + [int: 1]", 0, "tb"),
    ("null called", "nulo()", 0, "tb"),
    ("null field", "nulo.valor", 0, "tb"),
    ("text field", 'mostra "a".x', 0, "tb"),
    ("opt of opt", "zq: int?? = 1", 0, "tb"),
    ("opt field", "registo ZR\n    a: int\nfim\nzq: ZR? = nulo\nmostra zq.a", 4, "t"),
    ("opt index", "zq: [int]? = nulo\nmostra zq[0]", 1, "tb"),
    ("opt arith", "zq: int? = 1\nmostra zq + 1", 1, "tb"),
    ("opt to int", "zq: int? = 1\nzr: int = zq", 1, "tb"),
    ("opt cond", "zq: bool? = verdadeiro\nse zq entao\nfim", 1, "tb"),
    ("opt valor_ou type", 'zq: int? = 1\nmostra zq.valor_ou("a")', 1, "tb"),
    ("opt valor_ou none", "zq: int? = 1\nmostra zq.valor_ou()", 1, "tb"),
    ("opt set valor", "zq: int? = 1\nzq.valor = 2", 1, "tb"),
    ("vec assigned", "zq: [texto] = vec(int, 2)", 0, "tb"),
    ("vec nothing", "mostra vec()", 0, "tb"),
    ("vec value", "mostra vec(1, 2)", 0, "tb"),
    ("append type", 'zq: [int] = [int: 1]\nanexa(zq, "a")', 1, "tb"),
    ("append to text", 'zq: texto = "a"\nanexa(zq, "a")', 1, "tb"),
    ("append real to int", "zq: [int] = [int: 1]\nanexa(zq, 1.5)", 1, "tb"),
    ("remove from text", 'zq: texto = "a"\nremova(zq, 0)', 1, "tb"),
    ("remove by text", 'zq: [int] = [int: 1]\nremova(zq, "a")', 1, "tb"),
    ("cast vec", "mostra [int: 1] :> texto", 0, "tb"),
    ("cast record", "registo ZR\n    a: int\nfim\nmostra ZR(a: 1) :> texto", 3, "t"),
    ("cast to vec", "mostra 1 :> [int]", 0, "tb"),
    ("cast to unknown", "mostra 1 :> ZNada", 0, "tb"),
    ("cast bool to int", "mostra verdadeiro :> int", 0, "tb"),
    ("cast null", "mostra nulo :> int", 0, "tb"),
    ("cast function", "func zf8()\nfim\nmostra zf8 :> int", 2, "t"),
    ("text less", 'mostra "a" < "b"', 0, "tb"),
    ("mod real text", 'mostra 1.5 % "a"', 0, "tb"),
    ("e of int bool", "mostra verdadeiro e 1", 0, "tb"),
    ("unary plus text", 'mostra +"a"', 0, "tb"),
    ("nao text", 'mostra nao "a"', 0, "tb"),
    ("compound text 2", 'zq: texto = "a"\nzq += "b"', 1, "tb"),
    ("compound int real", "zq: int = 1\nzq += 1.5", 1, "tb"),
    ("compound div int 2", "zq: int = 1\nzq /= 2", 1, "tb"),
    ("compound bool 2", "zq: bool = falso\nzq += 1", 1, "tb"),
    ("elem type", 'zq: [int] = [int: 1]\nzq[0] = "a"', 1, "tb"),
    ("elem real", "zq: [int] = [int: 1]\nzq[0] = 1.5", 1, "tb"),
    ("field type", 'registo ZR\n    a: int\nfim\nzr: ZR = ZR(a: 1)\nzr.a = "x"', 4, "t"),
    ("field unknown", "registo ZR\n    a: int\nfim\nzr: ZR = ZR(a: 1)\nzr.b = 1", 4, "t"),
    ("field unknown new", "registo ZR\n    a: int\nfim\nzr: ZR = ZR(a: 1, b: 1)", 3, "t"),
    ("new as call", "registo ZR\n    a: int\nfim\nZR(a: 1)(2)", 3, "t"),
    ("call result of int", "func zf9(): int\n    retorna 1\nfim\nmostra zf9()()", 3, "t"),
    ("call a text", 'mostra "a"()', 0, "tb"),
    ("index a function", "func zf10(): int\n    retorna 1\nfim\nmostra zf10[0]", 3, "t"),
    ("function as value 2", "func zf11(): int\n    retorna 1\nfim\nzq: indef = zf11", 3, "t"),
    ("function shown", "func zf12(): int\n    retorna 1\nfim\nmostra zf12", 3, "t"),
    ("record shown", "registo ZR\n    a: int\nfim\nmostra ZR", 3, "t"),
    ("record as argument", "registo ZR\n    a: int\nfim\nescrevaln(ZR)", 3, "t"),
    ("builtin shown", "mostra tam", 0, "tb"),
    ("builtin variable", "tam: int = 1", 0, "t"),
    ("Opcao redefined", "registo Opcao\n    a: int\nfim", 0, "t"),
    ("Opcao made", "zq: int? = Opcao(valor: 1)", 0, "tb"),
    ("generic too many", "registo ZR[T]\n    a: T\nfim\nzr: ZR[int, int]", 3, "t"),
    ("generic missing", "registo ZR[T]\n    a: T\nfim\nzr: ZR", 3, "t"),
    ("generic on int", "zq: int[int] = 1", 0, "tb"),
    ("annotation in block", "se verdadeiro entao\n    @embutido\n    mostra 1\nfim", 2, "tb"),
]


def bodies(x, out):
    """the statement lists whose statements are checked: an arm of iguala that can never be
    selected is not, and only of the first arm is that sure; nor is the other branch of
    a conditional match that always succeeds"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "el" and x.get("k") == "seig":
                continue
            if k in ("b", "el") and isinstance(v, list):
                out.append(v)
            bodies(v[:1] if k == "arms" else v, out)
    elif isinstance(x, list):
        for v in x:
            bodies(v, out)
    return out


def planted(x):
    """the planted statement, if it is still there"""
    if isinstance(x, dict):
        if x.get("wrong"):
            return x
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            w = planted(v)
            if w:
                return w
    return None


def plant(rng, prog, mod=None):
    """(program with one violation, name, module, first line offset known?)"""
    import copy
    p = copy.deepcopy(prog)
    m = mod or rng.choice(list(p["mods"]) + [p["main"]])
    name, text, ln, where = rng.choice(WRONG)
    items = p["mods"][m]["items"]
    inner = [b for b in bodies(items, []) if b]   # live ones only
    if "b" in where and inner and rng.random() < 0.6:
        b = rng.choice(inner)
        n = len(b)
        while n and b[n - 1]["k"] in ("ret", "quebra", "continua"):
            n -= 1
        i = rng.randrange(n + 1)
    elif "t" in where:
        b, i = items, rng.randrange(len(items) + 1)
    else:
        return None
    node = {"k": "raw", "s": text, "wrong": name}
    b.insert(i, node)
    return p, name, m, ln, node

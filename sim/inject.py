"""Run-time faults planted into generated programs."""
import copy
from gen import B, I, T, V, bin_, call, decl, enq, ex, func, has_text, mo, para, ret, se, set_
import lang

MAX = lang.I64MAX


def bodies(x, out, depth=0):
    """every statement list of a module"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("b", "el") and isinstance(v, list):
                out.append(v)
            bodies(v, out)
    elif isinstance(x, list):
        for v in x:
            bodies(v, out)
    return out


def spot(rng, mod):
    """(list, index) of a place for new statements in a module"""
    ls = [mod["items"]] * 2 + bodies(mod["items"], [])
    for _ in range(20):
        b = rng.choice(ls)
        n = len(b)
        while n and b[n - 1]["k"] in ("ret", "quebra", "continua"):
            n -= 1
        top = b is mod["items"]
        lo = 0
        return b, rng.randrange(lo, n + 1), top
    return mod["items"], len(mod["items"]), True


def faulty_expr(rng, k, aux):
    """an int (or real) expression that fails when k becomes 0 and is harmless before;
    aux(names of helper globals)"""
    r = rng
    two = lambda: I(r.randrange(1, 50))
    big = bin_("-", I(-MAX), I(1))
    opts = [
        lambda: bin_("//", two(), k), lambda: bin_("%", two(), k),
        lambda: {"k": "cast", "e": bin_("/", two(), k), "t": "int"},
        lambda: {"k": "cast", "e": bin_("%", {"k": "real", "s": "7.5"}, {"k": "cast", "e": k, "t": "real"}), "t": "int"},
        lambda: {"k": "cast", "e": bin_("/", {"k": "real", "s": "2.5"}, k), "t": "int"},
        lambda: bin_("+", I(MAX), bin_("+", k, I(1))),
        lambda: bin_("-", bin_("+", k, I(-MAX)), I(2)),
        lambda: bin_("*", bin_("+", k, I(2)), I(1 << 62)),
        lambda: {"k": "un", "op": "-", "e": bin_("-", big, k)},
        lambda: bin_("//", bin_("-", big, k), I(-1)),
        lambda: bin_("%", bin_("-", big, k), I(-1)),
        lambda: {"k": "idx", "o": V("zvec"), "i": bin_("+", k, call("tam", V("zvec")))},
        lambda: {"k": "idx", "o": V("zvec"), "i": bin_("-", I(-1), bin_("*", k, I(1)))},
        lambda: {"k": "idx", "o": {"k": "idx", "o": V("zmat"), "i": bin_("+", k, I(2))}, "i": I(0)},
        lambda: {"k": "idx", "o": {"k": "idx", "o": V("zmat"), "i": I(1)}, "i": bin_("+", k, I(2))},
        lambda: call("tam", {"k": "idx", "o": T("olá"), "i": bin_("+", k, I(3))}),
        lambda: call("tam", {"k": "idx", "o": T("olá"), "i": bin_("-", I(-1), k)}),
        lambda: call("remova", V("zvec"), bin_("+", k, call("tam", V("zvec")))),
        lambda: call("zdiv", two(), k),
        lambda: call("zfundo", k),
    ]
    return r.choice(opts)()


FAR = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 2, 1 << 62, MAX, -(1 << 31), -(1 << 32), 1 - (1 << 32), -MAX]


def sure_expr(rng):
    """an int expression that fails whenever it is evaluated"""
    r = rng
    bad = r.choice(["abc", "", "1.5", "12 ", " 3", "9223372036854775808", "--1", "0x1f", "1e3", "é"])
    opts = [
        lambda: {"k": "cast", "e": T(bad), "t": "int"},
        lambda: {"k": "cast", "e": {"k": "cast", "e": T(r.choice(["abc", "", "1,5", "1.5.2", "--1", "e5", "."])), "t": "real"}, "t": "int"},
        lambda: {"k": "val", "o": V("znulo")},
        lambda: {"k": "cast", "e": V("zind%d" % r.randrange(8)), "t": "int", "indef": True},
        lambda: call("tam", {"k": "cast", "e": V("zind%d" % r.choice([0, 1, 2, 3, 4, 6, 7])), "t": "texto", "indef": True}),
        lambda: {"k": "val", "o": {"k": "cast", "e": V("zind%d" % r.randrange(8)), "t": "int?", "indef": True}},
        lambda: {"k": "val", "o": {"k": "cast", "e": T(bad), "t": "int?"}},
        lambda: {"k": "get", "o": {"k": "val", "o": V("znreg")}, "n": "za"},
        lambda: call("tam", {"k": "vecn", "t": r.choice(["int", "texto"]), "a": [I(-r.randrange(1, 5))]}),
        lambda: call("tam", {"k": "vecn", "t": "int", "a": [I(2), I(-1)]}),
        lambda: {"k": "idx", "o": V("zvec"), "i": I(r.choice(FAR))},
        lambda: {"k": "idx", "o": {"k": "idx", "o": V("zmat"), "i": I(r.choice([0, 1] + FAR))}, "i": I(r.choice(FAR))},
        lambda: call("tam", {"k": "idx", "o": r.choice([T("olá"), {"k": "cast", "e": I(4321), "t": "texto"}]), "i": I(r.choice(FAR))}),
        lambda: call("remova", V("zvec"), I(r.choice(FAR))),
        lambda: call("zsem", I(r.randrange(5))),
        lambda: call("zpar", I(3)),
        lambda: call("zmuitos", I(1), T("t"), I(2), T("u")),
        lambda: {"k": "meth", "o": V("zobj"), "ty": "ZR", "f": "zmet", "a": [I(0)]},
        lambda: {"k": "meth", "o": {"k": "val", "o": V("znreg")}, "ty": "ZR", "f": "zmet", "a": [I(1)]},
    ]
    return r.choice(opts)()


def helpers():
    """declarations the planted faults use"""
    return [
        {"k": "reg", "n": "ZR", "fs": [["za", "int"], ["zb", "real"], ["zprox", "ZR?"]]},
        {"k": "uni", "n": "ZU", "vs": [["Zp", ["int"]], ["Zq", []]]},
        decl("zc", "int", I(0)),
        decl("zvec", "[int]", {"k": "vecl", "t": "int", "a": [I(4), I(5), I(6)]}),
        decl("zmat", "[[int]]", {"k": "vecn", "t": "int", "a": [I(2), I(2)]}),
        decl("znulo", "int?", {"k": "nulo"}),
        decl("znreg", "ZR?", {"k": "nulo"}),
        decl("zobj", "ZR", {"k": "new", "r": "ZR", "a": [["za", I(MAX)], ["zb", {"k": "real", "s": "0.5"}], ["zprox", {"k": "nulo"}]]}),
        decl("zind0", "indef", V("zobj")),
        decl("zind1", "indef", V("znulo")),
        decl("zind2", "indef", V("zvec")),
        decl("zind3", "indef", {"k": "vari", "u": "ZU", "v": "Zp", "a": [I(1)]}),
        decl("zind4", "indef", {"k": "vari", "u": "ZU", "v": "Zq", "a": []}),
        decl("zind5", "indef", T("4")),
        decl("zind6", "indef", {"k": "real", "s": "4.0"}),
        decl("zind7", "indef", B(True)),
        func("zdiv", [["za1", "int"], ["zb1", "int"]], "int", [
            decl("zl1", "int", bin_("+", V("za1"), I(1))), ret(bin_("//", V("zl1"), V("zb1")))]),
        func("zfundo", [["zk1", "int"]], "int", [
            se(bin_("<", V("zk1"), I(0)), [ret(I(1))]),
            decl("zr1", "int", call("zfundo", V("zk1"))), ret(bin_("+", V("zr1"), I(1)))]),
        func("zsem", [["zk2", "int"]], "int", [ret(bin_("+", I(1), call("zsem", bin_("+", V("zk2"), I(1)))))]),
        func("zpar", [["zk3", "int"]], "int", [
            para("zi3", I(0), I(3), [decl("zl3", "int", call("zpar", V("zi3")))]), ret(I(0))]),
        func("zmuitos", [["zk4", "int"], ["zt4", "texto"], ["zk5", "int"], ["zt5", "texto"]], "int", [
            decl("zl4", "texto", V("zt4")), decl("zl5", "int", V("zk4")), decl("zl6", "int", V("zk5")),
            se(bin_(">", V("zk4"), I(0)), [decl("zl7", "int", V("zl5")),
                                           ret(call("zmuitos", bin_("+", V("zl7"), I(1)), V("zt5"), V("zk4"), V("zl4")))]),
            ret(V("zl6"))]),
        {"k": "met", "ty": "ZR", "n": "zmet", "ps": [["zd1", "int"]], "rt": "int", "b": [
            set_({"k": "get", "o": {"k": "alvo"}, "n": "za"}, I(1), "+=", "int"),
            ret(bin_("//", {"k": "get", "o": {"k": "alvo"}, "n": "za"}, V("zd1")))]},
        func("zeco", [["ze1", "int"]], "int", [mo({"k": "fstr", "p": ["eco ", V("ze1")]}), ret(V("ze1"))]),
        func("zdois", [["ze2", "int"], ["ze3", "int"]], "int", [ret(bin_("-", V("ze2"), V("ze3")))]),
        decl("zw", "int", I(7)),
    ]


def wrap(rng, e, n):
    """statements that evaluate int expression e in some position"""
    r = rng
    eco = lambda i: call("zeco", I(i))
    u = lambda p: "%s%d" % (p, n)
    cmp_ = bin_(r.choice(["==", ">", "!=", "<="]), e, I(r.randrange(4)))
    arms = [{"p": {"k": "i", "v": 1}, "x": I(1)}, {"p": {"k": "w"}, "x": I(2)}]
    opts = [
        lambda: [mo(e)],
        lambda: [decl(u("zx"), "int", e)],
        lambda: [decl(u("zx"), "real", e)],
        lambda: [set_(V("zw"), e, r.choice(["=", "+=", "-="]))],
        lambda: [set_({"k": "idx", "o": V("zvec"), "i": I(0)}, e, r.choice(["=", "+="]), "int")],
        lambda: [set_({"k": "get", "o": V("zobj"), "n": "za"}, e, "=", "int")],
        lambda: [set_({"k": "get", "o": V("zobj"), "n": "zb"}, set_({"k": "idx", "o": V("zvec"), "i": eco(1)}, set_(V("zw"), e), "=", "int"), "=", "real")],
        lambda: [set_({"k": "idx", "o": V("zvec"), "i": e}, set_(V("zw"), eco(5)), "=", "int")],
        lambda: [set_(V("zw"), set_({"k": "idx", "o": V("zvec"), "i": e}, eco(5), "=", "int"))],
        lambda: [ex(e) if e["k"] == "call" else mo(e)],
        lambda: [ex(call("escreva", {"k": "fstr", "p": ["a", eco(1), "b", e if not has_text(e) else eco(9), eco(2)]}))],
        lambda: [mo(call("zdois", eco(1), e))],
        lambda: [mo(call("zdois", e, eco(2)))],
        lambda: [mo(bin_("+", eco(1), bin_("*", e, eco(2))))],
        lambda: [mo(call("tam", {"k": "vecl", "t": "int", "a": [eco(1), e, eco(3)]}))],
        lambda: [decl(u("zy"), "ZR", {"k": "new", "r": "ZR", "a": [["za", eco(1)], ["zb", e], ["zprox", V("zobj")]]})],
        lambda: [mo({"k": "meth", "o": V("zobj"), "ty": "ZR", "f": "zmet", "a": [e]})],
        lambda: [se(cmp_, [mo(T("sim"))], [mo(T("nao"))])],
        lambda: [se(B(False), [mo(T("sim"))], [mo(T("nao"))], [{"c": bin_("==", eco(1), I(0)), "b": [mo(T("0"))]}, {"c": cmp_, "b": [mo(T("1"))]}])],
        lambda: [enq(bin_("e", cmp_, bin_("<", V("zw"), I(0))), [set_(V("zw"), I(1), "+=")])],
        lambda: [para(u("zi"), I(0), e, [mo(V(u("zi"))), {"k": "quebra"}])],
        lambda: [para(u("zi"), e, I(1), [mo(V(u("zi"))), {"k": "quebra"}])],
        lambda: [para(u("zi"), I(0), I(2), [mo(V(u("zi"))), mo(e)])],
        lambda: [{"k": "esc", "e": e, "cs": [{"x": I(1), "b": [mo(T("um"))]}, {"x": I(2), "b": [mo(T("dois"))]}], "el": [mo(T("outro"))]}],
        lambda: [{"k": "esc", "e": eco(1), "cs": [{"x": I(0), "b": [mo(T("um"))]}, {"x": I(1), "b": [mo(e)]}], "el": None}],
        lambda: [decl(u("zz"), "int", {"k": "ig", "e": e, "arms": copy.deepcopy(arms)})],
        lambda: [decl(u("zz"), "int", {"k": "ig", "e": eco(3), "arms": [{"p": {"k": "i", "v": 1}, "x": I(1)}, {"p": {"k": "b", "n": u("zb")}, "x": e}]})],
        lambda: [decl(u("zz"), "int", {"k": "ig", "e": eco(3), "arms": [{"p": {"k": "b", "n": u("zb")}, "b": [mo(V(u("zb")))], "y": e}]})],
        lambda: [{"k": "igs", "e": eco(1), "arms": [{"p": {"k": "i", "v": 1}, "b": [mo(e)]}, {"p": {"k": "w"}, "b": []}]}],
        lambda: [ex(call("anexa", V("zvec"), e))],
        lambda: [decl(u("zt"), "texto", {"k": "cast", "e": e, "t": "texto"})],
        lambda: [mo(bin_(">", {"k": "valou", "o": V("znulo"), "d": e}, I(0)))],
    ]
    return r.choice(opts)()


def plant(rng, prog, modname=None):
    """a copy of the program that meets a run-time fault, or None"""
    p = copy.deepcopy(prog)
    names = list(p["mods"])
    m = modname or rng.choice(names + [p["main"]])
    mod = p["mods"][m]
    b, i, top = spot(rng, mod)
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 6])
    count = set_(V("zc"), I(1), "+=")
    k = bin_("-", V("zc"), I(n))
    if rng.random() < 0.55:
        st = [count] + wrap(rng, faulty_expr(rng, k, None), 1)
    else:
        st = [count, se(bin_("==", V("zc"), I(n)), wrap(rng, sure_expr(rng) if rng.random() < 0.75 else faulty_expr(rng, k, None), 1))]
    if rng.random() < 0.4:
        st.append(mo(T("depois")))
    for s in st:
        if rng.random() < 0.2:
            s["bl"] = rng.randrange(1, 4)
    b[i:i] = st
    mod["items"][0:0] = helpers()
    return p


BAD_INT = ["", "abc", "1.5", " 1", "1 ", "99999999999999999999", "-9223372036854775809", "-", "+", "0x10", "1e5", "1_000", "١", "1\r", "--2", "+-1", "\t3", "12a", "nulo"]
BAD_REAL = ["", "abc", "1,5", "1.5.2", " 1.5", "1.5 ", "--1", "e5", ".", "1e", "0x1p3", "1_0.5", "infinit", "\x00"]


def bad_input(rng, fns, inp):
    """one line of the input replaced by something its request cannot convert"""
    lines = inp.split(b"\n")
    cand = [i for i, f in enumerate(fns) if f in ("leia_int", "leia_real") and i < len(lines)]
    if not cand:
        return None
    i = rng.choice(cand)
    lines[i] = rng.choice(BAD_INT if fns[i] == "leia_int" else BAD_REAL).encode()
    return b"\n".join(lines)

"""Reference model of the Amanda language: renderer (AST -> source) and executable
semantics (AST + input -> expected input/output history).

A program is a JSON object
  {"mods": {"main": {"path": "main.ama", "imports": [...], "items": [...]}, ...},
   "main": "main"}
Expressions and statements are dicts with a "k" (kind) key; see render_expr and
Interp.ev / Interp.ex for the kinds.  The renderer writes the line number of
every statement, condition and arm into the tree ("ln"), which the model uses to
predict run-time error reports.
"""
import math
import re
import sys
from decimal import Decimal

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
RECURSION_LIMIT = 1000

M_DIV0 = "não pode dividir um número por zero"
M_MOD0 = "não pode calcular o resto da divisão de um número por zero"
M_OVF = "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"
M_VNEG = "Erro de índice inválido. Vectores só podem ser indexados com inteiros positivos"
M_SNEG = "Erro de índice inválido. Strings só podem ser indexadas com inteiros positivos"
M_REC = "Limite máximo de recursão atingido"
M_NULL = "Não pode aceder uma referência nula"
M_DIM = "Dimensões de um vector devem ser especificidas por números inteiros positivos"
M_LINT = "Valor introduzido não é um inteiro válido"
M_LREAL = "Valor introduzido não é um número real válido"
M_INPUT = None      # end of input / unreadable input: any message

BUILTINS = {"leia", "leia_int", "leia_real", "escreva", "escrevaln", "tam", "anexa", "remova", "txt_contem"}


# ------------------------------------------------------------------ rendering
class Renderer:
    def __init__(self, prog):
        self.prog = prog
        self.out = {}

    def render(self):
        for name, mod in self.prog["mods"].items():
            if "text" in mod:
                self.out[mod["path"]] = mod["text"]
                continue
            self.mod, self.name = mod, name
            self.lines = []
            self.tab = mod.get("tab", "    ")
            for imp in mod.get("imports", []):
                self.imp(imp)
            self.stmts(mod["items"], 0)
            self.out[mod["path"]] = "\n".join(self.lines) + "\n"
        return self.out

    def emit(self, ind, s):
        first = len(self.lines) + 1
        self.lines += ((self.tab * ind) + s).split("\n")
        return first

    def imp(self, imp):
        # "as" is the text of the path the importer writes
        p = imp["as"]
        if imp["form"] == "global":
            self.emit(0, "usa %s" % quoted(p))
        elif imp["form"] == "alias":
            self.emit(0, "usa %s => %s" % (quoted(p), imp["alias"]))
        else:
            self.emit(0, "usa %s => [%s]" % (quoted(p), ", ".join(imp["names"])))

    def gname(self, m, n):
        """spelling of global n of module m in the current module"""
        if n[0] == "@":
            m, n = n[1:].split(".")
        if not m or m == self.name:
            return n
        if m in self.mod.get("vis", ()):
            return n
        alias = None
        for imp in self.mod.get("imports", []):
            if imp["mod"] != m:
                continue
            if imp["form"] == "global" or (imp["form"] == "list" and n in imp["names"]):
                return n
            if imp["form"] == "alias" and (imp.get("only") is None or n in imp["only"]):
                alias = alias or imp["alias"]
        if alias:
            return "%s.%s" % (alias, n)
        return n

    def ty(self, t):
        return re.sub(r"@(\w+)\.(\w+)", lambda k: self.gname(k.group(1), k.group(2)), t)

    # how tightly the operators bind; prefixes 5, what can be indexed or called 6
    BINDS = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2,
             "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}

    def seq(self, o, c, items, e):
        """a bracketed list, on one line or on several"""
        if not e.get("nl") or not items:
            return o + ", ".join(items) + c
        pad = "\n" + self.tab * 3
        return o + pad + ("," + pad).join(items) + "\n" + self.tab * 2 + c

    def x(self, e, lv=0):
        """the text of an expression where only what binds at least as tightly as lv may stand bare"""
        k = e["k"]
        if k == "int":
            return str(e["v"])
        if k == "real":
            return e["s"]
        if k == "bool":
            return "verdadeiro" if e["v"] else "falso"
        if k == "txt":
            return quoted(e["v"], e.get("q"), e.get("ml"))
        if k == "nulo":
            return "nulo"
        if k == "set":
            return "%s %s %s" % (self.x(e["t"]), e["op"], self.x(e["e"]))
        if k == "var":
            return self.gname(None, e["n"])
        if k == "gv":
            return self.gname(e["m"], e["n"])
        if k == "alvo":
            return "alvo"
        if k == "bin":
            my = self.BINDS[e["op"]]
            s = "%s %s %s" % (self.x(e["l"], my), e["op"], self.x(e["r"], my + 1))
            return s if e.get("np") and my >= lv else "(%s)" % s
        if k == "un":
            s = e["op"] + (" " if e["op"] == "nao" else "") + self.x(e["e"], 5)
            return s if e.get("np") and lv <= 5 else "(%s)" % s
        if k == "call":
            return self.seq(self.gname(e.get("m"), e["f"]) + "(", ")", [self.x(a) for a in e["a"]], e)
        if k == "meth":
            return self.seq("%s.%s(" % (self.prim(e["o"]), e["f"]), ")", [self.x(a) for a in e["a"]], e)
        if k == "idx":
            return "%s[%s]" % (self.prim(e["o"]), self.x(e["i"]))
        if k == "get":
            return "%s.%s" % (self.prim(e["o"]), e["n"])
        if k == "new":
            return self.seq(self.gname(e.get("m"), e["r"]) + "(", ")", ["%s: %s" % (f, self.x(v)) for f, v in e["a"]], e)
        if k == "vecl":
            return self.seq("[%s: " % self.ty(e["t"]), "]", [self.x(a) for a in e["a"]], e)
        if k == "vecn":
            return "vec(%s, %s)" % (e["t"], ", ".join(self.x(a) for a in e["a"]))
        if k == "cast":
            s = "%s :> %s" % (self.x(e["e"], 6), self.ty(e["t"]))
            return s if e.get("np") and lv <= 5 else "(%s)" % s
        if k == "fstr":
            q = e.get("q", '"')
            parts = []
            for p in e["p"]:
                if isinstance(p, str):
                    parts.append(escaped(p, q).replace("{", "{{"))
                else:
                    parts.append("{%s}" % self.x(p))
            return "f" + q + "".join(parts) + q
        if k == "vari":
            u = self.gname(e.get("m"), e["u"])
            if not e["a"]:
                return "%s::%s" % (u, e["v"])
            return self.seq("%s::%s(" % (u, e["v"]), ")", [self.x(a) for a in e["a"]], e)
        if k == "val":
            return "%s.valor" % self.prim(e["o"])
        if k == "valou":
            return "%s.valor_ou(%s)" % (self.prim(e["o"]), self.x(e["d"]))
        if k == "ig":
            return self.ig(e)
        if k == "igi":
            arms = ""
            for i, a in enumerate(e["arms"]):
                arms += ("" if i == 0 else " " if e["arms"][i - 1].get("nc") else ", ") + "%s => %s" % (self.pat(a["p"]), self.x(a["x"]))
            return "(iguala %s %s fim)" % (self.x(e["e"]), arms)
        raise ValueError(k)

    def prim(self, e):
        s = self.x(e, 6)
        if e["k"] in ("var", "gv", "alvo", "call", "meth", "idx", "get", "val", "valou", "bin", "un", "cast"):
            return s
        return "(%s)" % s

    def pat(self, p):
        k = p["k"]
        if k == "w":
            return "_"
        if k == "b":
            return p["n"]
        if k == "i":
            return str(p["v"])
        if k == "s":
            return quoted(p["v"], p.get("q"))
        if k == "bo":
            return "verdadeiro" if p["v"] else "falso"
        if k == "c":
            u = self.gname(p.get("m"), p["u"])
            s = "%s::%s" % (u, p["v"])
            return s + ("(%s)" % ", ".join(self.pat(q) for q in p["a"]) if p["a"] else "")
        raise ValueError(k)

    def ig(self, e):
        """multi-line iguala; the text up to the arms is returned with the
        remaining lines buffered through a marker so line numbers stay right."""
        head = "iguala %s" % self.x(e["e"])
        self.pending.append(e)
        return head

    # statements -----------------------------------------------------------
    pending = []

    def line(self, ind, s, text_fn):
        """a simple statement; what follows a multi-line iguala in it goes on the lines after it"""
        self.pending = []
        text = text_fn()
        pend, self.pending = self.pending, []
        if s.get("tc") and not pend:
            text += "  # nota 'n\""
        ln = s["ln"] = self.emit(ind, text)
        s.pop("lz", None)
        if len(self.lines) > ln:
            s["lz"] = len(self.lines)
        for e in pend:
            e["ln"] = ln
            self.arms(e, ind)

    def arms(self, e, ind):
        n = len(e["arms"])
        for i, arm in enumerate(e["arms"]):
            last = "" if i == n - 1 or arm.get("nc") else ","
            if "x" in arm:
                arm["ln"] = self.emit(ind + 1, "%s => %s%s" % (self.pat(arm["p"]), self.x(arm["x"]), last))
            else:
                arm["ln"] = self.emit(ind + 1, "%s => faca" % self.pat(arm["p"]))
                self.stmts(arm["b"], ind + 2)
                if arm.get("y") is not None:
                    arm["yln"] = self.emit(ind + 2, "produz %s" % self.x(arm["y"]))
                self.emit(ind + 1, "fim" + last)
        self.emit(ind, "fim")

    SIMPLE = ("decl", "mdecl", "set", "ex", "mo", "ret", "quebra", "continua")

    def stmts(self, b, ind):
        prev = None
        for s in b:
            at = len(self.lines)
            self.s(s, ind)
            if prev is not None and s["k"] in self.SIMPLE and not s.get("bl") and len(self.lines) == at + 1:
                # joined to the statement before it by ";"
                self.lines[at - 1] += "; " + self.lines.pop().strip()
                s["ln"] = at
                at -= 1
            prev = s if s.get("sj") and not s.get("tc") and s["k"] in self.SIMPLE and len(self.lines) == at + 1 else None

    def s(self, s, ind):
        for _ in range(s.get("bl", 0)):
            self.emit(0, "# nota" if s.get("cm") else "")
        k = s["k"]
        if k == "decl":
            if s.get("e") is None:
                s["ln"] = self.emit(ind, "%s: %s" % (s["n"], self.ty(s["t"])))
            else:
                self.line(ind, s, lambda: "%s: %s = %s" % (s["n"], self.ty(s["t"]), self.x(s["e"])))
        elif k == "mdecl":
            s["ln"] = self.emit(ind, "%s: %s" % (", ".join(s["ns"]), self.ty(s["t"])))
        elif k == "set":
            self.line(ind, s, lambda: "%s %s %s" % (self.x(s["t"]), s["op"], self.x(s["e"])))
        elif k == "ex":
            self.line(ind, s, lambda: self.x(s["e"]))
        elif k == "mo":
            self.line(ind, s, lambda: "mostra %s" % self.x(s["e"]))
        elif k == "se":
            s["ln"] = self.emit(ind, "se %s entao" % self.x(s["c"]))
            self.stmts(s["b"], ind + 1)
            for b in s["ei"]:
                b["ln"] = self.emit(ind, "senaose %s entao" % self.x(b["c"]))
                self.stmts(b["b"], ind + 1)
            if s["el"] is not None:
                self.emit(ind, "senao")
                self.stmts(s["el"], ind + 1)
            self.emit(ind, "fim")
        elif k == "enq":
            s["ln"] = self.emit(ind, "enquanto %s faca" % self.x(s["c"]))
            self.stmts(s["b"], ind + 1)
            self.emit(ind, "fim")
        elif k == "para":
            inc = " inc %s" % self.x(s["inc"]) if s.get("inc") is not None else ""
            s["ln"] = self.emit(ind, "para %s de %s..%s%s faca" % (s["v"], self.x(s["a"]), self.x(s["z"]), inc))
            self.stmts(s["b"], ind + 1)
            self.emit(ind, "fim")
        elif k in ("quebra", "continua"):
            s["ln"] = self.emit(ind, k)
        elif k == "ret":
            self.line(ind, s, lambda: "retorna" + (" " + self.x(s["e"]) if s.get("e") is not None else ""))
        elif k == "esc":
            s["ln"] = self.emit(ind, "escolha %s:" % self.x(s["e"]))
            for c in s["cs"]:
                c["ln"] = self.emit(ind + 1, "caso %s:" % self.x(c["x"]))
                self.stmts(c["b"], ind + 2)
            if s["el"] is not None:
                self.emit(ind + 1, "senao:")
                self.stmts(s["el"], ind + 2)
            self.emit(ind, "fim")
        elif k == "igs":
            s["ln"] = self.emit(ind, "iguala %s" % self.x(s["e"]))
            self.arms(s, ind)
        elif k == "seig":
            s["ln"] = self.emit(ind, "se iguala %s => %s entao" % (self.x(s["e"]), self.pat(s["p"])))
            self.stmts(s["b"], ind + 1)
            if s["el"] is not None:
                self.emit(ind, "senao")
                self.stmts(s["el"], ind + 1)
            self.emit(ind, "fim")
        elif k in ("func", "met"):
            ps = ", ".join("%s: %s" % (n, self.ty(t)) for n, t in s["ps"])
            rt = ": " + self.ty(s["rt"]) if s.get("rt") else ""
            if k == "met":
                ps = "alvo" + (", " + ps if ps else "")
                head = "met %s::%s(%s)%s" % (self.ty(s["ty"]), s["n"], ps, rt)
            else:
                head = "func %s(%s)%s" % (s["n"], ps, rt)
            s["ln"] = self.emit(ind, head)
            self.stmts(s["b"], ind + 1)
            self.emit(ind, "fim")
        elif k == "reg":
            s["ln"] = self.emit(ind, "registo %s" % s["n"])
            fs = s["fs"]
            i = 0
            while i < len(fs):
                n = 1
                while s.get("jf") and i + n < len(fs) and fs[i + n][1] == fs[i][1]:
                    n += 1
                self.emit(ind + 1, "%s: %s" % (", ".join(f for f, _ in fs[i:i + n]), self.ty(fs[i][1])))
                i += n
            self.emit(ind, "fim")
        elif k == "uni":
            s["ln"] = self.emit(ind, "uniao %s" % s["n"])
            for i, (v, ts) in enumerate(s["vs"]):
                c = "," if i < len(s["vs"]) - 1 else ""
                self.emit(ind + 1, v + ("(%s)" % ", ".join(self.ty(t) for t in ts) if ts else "") + c)
            self.emit(ind, "fim")
        elif k == "raw":
            for t in s["s"].split("\n"):
                s["ln"] = self.emit(ind, t)
        else:
            raise ValueError(k)


def escaped(v, q, ml=False):
    """the body of a text literal between quotes q.  A backslash that does not begin \\n, \\' or
    \\" stands for itself, so one before the letter n or at the end cannot be written."""
    out = []
    for i, c in enumerate(v):
        if c == "\n":
            out.append("\n" if ml else "\\n")
        elif c == q or (c in "'\"" and i and v[i - 1] == "\\"):
            out.append("\\" + c)
        else:
            out.append(c)
    return "".join(out)


def quoted(v, q=None, ml=False):
    q = q or ("'" if '"' in v and "'" not in v else '"')
    return q + escaped(v, q, ml) + q


def render(prog):
    return Renderer(prog).render()


# ------------------------------------------------------------------ values
class Vec:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

class Obj:
    __slots__ = ("r", "f")
    def __init__(self, r, f): self.r, self.f = r, f

class Var:
    __slots__ = ("t", "a")
    def __init__(self, t, a): self.t, self.a = t, a


def fmt_real(x):
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "-inf" if x < 0 else "inf"
    d = Decimal(repr(x))
    up = d + (Decimal(1).scaleb(d.as_tuple().exponent)).copy_sign(d)
    exact = Decimal(x)
    if abs(up - exact) == abs(exact - d) and float(up) == x:
        d = up      # two shortest spellings equally near: the runtime takes the larger
    s = format(d, "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    if x == math.floor(x):
        return s + ".0"
    return s


def show(v):
    if v is None:
        return "nulo"
    if v is True:
        return "verdadeiro"
    if v is False:
        return "falso"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fmt_real(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Vec):
        return "[" + ", ".join(show(i) for i in v.v) + "]"
    if isinstance(v, Obj):
        return "<Instância do tipo %s>" % v.r
    raise Unshowable()


class Unshowable(Exception):
    pass


INT_RE = re.compile(r"[+-]?[0-9]+\Z")
REAL_RE = re.compile(r"[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)\Z", re.I)


def parse_int(s):
    if not INT_RE.match(s):
        return None
    v = int(s)
    return v if I64MIN <= v <= I64MAX else None


def parse_real(s):
    if not REAL_RE.match(s):
        return None
    return float(s)


def gclass(c):
    """the grapheme class of a character the generators use (UAX 29)"""
    o = ord(c)
    if 0x300 <= o <= 0x36F or o in (0xFE0F, 0x20E3) or 0x1F3FB <= o <= 0x1F3FF:
        return "ext"
    if o < 32 or o in (0xAD, 0x200B, 0x2028, 0xFEFF):
        return "ctl"
    if 0x1F1E6 <= o <= 0x1F1FF:
        return "ri"
    if 0x1F300 <= o <= 0x1F6FF or o == 0x2764:
        return "pic"
    if 0xAC00 <= o <= 0xD7A3:
        return "lv" if (o - 0xAC00) % 28 == 0 else "lvt"
    return {0x200D: "zwj", 0x93F: "mark", 0x903: "mark", 0x600: "pre", 0x1100: "l", 0x1161: "v", 0x11A8: "t"}.get(o, "x")


def graphemes(s):
    """the characters as a reader sees them: extended grapheme clusters"""
    if s.isascii():
        return list(s)
    out = []
    prev = None
    ris = 0             # regional indicators in a row before this one
    pic = False         # an emoji and what extends it come before
    for c in s:
        g = gclass(c)
        join = prev is not None and "ctl" not in (prev, g) and (
            g in ("ext", "zwj", "mark") or prev == "pre"
            or prev == "l" and g in ("l", "v", "lv", "lvt") or prev in ("lv", "v") and g in ("v", "t") or prev in ("lvt", "t") and g == "t"
            or prev == "zwj" and g == "pic" and pic or g == "ri" and prev == "ri" and ris % 2 == 1)
        if join:
            out[-1] += c
        else:
            out.append(c)
        ris = ris + 1 if g == "ri" else 0
        pic = g == "pic" or pic and g in ("ext", "zwj")
        prev = g
    return out


class RtErr(Exception):
    def __init__(self, msg): self.msg = msg; self.trace = None

class Brk(Exception): pass
class Cont(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class OutOfFuel(Exception): pass


class Frame:
    __slots__ = ("name", "mod", "scopes", "ln")
    def __init__(self, name, mod): self.name, self.mod, self.scopes, self.ln = name, mod, [], 0


class Inst:
    """a loaded module: its global names"""
    def __init__(self, name, mod): self.name, self.mod, self.g = name, mod, {}


class Result:
    pass


def to_i64(x):
    if x != x:
        return 0
    return I64MAX if x >= 9.223372036854775807e18 else I64MIN if x <= -9.223372036854775808e18 else int(x)


def away(x):
    """to the nearest whole number, halves away from zero"""
    if not math.isfinite(x) or abs(x) >= 2.0 ** 52:
        return x
    t = math.trunc(x)
    return t + math.copysign(1, x) if abs(x - t) >= 0.5 else t


def whole(f):
    return lambda x: x if not math.isfinite(x) else f(x)


def safe(f):
    def g(*a):
        try:
            return f(*a)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return g


def power(x, y):
    if x == 0.0 and y < 0:
        return math.copysign(math.inf, x) if y == math.floor(y) and y % 2 == 1 and math.isfinite(y) else math.inf
    try:
        return math.pow(x, y)
    except ValueError:
        return math.nan
    except OverflowError:
        return -math.inf if x < 0 and y % 2 == 1 else math.inf


def ln(x):
    return -math.inf if x == 0.0 else math.nan if x != x or x < 0 else math.log(x)


def fdiv(a, b):
    if b == 0.0:
        return math.nan if a == 0.0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


# the module "mat"
MAT = {
    "abs": abs, "raizqd": safe(math.sqrt), "expoente": power,
    "arredonda": lambda x: to_i64(away(x)), "piso": lambda x: to_i64(whole(math.floor)(x)), "teto": lambda x: to_i64(whole(math.ceil)(x)),
    "sen": safe(math.sin), "cos": safe(math.cos), "tan": safe(math.tan),
    "log": lambda x, b: fdiv(ln(x), ln(b)),
    "grausprad": lambda x: x * (math.pi / 180.0), "radpgraus": lambda x: x * (180.0 / math.pi),
}
MAT_INT = ("arredonda", "piso", "teto")

TNAME = {int: "int", float: "real", bool: "bool", str: "texto", Var: "uniao", type(None): "nulo"}


class Interp:
    def __init__(self, prog, inp=b"", fuel=200000, in_end_err=False):
        self.prog = prog
        self.inp = inp
        self.fuel = fuel
        self.out = []
        self.outlen = 0
        self.reqs = []        # output length when each request starts to wait
        self.reqfn = []
        self.pos = 0
        self.in_end_err = in_end_err
        self.mods = {}
        self.frames = []
        self.maxvec = 20000
        self.stats = {}

    # ---- running
    def run(self):
        r = Result()
        r.err = None
        r.fuel_out = False
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)
        try:
            self.load(self.prog["main"], [])
        except RtErr as e:
            r.err = e
        except RecursionError:
            r.fuel_out = True
        except OutOfFuel:
            r.fuel_out = True
        finally:
            sys.setrecursionlimit(limit)
        r.out = "".join(self.out)
        r.outb = r.out.encode("utf-8")
        r.reqs = self.reqs
        r.reqfn = self.reqfn
        r.pos = self.pos
        r.exit = 1 if r.err else 0
        r.fuel_used = self.fuel
        return r

    def load(self, name, path):
        if name in self.mods:
            return
        mod = self.prog["mods"][name]
        for imp in mod.get("imports", []):
            if imp["mod"] in self.prog["mods"]:
                self.load(imp["mod"], path + [name])
        inst = self.mods[name] = Inst(name, mod)
        fr = Frame("_inicio_", name)
        fr.scopes = [inst.g]
        self.frames = [fr]
        for s in mod["items"]:
            if s["k"] in ("func", "met"):
                pass
        for s in mod["items"]:
            self.ex(s, fr)

    def emit(self, s):
        self.out.append(s)
        self.outlen += len(s.encode("utf-8"))

    def fault(self, msg):
        e = RtErr(msg)
        fr = self.frames
        e.trace = [(f.ln, f.name) for f in reversed(fr[1:])]
        e.line = fr[0].ln
        e.mod = fr[0].mod
        raise e

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel()

    def chars(self, s):
        self.fuel -= len(s) >> (9 if s.isascii() else 4)
        if self.fuel < 0:
            raise OutOfFuel()
        return graphemes(s)

    # ---- input
    def readline(self, fn):
        self.reqs.append(self.outlen)
        self.reqfn.append(fn)
        i = self.inp.find(b"\n", self.pos)
        if i < 0:
            line = self.inp[self.pos:]
            self.pos = len(self.inp)
            if not line or self.in_end_err:
                self.fault(M_INPUT)
        else:
            line = self.inp[self.pos:i]
            self.pos = i + 1
        try:
            return line.decode("utf-8")
        except UnicodeDecodeError:
            self.fault(M_INPUT)

    # ---- helpers
    def arith(self, op, a, b):
        if op in ("+", "-", "*", "%"):
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
                if op == "%":
                    if b == 0.0:
                        self.fault(M_MOD0)
                    if math.isinf(a) or a != a or b != b:
                        return math.nan
                    return math.fmod(a, b)
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                return a * b
            if op == "+":
                v = a + b
            elif op == "-":
                v = a - b
            elif op == "*":
                v = a * b
            else:
                if b == 0:
                    self.fault(M_MOD0)
                if a == I64MIN and b == -1:
                    self.fault(M_OVF)
                v = abs(a) % abs(b)
                if a < 0:
                    v = -v
            if not I64MIN <= v <= I64MAX:
                self.fault(M_OVF)
            return v
        if op == "/":
            if float(b) == 0.0:
                self.fault(M_DIV0)
            try:
                return float(a) / float(b)
            except OverflowError:
                return math.inf
        if op == "//":
            if b == 0:
                self.fault(M_DIV0)
            if isinstance(a, float) or isinstance(b, float):
                try:
                    v = float(a) / float(b)
                except OverflowError:
                    v = math.inf if (a < 0) == (b < 0) else -math.inf
                return v if v != v or math.isinf(v) else math.copysign(float(math.trunc(v)), v)
            v = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                v = -v
            if not I64MIN <= v <= I64MAX:
                self.fault(M_OVF)
            return v
        raise ValueError(op)

    def binop(self, op, a, b):
        if op == "e":
            return a and b
        if op == "ou":
            return a or b
        if op in ("==", "!="):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, float) or isinstance(b, float):
                r = float(a) == float(b)
            else:
                r = a == b
            return r if op == "==" else not r
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return self.arith(op, a, b)

    @staticmethod
    def coerce(v, t):
        if t in ("real", "real?") and type(v) is int:
            return float(v)
        return v

    def ref(self, e, n, fr):
        """module and bare name of a global mentioned in frame fr"""
        if n[0] == "@":
            return n[1:].split(".")
        return e.get("m") or fr.mod, n

    def lookup(self, fr, n):
        if n[0] == "@":
            m, n = n[1:].split(".")
            return {"@%s.%s" % (m, n): self.mods[m].g[n]}
        for sc in reversed(fr.scopes):
            if n in sc:
                return sc
        g = self.mods[fr.mod].g
        if n in g:
            return g
        raise KeyError(n)

    def typeof(self, fr, n):
        return None

    def resolve_global(self, mod, n):
        """the module that owns global n seen from module `mod`"""
        return mod

    # ---- expressions
    def ev(self, e, fr):
        self.burn()
        k = e["k"]
        if k == "int":
            return e["v"]
        if k == "real":
            return float(e["s"])
        if k == "bool":
            return e["v"]
        if k == "txt":
            return e["v"]
        if k == "nulo":
            return None
        if k == "var":
            return self.lookup(fr, e["n"])[e["n"]][0]
        if k == "gv":
            if e["m"] == "mat":
                return math.pi
            return self.mods[e["m"]].g[e["n"]][0]
        if k == "alvo":
            return self.lookup(fr, "alvo")["alvo"][0]
        if k == "bin":
            if e["l"]["k"] == "nulo":
                return self.binop(e["op"], None, self.ev(e["r"], fr))
            a = self.ev(e["l"], fr)
            b = self.ev(e["r"], fr)
            return self.binop(e["op"], a, b)
        if k == "un":
            v = self.ev(e["e"], fr)
            if e["op"] == "nao":
                return not v
            if e["op"] == "+":
                return v
            if type(v) is int:
                if v == I64MIN:
                    self.fault(M_OVF)
                return -v
            return -v
        if k == "call":
            return self.call(e, fr)
        if k == "meth":
            o = self.ev(e["o"], fr)
            args = [self.ev(a, fr) for a in e["a"]]
            m, ty = self.ref(e, e["ty"], fr)
            f = self.mods[m].g[(ty, e["f"])][0]
            return self.apply(f, [o] + args, True)
        if k == "idx":
            o = self.ev(e["o"], fr)
            i = self.ev(e["i"], fr)
            if isinstance(o, str):
                if i < 0:
                    self.fault(M_SNEG)
                g = self.chars(o)
                if i >= len(g):
                    self.fault("Erro de índice inválido. O tamanho da string é %d, mas o índice é %d" % (len(g), i))
                return g[i]
            self.vcheck(o, i)
            return o.v[i]
        if k == "get":
            return self.ev(e["o"], fr).f[e["n"]]
        if k == "new":
            return self.new(e, fr)
        if k == "vecl":
            return Vec([self.coerce(self.ev(a, fr), e["t"]) for a in e["a"]])
        if k == "vecn":
            dims = [self.ev(a, fr) for a in e["a"]]
            if any(d < 0 for d in dims):
                self.fault(M_DIM)
            n = 1
            for d in dims:
                n *= max(d, 1)
            if n > self.maxvec:
                raise OutOfFuel()
            return self.mkvec(dims, e["t"])
        if k == "set":
            return self.assign(e, fr)
        if k == "cast":
            return self.cast(self.ev(e["e"], fr), e["t"], e.get("indef"))
        if k == "fstr":
            s = "".join(p if isinstance(p, str) else show(self.ev(p, fr)) for p in e["p"])
            self.fuel -= len(s) >> 9
            return s
        if k == "vari":
            m, un = self.ref(e, e["u"], fr)
            u = self.mods[m].g[un][0]
            ts = dict((v, t) for v, t in u["vs"])[e["v"]]
            args = [self.coerce(self.ev(a, fr), t) for a, t in zip(e["a"], ts)]
            return Var((m, un, e["v"]), args)
        if k == "val":
            v = self.ev(e["o"], fr)
            if v is None:
                self.fault(M_NULL)
            return v
        if k == "valou":
            v = self.ev(e["o"], fr)
            d = self.coerce(self.ev(e["d"], fr), e.get("t"))
            return d if v is None else v
        if k in ("ig", "igi"):
            return self.iguala(e, fr)
        raise ValueError(k)

    def new(self, e, fr):
        m, rn = self.ref(e, e["r"], fr)
        reg = self.mods[m].g[rn][0]
        ft = dict(reg["fs"])
        f = {}
        for n, v in e["a"]:
            f[n] = self.coerce(self.ev(v, fr), ft[n])
        for n, t in reg["fs"]:
            if n not in f:
                f[n] = None
        return Obj(reg["n"], f)

    def mkvec(self, dims, t):
        if len(dims) == 1:
            z = {"int": 0, "real": 0.0, "bool": False, "texto": ""}[t]
            return Vec([z] * dims[0])
        return Vec([self.mkvec(dims[1:], t) for _ in range(dims[0])])

    def vcheck(self, o, i):
        if i < 0:
            self.fault(M_VNEG)
        if i >= len(o.v):
            self.fault("Erro de índice inválido. O tamanho do vector é %d, mas tentou aceder o índice %d" % (len(o.v), i))

    def cast(self, v, t, indef=False):
        if t[-1] == "?":
            # an option is made of what it holds
            if v is None:
                return v
            t = t[:-1]
        if t == "indef":
            return v
        if indef:
            src = v.r if isinstance(v, Obj) else TNAME.get(type(v), "Vector")
            if src != t:
                self.fault("Conversão inválida. O tipo original do valor é '%s', mas tentou converter o valor para o tipo '%s'" % (src, t))
            return v
        if t == "texto":
            return show(v)
        if t == "int":
            if type(v) is int:
                return v
            if isinstance(v, float):
                if v != v:
                    return 0
                if v >= 9.223372036854775807e18:
                    return I64MAX
                if v <= -9.223372036854775808e18:
                    return I64MIN
                return int(v)
            r = parse_int(v)
            if r is None:
                self.fault("A sequência de caracteres '%s' não é um inteiro válido" % v)
            return r
        if t == "real":
            if isinstance(v, str):
                r = parse_real(v)
                if r is None:
                    self.fault("A sequência de caracteres '%s' não é um número real válido" % v)
                return r
            return float(v)
        if t == "bool":
            if isinstance(v, bool):
                return v
            if isinstance(v, str):
                return v != ""
            return v != 0
        raise ValueError(t)

    def call(self, e, fr):
        f = e["f"]
        if f in BUILTINS and not e.get("m"):
            args = [self.ev(a, fr) for a in e["a"]]
            if f == "anexa":
                args[1] = self.coerce(args[1], e.get("et"))
            return self.builtin(f, args)
        args = [self.ev(a, fr) for a in e["a"]]
        if e.get("m") == "mat":
            return MAT[f](*[float(a) for a in args])
        m, f = self.ref(e, f, fr)
        fn = self.mods[m].g[f][0]
        return self.apply(fn, args, False)

    def apply(self, fn, args, is_met):
        if len(self.frames) >= RECURSION_LIMIT:
            self.fault(M_REC)
        decl, mod = fn
        nf = Frame(decl["n"], mod)
        sc = {}
        ps = decl["ps"]
        if is_met:
            sc["alvo"] = [args[0], decl["ty"]]
            args = args[1:]
        for (n, t), v in zip(ps, args):
            sc[n] = [self.coerce(v, t), t]
        nf.scopes = [sc]
        nf.ln = decl["ln"]
        self.frames.append(nf)
        try:
            for s in decl["b"]:
                self.ex(s, nf)
            r = None
        except Ret as x:
            r = self.coerce(x.v, decl.get("rt"))
        self.frames.pop()
        return r

    def builtin(self, f, a):
        if f == "escreva":
            self.emit(show(a[0])); return None
        if f == "escrevaln":
            self.emit(show(a[0]) + "\n"); return None
        if f.startswith("leia"):
            self.emit(show(a[0]))
            s = self.readline(f)
            if f == "leia":
                return s
            if f == "leia_int":
                v = parse_int(s)
                if v is None:
                    self.fault(M_LINT)
                return v
            v = parse_real(s)
            if v is None:
                self.fault(M_LREAL)
            return v
        if f == "tam":
            return len(self.chars(a[0])) if isinstance(a[0], str) else len(a[0].v)
        if f == "anexa":
            if len(a[0].v) > self.maxvec:
                raise OutOfFuel()
            a[0].v.append(a[1]); return None
        if f == "remova":
            self.vcheck(a[0], a[1])
            return a[0].v.pop(a[1])
        if f == "txt_contem":
            return a[1] in a[0]
        raise ValueError(f)

    # ---- patterns
    def match(self, p, v, b, fr):
        k = p["k"]
        if k == "w":
            return True
        if k == "b":
            b[p["n"]] = v
            return True
        if k in ("i", "s", "bo"):
            return v == p["v"]
        if k == "c":
            m, un = self.ref(p, p["u"], fr)
            if v.t != (m, un, p["v"]):
                return False
            return all(self.match(q, x, b, fr) for q, x in zip(p["a"], v.a))
        raise ValueError(k)

    def iguala(self, e, fr):
        if e["k"] != "igi":
            fr.ln = e.get("ln", fr.ln)
        v = self.ev(e["e"], fr)
        for arm in e["arms"]:
            b = {}
            if not self.match(arm["p"], v, b, fr):
                continue
            self.stats["arm"] = self.stats.get("arm", 0) + 1
            fr.scopes.append({n: [x, None] for n, x in b.items()})
            depth = len(fr.scopes)
            try:
                fr.ln = arm.get("ln", fr.ln)
                if "x" in arm:
                    return self.ev(arm["x"], fr)
                fr.scopes.append({})
                for s in arm["b"]:
                    self.ex(s, fr)
                if arm.get("y") is not None:
                    fr.ln = arm["yln"]
                    return self.ev(arm["y"], fr)
                return None
            finally:
                del fr.scopes[depth - 1:]
        return None

    # ---- statements
    def block(self, b, fr, pre=None):
        fr.scopes.append(pre or {})
        depth = len(fr.scopes)
        try:
            for s in b:
                self.ex(s, fr)
        finally:
            del fr.scopes[depth - 1:]

    def ex(self, s, fr):
        self.burn()
        k = s["k"]
        if k in ("func", "met"):
            g = self.mods[fr.mod].g
            g[(s["ty"], s["n"]) if k == "met" else s["n"]] = [(s, fr.mod), None]
            return
        if k in ("reg", "uni"):
            self.mods[fr.mod].g[s["n"]] = [s, None]
            return
        fr.ln = (s["ln"], s["lz"]) if "lz" in s else s["ln"]
        if k == "mdecl":
            for n in s["ns"]:
                fr.scopes[-1][n] = [{"int": 0, "real": 0.0, "bool": False, "texto": ""}.get(s["t"]), s["t"]]
        elif k == "decl":
            if s.get("e") is None:
                v = {"int": 0, "real": 0.0, "bool": False, "texto": ""}.get(s["t"])
            else:
                v = self.ev(s["e"], fr)
            fr.scopes[-1][s["n"]] = [self.coerce(v, s["t"]), s["t"]]
        elif k == "set":
            self.assign(s, fr)
        elif k == "ex":
            self.ev(s["e"], fr)
        elif k == "mo":
            self.emit(show(self.ev(s["e"], fr)) + "\n")
        elif k == "se":
            if self.ev(s["c"], fr):
                return self.block(s["b"], fr)
            for b in s["ei"]:
                fr.ln = b["ln"]
                if self.ev(b["c"], fr):
                    return self.block(b["b"], fr)
            if s["el"] is not None:
                self.block(s["el"], fr)
        elif k == "enq":
            while True:
                fr.ln = s["ln"]
                if not self.ev(s["c"], fr):
                    break
                try:
                    self.block(s["b"], fr)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "para":
            fr.scopes.append({s["v"]: [self.ev(s["a"], fr), "int"]})
            depth = len(fr.scopes)
            try:
                while True:
                    fr.ln = s["ln"]
                    cell = fr.scopes[depth - 1][s["v"]]
                    if not cell[0] < self.ev(s["z"], fr):
                        break
                    try:
                        self.block(s["b"], fr)
                    except Brk:
                        break
                    except Cont:
                        pass
                    fr.ln = s["ln"]
                    inc = 1 if s.get("inc") is None else self.ev(s["inc"], fr)
                    cell = fr.scopes[depth - 1][s["v"]]
                    cell[0] = self.arith("+", inc, cell[0])
            finally:
                del fr.scopes[depth - 1:]
        elif k == "quebra":
            raise Brk()
        elif k == "continua":
            raise Cont()
        elif k == "ret":
            raise Ret(None if s.get("e") is None else self.ev(s["e"], fr))
        elif k == "esc":
            v = self.ev(s["e"], fr)
            for c in s["cs"]:
                fr.ln = s["ln"]
                if v == self.ev(c["x"], fr):
                    return self.block(c["b"], fr)
            if s["el"] is not None:
                self.block(s["el"], fr)
        elif k == "igs":
            self.iguala(s, fr)
        elif k == "seig":
            v = self.ev(s["e"], fr)
            b = {}
            if self.match(s["p"], v, b, fr):
                self.block(s["b"], fr, {n: [x, None] for n, x in b.items()})
            elif s["el"] is not None:
                self.block(s["el"], fr)
        elif k == "raw":
            pass
        else:
            raise ValueError(k)

    def assign(self, s, fr):
        t, op = s["t"], s["op"]
        tt = s.get("ty")
        if t["k"] in ("var", "gv"):
            if t["k"] == "gv":
                cell = self.mods[t["m"]].g[t["n"]]
            else:
                cell = None
            if op == "=":
                v = self.ev(s["e"], fr)
                cell = cell or self.lookup(fr, t["n"])[t["n"]]
            else:
                old = (cell or self.lookup(fr, t["n"])[t["n"]])[0]
                v = self.ev(s["e"], fr)
                v = self.arith(op[0], old, v)
                cell = cell or self.lookup(fr, t["n"])[t["n"]]
            v = cell[0] = self.coerce(v, cell[1])
        elif t["k"] == "idx":
            o = self.ev(t["o"], fr)
            i = self.ev(t["i"], fr)
            if op == "=":
                v = self.ev(s["e"], fr)
                self.vcheck(o, i)
            else:
                self.vcheck(o, i)
                old = o.v[i]
                v = self.arith(op[0], old, self.ev(s["e"], fr))
                self.vcheck(o, i)
            v = o.v[i] = self.coerce(v, tt)
        elif t["k"] == "get":
            o = self.ev(t["o"], fr)
            if op == "=":
                v = self.ev(s["e"], fr)
            else:
                old = o.f[t["n"]]
                v = self.arith(op[0], old, self.ev(s["e"], fr))
            v = o.f[t["n"]] = self.coerce(v, tt)
        else:
            raise ValueError(t["k"])
        return v

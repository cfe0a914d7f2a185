"""How the names of a program are spelt: a style for the whole of it."""
import re
WORDS = ["se", "fim", "nulo", "int", "para", "e", "ou", "nao", "verdadeiro", "caso", "alvo", "texto", "real", "retorna", "faca", "func", "de", "met", "usa", "vec", "f", "inc"]
MARKS = ["ção", "é", "ß", "数", "Ω", "ñ", "ﬁ", "fi", "Ⅷ", "𝒳", "İ", "i", "ı", "I", "x²", "٣", "Ж", "ж", "ª", "ÿ"]


def style(rng, keep=False):
    """a function (prefix, number) -> name; keep: the name starts with the prefix"""
    k = rng.choice(["plain"] * 12 + ["marks", "words", "case", "under", "long", "grow"])
    m = rng.choice(MARKS)
    long = "muito_longo_" * rng.choice([3, 8, 25])
    w = rng.choice(WORDS)

    def name(p, n):
        if k == "marks":
            return "%s%s%d" % (p, m if n % 3 else MARKS[n % len(MARKS)] + "_", n)
        if k == "words":
            return "%s%s%d" % (p if keep else "", w + "_" * (p != "v"), n) if keep else "%s%s%d" % (w, p, n)
        if k == "case":
            return "%s%s%d" % (p, "n" if n % 2 else "N", n // 2) + ("" if n % 4 < 2 else "K")
        if k == "under":
            return "%s%s%d%s" % (p if keep else "_" + p, "_" * (n % 3), n, "_" * (n % 4))
        if k == "long":
            return "%s%s%d" % (p, long, n)
        if k == "grow" and n < 60:
            return "%s%s" % (p, "o" * n)
        return "%s%d" % (p, n)
    return name





def words_in(x, out, key=None):
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "k":
                words_in(v, out, k)
    elif isinstance(x, list):
        for v in x:
            words_in(v, out)
    elif isinstance(x, str):
        out.append(x)
    return out


def respell(x, old, new):
    """every use of a variable's name, with the type names and texts left alone"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "n" and v == old and x.get("k") in ("var", "decl", "b", None) or k == "v" and v == old and x.get("k") == "para":
                x[k] = new
            else:
                respell(v, old, new)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if v == old:
                x[i] = new
            else:
                respell(v, old, new)


def like_types(rng, prog):
    """parameters with the names of types that the bodies of their functions do not mention"""
    for mod in prog["mods"].values():
        for d in mod["items"]:
            if d["k"] not in ("func", "met") or not d["ps"] or rng.random() < 0.4:
                continue
            p = rng.choice(d["ps"])
            said = words_in(d["b"], [])
            hints = [w for w in said if not w.isalnum()] + said
            free = [t for t in ("int", "real", "texto", "bool", "indef") if not any(re.search(r"\b%s\b" % t, w) for w in hints)
                    and all(q[0] != t for q in d["ps"])]
            if not free:
                continue
            t = rng.choice(free)
            old, p[0] = p[0], t
            respell(d["b"], old, t)
    return prog


def like_globals(rng, prog):
    """parameters and variables of functions with the names of variables of the module that they do not use"""
    tops = {d["n"] for mod in prog["mods"].values() for d in mod["items"] if isinstance(d.get("n"), str)}
    for mod in prog["mods"].values():
        there = [d["n"] for d in mod["items"] if d["k"] == "decl"]
        if not there:
            continue
        for d in mod["items"]:
            if d["k"] not in ("func", "met") or rng.random() < 0.3:
                continue
            said = set(re.findall(r"\w+", " ".join(words_in(d["b"], []) + [q[0] for q in d["ps"]])))
            free = [n for n in there if n not in said]
            if not free:
                continue
            new = rng.choice(free)
            own = [s for s in d["b"] if s["k"] == "decl" and s["n"] not in tops]
            if d["ps"] and (not own or rng.random() < 0.7):
                p = rng.choice(d["ps"])
                old, p[0] = p[0], new
                respell(d["b"], old, new)
            elif own:
                respell(d["b"], rng.choice(own)["n"], new)
    return prog

"""A program of any kind: valid, failing at run time, refused for any reason, damaged."""
import choose
import damage
import effects
import gen
import graphs
import inject
import lang
import misuse
import rare
import shapes
import wrongs
from core import b64, programs, unb64


def valid(rng, **over):
    """(program, input) of a random generator"""
    x = rng.random()
    if x < 0.5:
        return programs(rng, multi=0.3, top=rng.choice([3, 5]), input=rng.choice([0.05, 0.3]), **over)
    if x < 0.6:
        return graphs.init_program(rng)[1], b""
    if x < 0.7:
        g = graphs.state_program(rng, False)
        return g and (g[1], b"")
    if x < 0.8:
        return shapes.Heap(rng).program(), b""
    if x < 0.88:
        return shapes.Calls(rng).program(), b""
    if x < 0.94:
        return effects.program(rng), b""
    return choose.Choose(rng).program(), b""


def faulting(rng):
    """(program, input) that ends in a run-time error, most of the time"""
    x = rng.random()
    g = programs(rng, multi=0.25, input=0.1, depth=3, top=5)
    if not g:
        return None
    p, inp = g
    if x < 0.6:
        p = inject.plant(rng, p)
        inp, r = gen.answer(p, rng, 30000)
        return None if inp is None else (p, inp)
    if x < 0.8:
        r = lang.Interp(p, inp, 60000).run()
        bad = inject.bad_input(rng, r.reqfn, inp)
        return (p, bad) if bad is not None else (p, inp)
    return programs(rng, multi=0.15, valid=False, faulty=6.0, big=0.15, edepth=4)


def reachable(p):
    seen, todo = [], [p["main"]]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.append(m)
            todo += [i["mod"] for i in p["mods"][m].get("imports", []) if i["mod"] in p["mods"]]
    return seen


def refused(rng):
    """(program, input) that breaks a rule of the language"""
    g = valid(rng) if rng.random() < 0.8 else (choose.Choose(rng).program(), b"")
    if not g:
        return None
    p, inp = g
    lang.render(p)
    m = rng.choice(reachable(p))
    w = wrongs.plant(rng, p, m) if rng.random() < 0.4 else misuse.spoil(rng, p, m)
    return w and (w[0], inp)


def damaged(rng):
    """(files, input)"""
    files = {"main.ama": damage.damaged(rng)}
    if rng.random() < 0.3 or b'"mod/' in files["main.ama"]:
        if rng.random() < 0.5:
            files["main.ama"] = rng.choice([b'usa "mod/a"\n', b'usa "mod/a" => zz\nmostra 1\n', b'usa "mod/a" => [x, f]\n', b'usa "mod/a" => [x, nada]\n', b'usa "mod/a" => zz\nmostra zz.nada\n',
                                           b'usa "mod/a" => zz\nq: zz::nada = 1\n', b'usa "mod/nada"\n', b'usa "main.ama"\n']) + files["main.ama"]
        for m in "abc":
            if rng.random() < 0.8:
                files["mod/%s.ama" % m] = rng.choice([b"x: int = 3\nfunc f(a: int): int\n    retorna a + x\nfim\n"] * 2 + [b'usa "mod/b"\n', b'usa "mod/a"\n', b'usa "main"\n'] + [damage.damaged(rng)] * 2)
    return texts(files), rng.choice([b"", b"1\n2\nx\n", b"12\n" * 20])


def texts(files):
    out = {}
    for k, v in files.items():
        try:
            out[k] = v.decode("utf-8")
        except UnicodeDecodeError:
            out[k] = {"b64": b64(v)}
    return out


def draw(rng, weights=None):
    """a scenario part {kind, prog | files, inp}"""
    w = weights or {"valid": 30, "faulting": 20, "refused": 25, "damaged": 15, "rare": 10}
    kind = rng.choices(list(w), list(w.values()))[0]
    if kind == "rare":
        files, inp = rare.text(rng)
        return {"kind": kind, "files": files, "inp": b64(inp)}
    if kind == "damaged":
        files, inp = damaged(rng)
        return {"kind": kind, "files": files, "inp": b64(inp)}
    for _ in range(4):
        g = {"valid": valid, "faulting": faulting, "refused": refused}[kind](rng)
        if g:
            return {"kind": kind, "prog": g[0], "inp": b64(g[1])}
    return None


def files_of(sc):
    """the sources of a drawn program, and its main file"""
    if "prog" in sc:
        return lang.render(sc["prog"]), sc["prog"]["mods"][sc["prog"]["main"]]["path"]
    return sc["files"], "main.ama"


__all__ = ["draw", "files_of", "valid", "faulting", "refused", "damaged", "unb64"]

"""Programs whose point is the graph of their modules."""
from gen import I, T, V, bin_, call, decl, ex, func, mo, para, ret, se, set_


def written(rng, path):
    """a spelling of a module's path in an import"""
    p = path if rng.random() < 0.5 else path[:-4]
    d = p.split("/")
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i = rng.randrange(len(d))
        x = rng.random()
        if x < 0.4:
            d.insert(i, ".")
        elif i < len(d) - 1 and d[i] not in ("", ".", ".."):
            d[i:i] = [d[i], ".."]
        else:
            d[i:i] = [""] if i else ["."]
    return "/".join(d)


class Graph:
    """modules that announce themselves, with what they can see of each other"""
    def __init__(self, rng, n=None, same=False, mat=0.15):
        self.r = rng
        self.n = n or rng.randrange(2, 11)
        self.names = ["m%d" % i for i in range(1, self.n)] + ["main"]
        self.paths = {}
        for m in self.names[:-1]:
            self.paths[m] = rng.choice(["%s.ama", "%s.ama", "d/%s.ama", "d/e/%s.ama", "outro/%s.ama", "d.ama/%s.ama"]) % m
        if same and rng.random() < 0.5:     # one file name in different directories
            for m in self.names[:-1]:
                self.paths[m] = "%s/mod.ama" % m
        elif rng.random() < 0.3:            # names that need care
            for m in self.names[:-1]:
                if rng.random() < 0.6:
                    self.paths[m] = rng.choice(["it's/%s.ama", "%s'.ama", "'%s'.ama", '"%s".ama', '%s "x".ama', "ama/%s.ama", "%s.x.ama", "%s.Ama.ama", "a b/%s .ama", "{%s}.ama", "%s#.ama", "%s;.ama",
                                                "=> %s.ama", "-%s.ama", "%s/fim.ama", ".%s.ama", "%s..ama", "%s/.ama/x.ama", "[%s].ama", "$%s.ama", "%s*.ama"]) % m
            if rng.random() < 0.5:
                self.paths[rng.choice(self.names)] = rng.choice(["ama.ama", "x/ama.ama", "main/ama.ama"])
        self.paths["main"] = rng.choice(["main.ama", "main.ama", "d/main.ama"])
        self.same = same
        self.deps, self.imports, self.vis = {}, {}, {}
        self.nal = 0
        shape = rng.choice(["random", "chain", "diamond", "star", "layers", "random"])
        for i, m in enumerate(self.names):
            before = self.names[:i]
            if shape == "chain":
                d = before[-1:] + rng.sample(before[:-1], min(len(before[:-1]), rng.choice([0, 0, 1])))
            elif shape == "diamond":
                d = before[:1] if m != "main" else before
            elif shape == "star":
                d = before if m == "main" else []
            elif shape == "layers":
                k = i // 3 * 3
                d = [x for x in before[max(0, k - 3):k] if rng.random() < 0.7] if m != "main" else before[-3:]
            else:
                d = rng.sample(before, min(i, rng.choice([0, 1, 1, 2, 3, 4])))
                if m == "main" and not d and before:
                    d = before[-1:]
            d = list(d)
            rng.shuffle(d)
            self.deps[m] = d
        # unused modules stay as files nobody imports
        for m in self.names:
            self.make_imports(m)

    def var(self, m):
        return "v" if self.same else "v_" + m

    def fn(self, m):
        return "f" if self.same else "f_" + m

    def reg(self, m):
        return "R" if self.same else "R_" + m

    def make_imports(self, m):
        r = self.r
        out, see = [], {}
        vis = []
        for d in self.deps[m]:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                form = r.choice(["alias", "list", "global"]) if not self.same else "alias"
                w = written(r, self.paths[d])
                if form == "alias":
                    self.nal += 1
                    out.append({"mod": d, "form": "alias", "as": w, "alias": "q%d" % self.nal})
                    see[d] = ["alias"]
                elif form == "list":
                    names = [x for x in (self.var(d), self.fn(d), self.reg(d)) if r.random() < 0.7]
                    if not names:
                        continue
                    out.append({"mod": d, "form": "list", "as": w, "names": names})
                    see.setdefault(d, []).extend(names)
                else:
                    out.append({"mod": d, "form": "global", "as": w})
                    for k in [d] + self.vis.get(d, []):
                        if k not in vis:
                            vis.append(k)
                        see.setdefault(k, []).append("global")
        if not out and self.deps[m]:
            d = self.deps[m][0]
            self.nal += 1
            out.append({"mod": d, "form": "alias", "as": written(r, self.paths[d]), "alias": "q%d" % self.nal})
            see[d] = ["alias"]
        self.imports[m], self.vis[m] = out, vis
        self.deps[m] = sorted({i["mod"] for i in out}, key=lambda x: [i["mod"] for i in out].index(x))
        self.see = getattr(self, "see", {})
        self.see[m] = {d: how for d, how in see.items() if d in vis or any(i["mod"] == d for i in out)}

    def can(self, m, d, name):
        how = self.see[m].get(d, ())
        return "alias" in how or "global" in how or d in self.vis[m] or name in how

    def readable(self, m):
        return [d for d in self.see[m] if self.can(m, d, self.var(d))]

    def callable(self, m):
        return [d for d in self.see[m] if self.can(m, d, self.fn(d))]

    def program(self, body):
        mods = {}
        for m in self.names:
            mods[m] = {"path": self.paths[m], "imports": self.imports[m], "items": body(m), "vis": self.vis[m]}
        return {"main": "main", "mods": mods}


def gv(m, n):
    return {"k": "gv", "m": m, "n": n}


def init_program(rng):
    """every module shows when it starts, what it then sees of the others, and when it ends"""
    g = Graph(rng)
    fault = rng.choice(g.names) if rng.random() < 0.08 else None
    reader = set(rng.sample(g.names, min(len(g.names), rng.choice([0, 0, 0, 1, 2]))))

    def body(m):
        b = [mo(T("=> " + m))]
        if m in reader:
            b.append(decl("lido_" + m, "texto", call("leia", T("? "))))
        e = I(rng.randrange(10))
        for d in g.readable(m)[:3]:
            if rng.random() < 0.7:
                e = bin_("+", e, gv(d, g.var(d)))
        for d in g.callable(m)[:2]:
            if rng.random() < 0.5:
                e = bin_("+", e, call(g.fn(d), I(rng.randrange(5)), m=d))
        b.append(decl(g.var(m), "int", e))
        b.append({"k": "reg", "n": g.reg(m), "fs": [["c", "int"]]})
        b.append(func(g.fn(m), [["p", "int"]], "int", ([mo(T("em " + m))] if rng.random() < 0.4 else []) + [set_(V(g.var(m)), V("p"), "+="), ret(V(g.var(m)))]))
        for d in g.readable(m):
            if rng.random() < 0.5:
                b.append(mo(gv(d, g.var(d))))
        if m == fault:
            b.append(mo(bin_("//", I(1), bin_("-", V(g.var(m)), V(g.var(m))))))
        if rng.random() < 0.6:
            b.append(mo(T("fim " + m)))
        return b
    return g, g.program(body)


def state_program(rng, extwrite=False):
    """stateful modules with equal or different names, driven by histories of calls through every route"""
    g = Graph(rng, n=rng.choice([2, 3, 3, 4, 5, 6]), same=rng.random() < 0.5)
    r = rng
    nm = (lambda base, m: base) if g.same else (lambda base, m: "%s_%s" % (base, m))
    table = {}                  # module -> functions others may call: (name, [param types], return type)
    names = {}

    def see_all(m, d, name):
        return g.can(m, d, name)

    # names the list imports take must exist: v, f, R of Graph plus what follows
    def body(m):
        v, f, R = g.var(m), g.fn(m), g.reg(m)
        w, o = nm("w", m), nm("o", m)
        deps = [d for d in g.see[m] if d in table]
        cnt = [0]

        def dep_calls():
            out = []
            for d in deps:
                for fn, ts, rt in table[d]:
                    if see_all(m, d, fn):
                        out.append((d, fn, ts, rt))
            return out

        def reads():
            out = [V(v), {"k": "idx", "o": V(w), "i": I(0)}, {"k": "get", "o": V(o), "n": "c"}, call("tam", V(w))]
            for d in deps:
                if see_all(m, d, g.var(d)):
                    out += [gv(d, g.var(d))] * 2
                for n, e in (("w", lambda x: {"k": "idx", "o": x, "i": I(0)}), ("o", lambda x: {"k": "get", "o": x, "n": "c"})):
                    if see_all(m, d, nm(n, d)):
                        out.append(e(gv(d, nm(n, d))))
            return out

        def ex_int(depth=2, loc=()):
            x = r.random()
            if depth <= 0 or x < 0.25:
                return I(r.randrange(-3, 12))
            if x < 0.35 and loc:
                return V(r.choice(loc))
            if x < 0.6:
                return r.choice(reads())
            if x < 0.8:
                cs = [c for c in dep_calls() if c[3] == "int"] + [(None,) + c for c in mine if c[2] == "int"]
                if cs:
                    d, fn, ts, _ = r.choice(cs)
                    return call(fn, *[ex_int(0, loc) for _ in ts], m=d)
            return bin_(r.choice("+-"), ex_int(depth - 1, loc), ex_int(depth - 1, loc))

        def st(loc=()):
            x = r.random()
            small = lambda e: bin_("%", e, I(r.choice([97, 1009])))
            if x < 0.3:
                return [set_(V(v), small(ex_int(2, loc)), r.choice(["=", "+=", "-="]))]
            if x < 0.42:
                return [set_({"k": "idx", "o": V(w), "i": I(0)}, small(ex_int(1, loc)), r.choice(["=", "+="]), "int")]
            if x < 0.52:
                return [set_({"k": "get", "o": V(o), "n": "c"}, small(ex_int(1, loc)), r.choice(["=", "+="]), "int")]
            if x < 0.6:
                return [{"k": "ex", "e": call("anexa", V(w), small(ex_int(1, loc)))}]
            if x < 0.66:
                return [{"k": "ex", "e": {"k": "meth", "o": V(o), "ty": R, "f": "sobe", "a": [small(ex_int(1, loc))]}}]
            if x < 0.7:
                return [mo(ex_int(1, loc))]
            if x < 0.8:
                objs = [d for d in deps if see_all(m, d, nm("o", d))]
                if objs:
                    d = r.choice(objs)
                    return [{"k": "ex", "e": {"k": "meth", "o": gv(d, nm("o", d)), "ty": g.reg(d), "m": d, "f": "sobe", "a": [small(ex_int(1, loc))]}}]
            if x < 0.85:
                regs = [d for d in deps if see_all(m, d, g.reg(d))]
                if regs:
                    d = r.choice(regs)
                    new = {"k": "new", "m": d, "r": g.reg(d), "a": [["c", small(ex_int(1, loc))], ["d", I(1)]]}
                    return [mo({"k": "meth", "o": new, "ty": g.reg(d), "m": d, "f": "sobe", "a": [I(1)]})] if r.random() < 0.5 else [mo({"k": "get", "o": new, "n": "c"})]
            cs = dep_calls()
            if cs:
                d, fn, ts, _ = r.choice(cs)
                return [{"k": "ex", "e": call(fn, *[small(ex_int(1, loc)) for _ in ts], m=d)}]
            return [set_(V(v), I(1), "+=")]

        mine = []
        b = [decl(v, "int", I(r.randrange(20))),
             {"k": "reg", "n": R, "fs": [["c", "int"], ["d", "int"]]},
             decl(w, "[int]", {"k": "vecl", "t": "int", "a": [I(r.randrange(9)) for _ in range(r.choice([1, 2, 3]))]}),
             decl(o, R, {"k": "new", "r": R, "a": [["c", I(r.randrange(9))], ["d", I(7)]]}),
             {"k": "met", "ty": R, "n": "sobe", "ps": [["p", "int"]], "rt": "int",
              "b": [set_({"k": "get", "o": {"k": "alvo"}, "n": "c"}, V("p"), "+=", "int"), set_(V(v), I(1), "+="), ret({"k": "get", "o": {"k": "alvo"}, "n": "c"})]}]
        b.insert(0, mo(T("=> " + m)))
        for k in range(r.choice([2, 3, 4])):
            n = f if k == 0 else nm("g%d" % k, m)
            ps = [["p%d" % j, "int"] for j in range(r.choice([0, 1, 1, 2]))] if k else [["p0", "int"]]
            loc = [q[0] for q in ps]
            bb = []
            if r.random() < 0.3:        # a local with the name another module gives to a global
                ln = g.var(r.choice(g.names))
                if ln != v and ln not in loc:
                    bb.append(decl(ln + "_l" if g.same else ln, "int", ex_int(1, loc)))
                    if not g.same:
                        hide = ln
                        bb[-1]["n"] = "l" + str(k)
                    loc.append(bb[-1]["n"])
            for _ in range(r.choice([1, 2, 3])):
                bb += st(loc)
            rt = "int" if k == 0 or r.random() < 0.7 else None
            if rt:
                bb.append(ret(ex_int(1, loc)))
            b.append(func(n, ps, rt, bb))
            mine.append((n, ["int"] * len(ps), rt))
        table[m] = mine
        hist = []
        small = lambda e: bin_("%", e, I(97))
        for _ in range(r.choice([0, 1, 3]) if m != "main" else r.randrange(4, 16)):
            hist += st()
            if r.random() < 0.6:
                hist.append(mo(r.choice(reads())))
        if r.random() < 0.2:            # the state is reached from far down a chain of calls
            dn = nm("desce", m)
            b.append(func(dn, [["n0", "int"]], None,
                          [se(bin_(">", V("n0"), I(0)), [ex(call(dn, bin_("-", V("n0"), I(1))))], [s for _ in range(r.choice([1, 2, 3])) for s in st(["n0"])]),
                           *([se(bin_("==", bin_("%", V("n0"), I(64)), I(3)), st(["n0"]))] if r.random() < 0.5 else [])]))
            for _ in range(r.choice([1, 2])):
                n = r.choice([3, 60, r.randrange(120, 130), r.randrange(246, 258), r.randrange(246, 258), r.randrange(505, 515), 900, r.randrange(960, 1003)])
                hist.insert(r.randrange(len(hist) + 1), ex(call(dn, I(n))))
            if m != "main":
                for e in reads()[:3]:
                    hist.append(mo(e))
        if m == "main" and r.random() < 0.5:
            hist = [para("i", I(0), I(r.choice([2, 3])), hist)]
        b += hist
        if m == "main":
            for e in reads():
                b.append(mo(e))
        return b
    p = g.program(body)
    if extwrite:
        ok = [(m, d) for m in g.names for d in g.readable(m) if m != d]
        ok = [x for x in ok if x[0] == "main" or True]
        if not ok:
            return None
        m, d = r.choice(ok)
        s = r.choice([set_(gv(d, g.var(d)), I(3)), set_(gv(d, g.var(d)), I(3), r.choice(["+=", "-="]))])
        s["ext"] = [m, d]
        items = p["mods"][m]["items"]
        fs = [x for x in items if x["k"] == "func"]
        if fs and r.random() < 0.5:
            r.choice(fs)["b"].insert(0, s)
        else:
            items.insert(r.randrange(1, len(items) + 1), s)
    return g, p

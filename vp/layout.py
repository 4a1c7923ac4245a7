"""Random storage layouts (numbers, records, generic records, arrays, nested) and programs that touch one place of them.
Nothing here knows where a field lies: a program reads every number of the layout, performs one operation, and reads every
number again; what it must read is given by ``expect``."""
import random

NUM = ("num",)

PRELUDE = "from typing import Any\n"


def size(t):
    return 1 if t[0] == "num" else sum(size(x) for _, x in t[2]) if t[0] == "rec" else size(t[1]) * t[2]


def leaves(t, path=""):
    """the paths of the numbers of a value"""
    if t[0] == "num":
        return [path]
    if t[0] == "rec":
        return [p for f, x in t[2] for p in leaves(x, f"{path}.{f}")]
    return [p for i in range(t[2]) for p in leaves(t[1], f"{path}[{i}]")]


def nodes(t, path=""):
    """(path, type) of a value and all its parts"""
    res = [(path, t)]
    if t[0] == "rec":
        for f, x in t[2]:
            res += nodes(x, f"{path}.{f}")
    elif t[0] == "arr":
        for i in range(t[2]):
            res += nodes(t[1], f"{path}[{i}]")
    return res


def name(t):
    return "float" if t[0] == "num" else t[1] if t[0] == "rec" else f"Array[{name(t[1])}, {t[2]}]"


def ctor(t, k):
    """source building a value from input cells k, k + 1, ... in the order of ``leaves``"""
    if t[0] == "num":
        return f"inp({k})"
    parts = []
    for x in ([x for _, x in t[2]] if t[0] == "rec" else [t[1]] * t[2]):
        parts.append(ctor(x, k))
        k += size(x)
    if t[0] == "rec":
        return f"{t[1]}({', '.join(f'{f}={p}' for (f, _), p in zip(t[2], parts))})"
    return f"{name(t)}({', '.join(parts)})"


class Types:
    def __init__(self, r):
        self.r = r
        self.src = []
        self.recs = []
        self.gens = []
        for i in range(r.randint(1, 2)):
            fs = [(f, r.choice("TU")) for f in "uvw"[:r.randint(1, 3)]]
            if {x for _, x in fs} != {"T", "U"}:
                fs = [("u", "U"), ("v", "T"), ("w", "U")]
            n = f"H{i}"
            self.src.append(f"class {n}[T, U](Record):\n" + "".join(f"    {f}: {x}\n" for f, x in fs))
            self.gens.append((n, fs))
        for i in range(r.randint(2, 4)):
            n = f"R{i}"
            fs = [(f, self.pick(2)) for f in "abcd"[:r.randint(1, 4)]]
            self.src.append(f"class {n}(Record):\n" + "".join(f"    {f}: {name(x)}\n" for f, x in fs))
            self.recs.append(("rec", n, fs))

    def pick(self, depth):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.3:
            return NUM
        if k < 0.55 and self.recs:
            return r.choice(self.recs)
        if k < 0.75 and self.gens:
            n, fs = r.choice(self.gens)
            t, u = self.pick(depth - 1), self.pick(depth - 1)
            if size(t) + size(u) > 10:
                return NUM
            return ("rec", f"{n}[{name(t)}, {name(u)}]", [(f, t if x == "T" else u) for f, x in fs])
        t = self.pick(depth - 1)
        return ("arr", t, r.randint(1, max(1, min(4, 8 // max(1, size(t))))))

    def some(self, limit):
        """a list of types whose sizes sum up to at most ``limit``"""
        res, left = [], limit
        for _ in range(self.r.randint(2, 5)):
            t = self.pick(3)
            if size(t) <= left:
                res.append(t)
                left -= size(t)
        if left and self.r.random() < 0.4:
            res.append(("arr", NUM, left))      # exactly full
        return res


class Layout:
    """roots: (expression, type, may be assigned as a whole)"""

    def __init__(self, seed, kind):
        self.r = r = random.Random(f"layout/{seed}/{kind}")
        self.kind = kind
        self.seed = seed
        self.mode = r.choice({"memory": ["PLAY", "WATCH", "TUTORIAL"], "data": ["PLAY", "WATCH", "TUTORIAL", "PREVIEW"], "local": ["PLAY"]}.get(kind, ["PLAY", "WATCH"]))
        self.ty = ty = Types(r)
        self.body0 = []
        self.roots = []
        decl = []
        if kind in ("memory", "data"):
            deco = f"level_{kind}"
            for g in range(r.randint(1, 3)):
                if r.random() < 0.6:
                    ts = ty.some(12)
                    fs = [(f"f{i}", t) for i, t in enumerate(ts)]
                    r.shuffle(fs)
                    decl.append(f"@{deco}\nclass G{g}:\n" + "".join(f"    {f}: {name(t)}\n" for f, t in fs) + ("    pass\n" if not fs else ""))
                    self.roots += [(f"G{g}.{f}", t, True) for f, t in fs]
                else:
                    t = ty.pick(3)
                    if t is NUM:
                        t = ("arr", NUM, 3)
                    decl.append(f"g{g} = {deco}({name(t)})\n")
                    self.roots.append((f"g{g}", t, False))
        elif kind in ("self", "ref"):
            base = {"PLAY": "PlayArchetype", "WATCH": "WatchArchetype"}[self.mode]
            stores = {"imported": 32, "shared_memory": 32, "entity_memory": 64} if kind == "self" else {"imported": 32, "shared_memory": 32}
            fs = []
            for s, lim in stores.items():
                for t in ty.some(r.choice([6, 14, lim])):
                    fs.append((s if s != "imported" or r.random() < 0.7 else "entity_data", t))
            r.shuffle(fs)
            fs = [(f"f{i}", s, t) for i, (s, t) in enumerate(fs)]
            cut = r.choice([0, 0, len(fs) // 2, len(fs)])
            self.fields = fs

            def klass(n, b, xs):
                return f"class {n}({b}):\n" + "".join(f"    {f}: {name(t)} = {s}()\n" for f, s, t in xs) + "    pass\n"
            if cut:
                decl.append(klass("B", base, fs[:cut]))
                decl.append(klass("A", "B", fs[cut:]))
            else:
                decl.append(klass("A", base, fs))
            me = "self"
            if kind == "ref":
                me = "e"
                self.body0 = ["e = A.at(inp(8), check=False)"]
            self.roots = [(f"{me}.{f}", t, True) for f, s, t in fs]
        else:
            k = 20
            for i, t in enumerate(ty.some(16)):
                if t is NUM:
                    continue
                self.body0.append(f"x{i} = {ctor(t, k)}")
                k += size(t)
                self.roots.append((f"x{i}", t, False))
        self.decl = "\n\n".join([*ty.src, *decl])
        self.all = [(root + p) for root, t, _ in self.roots for p in leaves(t)]

    def source(self, body):
        lines = self.body0 + body
        if self.kind in ("self", "ref"):
            m = "    def preprocess(self):\n" + "".join(f"        {x}\n" for x in lines)
            return PRELUDE + self.decl + m + "\n\nf = A.preprocess\n"
        return PRELUDE + self.decl + "\n\ndef f():\n" + "".join(f"    {x}\n" for x in lines)

    def places(self):
        return [(root + p, t, ok or bool(p)) for root, t, ok in self.roots for p, t in nodes(t)]

    def programs(self):
        """all the operations: (label, statements, extra outputs, expect(v, before) -> (after, extra values))"""
        r = self.r
        idx = {p: i for i, p in enumerate(self.all)}
        K = 60                                              # input cells of the new value

        def under(p, t):
            return [idx[p + q] for q in leaves(t)]

        def put(before, where, what):
            after = list(before)
            for w, x in zip(where, what):
                after[w] = x
            return after
        for p, t, whole in self.places():
            n = size(t)
            at = under(p, t)
            if n == 0:
                continue
            new = lambda v, n=n: [v[K + j] for j in range(n)]       # noqa: E731
            if whole:
                yield "write", [f"{p} = {ctor(t, K)}"], [], lambda v, b, at=at, new=new: (put(b, at, new(v)), [])
            if t[0] == "num":
                if whole:
                    yield "number read then write", [f"t = {p}", f"{p} = inp({K})"], ["t"], lambda v, b, at=at: (put(b, at, [v[K]]), [b[at[0]]])
                continue
            ls = leaves(t)
            j = r.randrange(n)
            yield "copy from", [f"{p} @= {ctor(t, K)}"], [], lambda v, b, at=at, new=new: (put(b, at, new(v)), [])
            yield "zeros", [f"{p} @= zeros({name(t)})"], [], lambda v, b, at=at, n=n: (put(b, at, [0] * n), [])
            yield "reference", [f"r = {p}", f"r{ls[j]} = inp({K})"], [], lambda v, b, at=at, j=j: (put(b, [at[j]], [v[K]]), [])
            cp = r.choice(["+{}", "copy({})"]).format(p)
            yield "copy detaches", [f"r = {cp}", f"r{ls[j]} = inp({K})"], [f"r{q}" for q in ls], lambda v, b, at=at, j=j: (b, put([b[a] for a in at], [j], [v[K]]))
            yield "original detaches", [f"r = {cp}", f"{p}{ls[j]} = inp({K})"], [f"r{q}" for q in ls], lambda v, b, at=at, j=j: (put(b, [at[j]], [v[K]]), [b[a] for a in at])
            if whole:
                yield "stored value detaches", [f"r = {ctor(t, K)}", f"{p} = r", f"r{ls[j]} = inp({K + n})"], [f"r{q}" for q in ls], \
                    lambda v, b, at=at, new=new, j=j, n=n: (put(b, at, new(v)), put(new(v), [j], [v[K + n]]))
            if t[0] == "arr":
                q = r.choice(leaves(t[1]))
                es = [idx[f"{p}[{i}]{q}"] for i in range(t[2])]

                def dyn(v, b, es=es):
                    from vp.contract import ite
                    return put(b, es, [pick(v[7] == i, v[K], b[e]) for i, e in enumerate(es)]), []
                yield ("index", t[2]), [f"{p}[inp(7)]{q} = inp({K})"], [], dyn

                def rd(v, b, es=es):
                    x = b[es[0]]
                    for i, e in enumerate(es[1:]):
                        x = pick(v[7] == i + 1, b[e], x)
                    return b, [x]
                yield ("read index", t[2]), [f"t = {p}[inp(7)]{q}"], ["t"], rd
            others = [o for o, u, _ in self.places() if u == t and not (o.startswith(p) or p.startswith(o))]
            if others and whole:
                o = r.choice(others)
                fr = under(o, t)
                yield "assign", [f"{p} = {o}", f"{o}{ls[j]} = inp({K})"], [], lambda v, b, at=at, fr=fr, j=j: (put(put(b, at, [b[x] for x in fr]), [fr[j]], [v[K]]), [])

    def program(self, stmts, extra):
        outs = [f"out({i}, {p})" for i, p in enumerate(self.all)]
        n = len(self.all)
        return self.source(outs + stmts + [f"out({n + i}, {p})" for i, p in enumerate(self.all)] + [f"out({2 * n + i}, {p})" for i, p in enumerate(extra)])


def pick(c, a, b):
    from vp.contract import ite
    from vp.sym import SBool
    return ite(c, a, b) if isinstance(c, SBool) else (a if c else b)

"""Contracts on container operations.  The container lies in input cells from 0 on; the model is the same operation on a Python
list (elements: numbers or tuples), which is executed on terms for the proof and on numbers for the replay."""
import z3

from vp import front, sx, sym
from vp.contract import Contract, Item, Skip, Terminated, conj, disj  # noqa: F401
from vp.sym import SBool, SInt, SReal


def grab(x, k, n, es):
    """n elements of es cells from cell k on"""
    return [x[k + i] if es == 1 else tuple(x[k + es * i + j] for j in range(es)) for i in range(n)]


def cells(e):
    return list(e) if isinstance(e, tuple) else [e]


class Op:
    """code: statements on the container ``a`` (declared as ``decl``); results are written with out(0..);
    model(xs, p, x): xs the list of elements (to be changed in place), p first argument cell, x all cells -> list of results;
    the final container is written from output cell RES on: kind "seq": size and elements in order; "bag": in any order, keys distinct; None: not looked at"""

    def __init__(self, name, decl, code, model, size, cap, es=1, args=0, argkinds=None, kind="seq", prefix=1, pre=None, ns=None, helpers=""):
        self.__dict__.update(locals())
        del self.__dict__["self"]


RES = 24


def expected(op, x):
    """(results, final elements)"""
    xs = grab(x, op.prefix, op.size, op.es)
    p = op.prefix + op.cap * op.es
    r = op.model(xs, p, x)
    return [c for e in r for c in cells(e)], xs


class SeqContract(Contract):
    def __init__(self, op, fn, checks):
        self.op = op
        n = op.prefix + op.cap * op.es
        ty = {None: "real"}
        if op.prefix:
            ty[0] = ("const", op.size)
        for i, k in enumerate(op.argkinds or ()):
            ty[n + i] = k
        super().__init__(op.name, fn, ty, self._post, pre=op.pre, checks=checks, ranges={front.IN: n + op.args})

    def _post(self, v, o):
        op = self.op
        try:
            want, xs = expected(op, v)
        except (Terminated, IndexError):
            return {"the runtime check trips": bool(o.done != 1)}
        if self.checks != "NONE" and not (isinstance(o.done, int) and o.done == 1):
            return {"the runtime check does not trip": False}
        g = {}
        for i, w in enumerate(want):
            if w is not None:
                g[f"result {i}"] = eq(o[i], w)
        if op.kind is not None and xs is not None:
            if op.prefix:
                g["size"] = eq(o[RES], len(xs))
            if op.kind == "seq":
                for i, e in enumerate(xs):
                    for j, c in enumerate(cells(e)):
                        g[f"element {i}.{j}" if op.es > 1 else f"element {i}"] = eq(o[RES + op.prefix + op.es * i + j], c)
            else:
                for i, e in enumerate(xs):
                    g[f"member {i}"] = disj(*[conj(*[eq(o[RES + op.prefix + op.es * k + j], c) for j, c in enumerate(cells(e))]) for k in range(len(xs))])
        return g


def eq(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, SBool):
        b = sx.truth(b)
    if isinstance(a, SBool):
        a = sx.truth(a)
    r = a == b
    return r


def item(op, ns, checks="TERMINATE", sample=None, plain=False, prove=True):
    body = "\n".join("    " + l for l in op.code.split("\n"))
    fin = f"    out({RES}, a)\n" if op.kind is not None else ""
    fn = front.src_fn(f"{op.helpers}\ndef f():\n    a = {op.decl}\n{body}\n{fin}    done(1)\n", {**ns, **(op.ns or {})})

    def ref(x):
        try:
            want, xs = expected(op, x)
        except IndexError:
            raise Terminated from None
        r = [None] * RES
        r[:len(want)] = [None if w is None else float(w) for w in want]
        if op.kind is None or xs is None:
            return r[:len(want)]
        if op.prefix:
            r.append(len(xs))
        if op.kind == "seq":
            r += [float(c) for e in xs for c in cells(e)]
        else:
            r.append(Bag(xs, op.es))
        return r
    n = op.prefix + op.cap * op.es

    def sam(r):
        pool = [r.choice([0, 1, 2, 3, -1, 0.5]) for _ in range(3)]
        x = {i: r.choice(pool) if r.random() < 0.7 else r.choice([5, -2, 7.5, 1e9]) for i in range(n + op.args)}
        if op.prefix:
            x[0] = op.size
        for i, k in enumerate(op.argkinds or ()):
            if k == "int":
                x[n + i] = r.randrange(-op.cap - 1, op.cap + 2)
        return x if sample is None else sample(r, x)
    it = Item(op.name, fn, sam, ref, SeqContract(op, fn, checks) if prove else None, checks=checks, plain=plain)
    it.op = op
    if op.kind == "bag" or op.pre is not None:
        it.one = lambda x, it=it: one_bag(it, op, x)
    return it


class Bag:
    def __init__(self, xs, es):
        self.xs, self.es = sorted(tuple(float(c) for c in cells(e)) for e in xs), es


def one_bag(it, op, x):
    """like Item.one, the elements in any order"""
    class P:
        def __getitem__(_, i):
            return x[i]
    if op.pre is not None and not z3.is_true(z3.simplify(op.pre(P()).t)):
        return None
    try:
        want = it.ref(x)
    except Skip:
        return None
    except Terminated:
        want = None
    for lev, r in it.compiled().run(x).items():
        if r[0] != "ok":
            return f"{lev}: {r[0]}: {r[1]}"
        if want is None:
            if r[3] == 1:
                return f"{lev}: the runtime check did not trip"
            continue
        if it.checks != "NONE" and r[3] != 1:
            return f"{lev}: terminated"
        got = r[2] + [None] * 100
        for k, w in enumerate(want):
            if isinstance(w, Bag):
                g = sorted(tuple(got[k + w.es * i + j] for j in range(w.es)) for i in range(len(w.xs)))
                if g != w.xs:
                    return f"{lev}: contents {g}, expected {w.xs}"
            elif w is not None and got[k] != w:
                return f"{lev}: result {k} is {got[k]}, expected {w}"
    return None

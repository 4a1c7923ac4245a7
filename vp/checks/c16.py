"""C16: fixed-capacity containers behave as lists, sets and maps.

Contracts on the operations of VarArray, Array, ArraySet, ArrayMap, FrozenNumSet, ArrayPointer, Pair and Box, compiled by the
front end: for every content of each size up to the capacity and all arguments,
  ensures the results and the final contents of the same operation on a Python list, set or dict (exact order for VarArray and
  Array except set_remove; sets and maps as sets of distinct keys, which is also their invariant),
  ensures the runtime check trips exactly where the operation is invalid: full container, position outside, missing key,
  ensures cells outside the container are unchanged."""
import os
import time

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["VarArray (all methods)", "Array.__getitem__/__setitem__/get_unchecked/set_unchecked/__eq__", "ArrayLike mixin methods", "ArraySet (all methods)", "ArrayMap (all methods)", "FrozenNumSet",
                  "ArrayPointer", "Pair comparisons", "get_positive_index", "check_positive_index"],
    "trusted": ["z3", "Python's list, set and dict as the model", "the front end's translation (C22) and the optimizer (C01)"],
    "assumptions": ["numbers as reals", "unbounded contracts: capacity 1000 with every size, content and argument (the capacity is a compile-time constant of the instantiation)", "histories: the contracts compose, every operation being specified from an arbitrary state", "remaining operations and element types: capacities up to 4, thorough 7 (FrozenNumSet up to 20); all sizes, all contents and all arguments within"],
    "rule": "every operation x every size 0..capacity, contents and arguments arbitrary (symbolic); bounded part: random operation sequences against Python's containers, compiled at every level",
    "level_note": "VarArray, ArraySet and ArrayMap operations by unbounded contracts with loop invariants; records as elements, aliasing, views, FrozenNumSet, extend by containers and comparison bounded by capacity (exhaustive over sizes, symbolic contents)",
    "technique": "loop invariants over arrays of any size; for the rest symbolic execution of the compiled operations per size with symbolic contents against the same operation on a Python container of terms; z3",
    "deadline": {"quick": 300, "thorough": 700},
}


def need(c):
    from vp.contract import Terminated
    if not c:
        raise Terminated


def pos(i, n, end=False):
    """the index meant by i"""
    need(-n <= i and i < n + end)
    if i < 0:
        i = i + n
    for k in range(n + end):
        if i == k:
            return k
    need(False)


def find(xs, v, start=0, stop=None):
    for i in range(start, len(xs) if stop is None else stop):
        if same(xs[i], v):
            return i
    return -1


def same(a, b):
    if isinstance(a, tuple):
        return all([bool(x == y) for x, y in zip(a, b)]) if not any(hasattr(z, "t") for z in a + b) else _allsym(a, b)
    return bool(a == b)


def _allsym(a, b):
    for x, y in zip(a, b):
        if not bool(x == y):
            return False
    return True


def namespace():
    from vp import front
    from sonolus.script import containers as c
    from sonolus.script.array import Array
    from sonolus.script.num import Num
    ns = dict(front.api())
    ns.update(VarArray=c.VarArray, ArraySet=c.ArraySet, ArrayMap=c.ArrayMap, FrozenNumSet=c.FrozenNumSet, ArrayPointer=c.ArrayPointer, Pair=c.Pair, Box=c.Box, Array=Array, Num=Num)
    return ns


def varray():
    """name -> (code, model, number of arguments, kinds, extra)"""
    L = {}

    def d(name, code, model, args=0, kinds=None, **kw):
        assert name not in L
        L[name] = (code, model, args, kinds, kw)
    d("len", "out(0, len(a))", lambda xs, p, x, c: [len(xs)])
    d("is_full", "out(0, a.is_full())\nout(1, a.capacity())", lambda xs, p, x, c: [len(xs) == c, c])
    d("getitem", "out(0, a[inp({p})])", lambda xs, p, x, c: [xs[pos(x[p], len(xs))]], 1, ["int"])
    d("getitem fraction", "out(0, a[inp({p})])", lambda xs, p, x, c: [xs[pos(x[p], len(xs))]], 1, ["real"])

    def setitem(xs, p, x, c):
        xs[pos(x[p], len(xs))] = val(x, p + 1, xs, c)
        return []
    d("setitem", "a[inp({p})] = {v1}", setitem, "1v", ["int"])

    def append(xs, p, x, c):
        need(len(xs) < c)
        xs.append(val(x, p, xs, c))
        return []
    d("append", "a.append({v0})", append, "v")
    d("append_unchecked", "a.append_unchecked({v0})", append, "v", sizes=lambda k, c: k < c)

    def extend(xs, p, x, c):
        need(len(xs) + 2 <= c)
        xs.extend([val(x, p, xs, c), val(x, p + ES[0], xs, c)])
        return []
    d("extend", "a.extend(Array({v0}, {v1v}))", extend, "vv")
    d("iadd", "a += Array({v0}, {v1v})", extend, "vv")

    def extend_self(xs, p, x, c):
        need(2 * len(xs) <= c)
        xs.extend(list(xs))
        return []
    d("extend itself", "a.extend(a)", extend_self)
    d("pop", "out(0, a.pop())", lambda xs, p, x, c: [xs.pop(pos(-1, len(xs)))])
    d("pop index", "out(0, a.pop(inp({p})))", lambda xs, p, x, c: [xs.pop(pos(x[p], len(xs)))], 1, ["int"])
    d("pop first", "out(0, a.pop(0))", lambda xs, p, x, c: [xs.pop(pos(0, len(xs)))])

    def delitem(xs, p, x, c):
        del xs[pos(x[p], len(xs))]
        return []
    d("delitem", "del a[inp({p})]", delitem, 1, ["int"])

    def insert(xs, p, x, c):
        i = pos(x[p], len(xs), True)
        need(len(xs) < c)
        xs.insert(i, val(x, p + 1, xs, c))
        return []
    d("insert", "a.insert(inp({p}), {v1})", insert, "1v", ["int"])

    def insert_own(xs, p, x, c):
        j = pos(x[p + 1], len(xs))
        i = pos(x[p], len(xs), True)
        need(len(xs) < c)
        xs.insert(i, xs[j])
        return []
    d("insert of an element", "a.insert(inp({p}), a[inp({p1})])", insert_own, 2, ["int", "int"])

    def append_own(xs, p, x, c):
        j = pos(x[p], len(xs))
        need(len(xs) < c)
        xs.append(xs[j])
        return []
    d("append of an element", "a.append(a[inp({p})])", append_own, 1, ["int"])

    def assign_own(xs, p, x, c):
        j = pos(x[p + 1], len(xs))
        xs[pos(x[p], len(xs))] = xs[j]
        return []
    d("assignment of an element", "a[inp({p})] = a[inp({p1})]", assign_own, 2, ["int", "int"])

    def remove(xs, p, x, c):
        i = find(xs, val(x, p, xs, c))
        if i >= 0:
            del xs[i]
        return [i >= 0]
    d("remove", "out(0, a.remove({v0}))", remove, "v")

    def remove_own(xs, p, x, c):
        i = find(xs, xs[pos(x[p], len(xs))])
        del xs[i]
        return [True]
    d("remove of an element", "out(0, a.remove(a[inp({p})]))", remove_own, 1, ["int"])

    def clear(xs, p, x, c):
        xs.clear()
        return []
    d("clear", "a.clear()", clear)

    def set_add(xs, p, x, c):
        if len(xs) >= c or find(xs, val(x, p, xs, c)) >= 0:
            return [False]
        xs.append(val(x, p, xs, c))
        return [True]
    d("set_add", "out(0, a.set_add({v0}))", set_add, "v")
    d("set_remove", "out(0, a.set_remove({v0}))", remove, "v", bag=True)
    d("contains", "out(0, {v0} in a)\nout(1, {v0} not in a)", lambda xs, p, x, c: [find(xs, val(x, p, xs, c)) >= 0, find(xs, val(x, p, xs, c)) < 0], "v")
    d("index", "out(0, a.index({v0}))", lambda xs, p, x, c: [find(xs, val(x, p, xs, c))], "v")

    def lo(i, n):
        if i < 0:
            i = i + n
        if i < 0:
            return 0
        for k in range(n):
            if i <= k:
                return k
        return n
    d("index start", "out(0, a.index({v1}, inp({p})))", lambda xs, p, x, c: [find(xs, val(x, p + 1, xs, c), lo(x[p], len(xs)))], "1v", ["int"])
    d("index start stop", "out(0, a.index({v2}, inp({p}), inp({p1})))", lambda xs, p, x, c: [find(xs, val(x, p + 2, xs, c), lo(x[p], len(xs)), lo(x[p + 1], len(xs)))], "2v", ["int", "int"])
    d("count", "out(0, a.count({v0}))", lambda xs, p, x, c: [sum(same(e, val(x, p, xs, c)) for e in xs)], "v")
    d("last_index", "out(0, a.last_index({v0}))", lambda xs, p, x, c: [next((i for i in reversed(range(len(xs))) if same(xs[i], val(x, p, xs, c))), -1)], "v")

    def fold(xs):
        s = 0
        for e in xs:
            for c in (e if isinstance(e, tuple) else (e,)):
                s = s * 3 + c
        return s
    d("iteration", "s = 0\nfor v in a:\n    s = {step}\nout(0, s)", lambda xs, p, x, c: [fold(xs)])
    d("reversed", "s = 0\nfor v in reversed(a):\n    s = {step}\nout(0, s)", lambda xs, p, x, c: [fold(xs[::-1])])
    d("reversed index", "out(0, reversed(a)[inp({p})])", lambda xs, p, x, c: [xs[::-1][pos(x[p], len(xs))]], 1, ["int"])

    def rev_set(xs, p, x, c):
        xs[len(xs) - 1 - pos(x[p], len(xs))] = val(x, p + 1, xs, c)
        return []
    d("reversed set", "r = reversed(a)\nr[inp({p})] = {v1}", rev_set, "1v", ["int"])

    def enum(xs, k):
        s = 0
        for i, e in enumerate(xs, k):
            s = s * 7 + i
            for c in (e if isinstance(e, tuple) else (e,)):
                s = s * 3 + c
        return s
    d("enumerate", "s = 0\nfor i, v in enumerate(a):\n    s = s * 7 + i\n    s = {step}\nout(0, s)", lambda xs, p, x, c: [enum(xs, 0)])
    d("enumerate start", "s = 0\nfor i, v in enumerate(a, 5):\n    s = s * 7 + i\n    s = {step}\nout(0, s)", lambda xs, p, x, c: [enum(xs, 5)])

    def swap(xs, p, x, c):
        need(x[p] >= 0 and x[p + 1] >= 0)
        i, j = pos(x[p], len(xs)), pos(x[p + 1], len(xs))
        xs[i], xs[j] = xs[j], xs[i]
        return []
    d("swap", "a.swap(inp({p}), inp({p1}))", swap, 2, ["int", "int"])

    def reverse(xs, p, x, c):
        xs.reverse()
        return []
    d("reverse", "a.reverse()", reverse)

    def eqm(xs, p, x, c):
        ys = [val(x, p, xs, c), val(x, p + ES[0], xs, c)]
        e = len(xs) == 2 and same(xs[0], ys[0]) and same(xs[1], ys[1])
        return [e, not e]
    d("equal", "b = Array({v0}, {v1v})\nout(0, a == b)\nout(1, a != b)", eqm, "vv")

    def copy_detached(xs, p, x, c):
        old = list(xs)
        need(len(xs) < c)
        xs.append(val(x, p, xs, c))
        return [len(old), fold(old)]
    d("copy is detached", "b = +a\na.append({v0})\ns = 0\nfor v in b:\n    s = {step}\nout(0, len(b))\nout(1, s)", copy_detached, "v")
    # combinations
    def push_pop(xs, p, x, c):
        append(xs, p, x, c)
        y = xs.pop(pos(x[p + ES[0]], len(xs)))
        return [y]
    d("append and pop", "a.append({v0})\nout(0, a.pop(inp({pv})))", push_pop, "v1", None)
    return L


ES = [1]


def val(x, p, xs, c):
    return x[p] if ES[0] == 1 else tuple(x[p + j] for j in range(ES[0]))


ORDER = {   # numbers only
    "index_of_max": ("out(0, a.index_of_max())", lambda xs, p, x, c: [best(xs, lambda u, v: u > v)]),
    "index_of_min": ("out(0, a.index_of_min())", lambda xs, p, x, c: [best(xs, lambda u, v: u < v)]),
    "index_of_max key": ("out(0, a.index_of_max(key=lambda v: -v))", lambda xs, p, x, c: [best(xs, lambda u, v: u < v)]),
    "index_of_min key": ("out(0, a.index_of_min(key=lambda v: -v))", lambda xs, p, x, c: [best(xs, lambda u, v: u > v)]),
    "max": ("out(0, max(a))", lambda xs, p, x, c: [xs[pos(best(xs, lambda u, v: u > v), len(xs)) if xs else need(False)]]),
    "min": ("out(0, min(a))", lambda xs, p, x, c: [xs[pos(best(xs, lambda u, v: u < v), len(xs)) if xs else need(False)]]),
    "max key": ("out(0, max(a, key=lambda v: -v))", lambda xs, p, x, c: [xs[best(xs, lambda u, v: u < v) if xs else need(False)]]),
}


def best(xs, better):
    if not xs:
        return -1
    k = 0
    for i in range(1, len(xs)):
        if better(xs[i], xs[k]):
            k = i
    return k


STEP = {1: "s * 3 + v", 2: "(s * 3 + v.first) * 3 + v.second"}
TYPE = {1: "Num", 2: "Pair[Num, Num]"}


def sized(f, c, es):
    """the model with the element size set"""
    def g(xs, p, x):
        ES[0] = es
        return f(xs, p, x, c)
    return g


def make(name, decl, code, model, size, cap, es, args, kinds, kind, ns, prefix=1, checks="TERMINATE", **kw):
    from vp import seq
    n = prefix + cap * es
    spec = args if isinstance(args, str) else str(args)
    # argument layout: digits are plain cells, v elements
    cells, k = 0, {}
    for ch in spec:
        if ch == "v":
            cells += es
        else:
            cells += int(ch)

    def elem(off):
        return f"inp({n + off})" if es == 1 else f"inps({TYPE[es]}, {n + off})"
    code = (code.replace("{p}", str(n)).replace("{p1}", str(n + 1)).replace("{v0}", elem(0)).replace("{v1}", elem(1)).replace("{v2}", elem(2)).replace("{v1v}", elem(es))
            .replace("{pv}", str(n + es)).replace("{step}", STEP[es]))
    if spec == "v1":
        kinds = [None] * es + ["int"]
    kinds = [k or "real" for k in (kinds or [])]
    op = seq.Op(name, decl, code, sized(model, cap, es), size, cap, es, cells, kinds, kind, prefix, **kw)
    return seq.item(op, ns, checks)


def items(part=None):
    ns = namespace()
    L = []
    caps = ((1, 1), (1, 3), (2, 3), (1, 4)) if os.environ.get("VERIF_TIER") != "thorough" else ((1, 1), (1, 3), (2, 3), (1, 4), (1, 7), (2, 5))
    for es, cap in caps:
        for name, (code, model, args, kinds, kw) in varray().items():
            for size in range(cap + 1):
                if "sizes" in kw and not kw["sizes"](size, cap):
                    continue
                L.append(make(f"VarArray[{'number' if es == 1 else 'record'}, {cap}] of {size}: {name}", f"inps(VarArray[{TYPE[es]}, {cap}], 0)", code, model, size, cap, es, args, kinds,
                              "bag" if kw.get("bag") else "seq", ns))
    for name, (code, model) in ORDER.items():
        for size in range(5):
            L.append(make(f"VarArray[number, 4] of {size}: {name}", "inps(VarArray[Num, 4], 0)", code, model, size, 4, 1, 0, None, "seq", ns))
    A = varray()
    for es in (1, 2):
        for name in ("len", "getitem", "setitem", "assignment of an element", "contains", "index", "index start", "index start stop", "count", "last_index", "iteration", "reversed", "reversed index", "reversed set",
                     "enumerate", "enumerate start", "swap", "reverse", "equal"):
            code, model, args, kinds, kw = A[name]
            for size in (1, 3):
                L.append(make(f"Array[{'number' if es == 1 else 'record'}, {size}]: {name}", f"inps(Array[{TYPE[es]}, {size}], 0)", code, model, size, size, es, args, kinds, "seq", ns, prefix=0))
                if name in ("getitem", "setitem", "contains", "iteration", "count", "swap"):
                    L.append(make(f"ArrayPointer[{'number' if es == 1 else 'record'}] of {size}: {name}", f"ArrayPointer[{TYPE[es]}](inp(0), 100, 1)", code, model, size, size, es, args, kinds, None, ns))
    L += sets(ns) + maps(ns) + pairs(ns) + frozen(ns) + pointers(ns)
    return L


def distinct(n, es, key):
    def pre(x):
        from vp.contract import conj, disj
        return conj(*[disj(*[ne(x[1 + es * i + c], x[1 + es * j + c]) for c in range(key)]) for i in range(n) for j in range(i)], True)
    return pre


def ne(a, b):
    from vp.contract import neg
    return neg(a == b)


def sets(ns):
    L = []
    V = varray()

    ops = {
        "len": ("out(0, len(a))", V["len"][1], 0, None), "contains": ("out(0, {v0} in a)", lambda xs, p, x, c: [find(xs, val(x, p, xs, c)) >= 0], "v", None),
        "add": ("out(0, a.add({v0}))", V["set_add"][1], "v", None), "remove": ("out(0, a.remove({v0}))", V["remove"][1], "v", None), "clear": ("a.clear()", V["clear"][1], 0, None),
    }

    def total(xs, p, x, c):
        s = 0
        for e in xs:
            s = s + (e if not isinstance(e, tuple) else e[0] * 5 + e[1])
        return [s]
    ops["iteration"] = ("s = 0\nfor v in a:\n    s += {sum}\nout(0, s)", total, 0, None)

    def add_remove(xs, p, x, c):
        r = V["set_add"][1](xs, p, x, c)
        q = V["remove"][1](xs, p + ES[0], x, c)
        return r + q
    ops["add and remove"] = ("out(0, a.add({v0}))\nout(1, a.remove({v1v}))", add_remove, "vv", None)

    def remove_add(xs, p, x, c):
        r = V["remove"][1](xs, p, x, c)
        q = V["set_add"][1](xs, p + ES[0], x, c)
        return r + q
    ops["remove and add"] = ("out(0, a.remove({v0}))\nout(1, a.add({v1v}))", remove_add, "vv", None)
    for es, cap in ((1, 3), (2, 2)):
        for name, (code, model, args, kinds) in ops.items():
            for size in range(cap + 1):
                c = code.replace("{sum}", "v" if es == 1 else "v.first * 5 + v.second")
                L.append(make(f"ArraySet[{'number' if es == 1 else 'record'}, {cap}] of {size}: {name}", f"inps(ArraySet[{TYPE[es]}, {cap}], 0)", c, model, size, cap, es, args, kinds, "bag", ns, pre=distinct(size, es, es)))
    return L


def maps(ns):
    """ArrayMap[Num, Num]: entries (key, value)"""
    L = []

    def look(xs, k):
        for i, e in enumerate(xs):
            if bool(e[0] == k):
                return i
        return -1

    def get(xs, p, x, c):
        i = look(xs, x[p])
        need(i >= 0)
        return [xs[i][1]]

    def put(xs, p, x, c):
        i = look(xs, x[p])
        if i >= 0:
            xs[i] = (x[p], x[p + 1])
        else:
            need(len(xs) < c)
            xs.append((x[p], x[p + 1]))
        return []

    def delete(xs, p, x, c):
        i = look(xs, x[p])
        need(i >= 0)
        del xs[i]
        return []

    def pop(xs, p, x, c):
        r = get(xs, p, x, c)
        delete(xs, p, x, c)
        return r

    def clear(xs, p, x, c):
        xs.clear()
        return []

    def two(f, g, k):
        def h(xs, p, x, c):
            return f(xs, p, x, c) + g(xs, p + k, x, c)
        return h

    def tot(w):
        return lambda xs, p, x, c: [sum((w(e) for e in xs), 0)]
    ops = {
        "len": ("out(0, len(a))\nout(1, a.is_full())\nout(2, a.capacity())", lambda xs, p, x, c: [len(xs), len(xs) == c, c], 0),
        "get": ("out(0, a[inp({p})])", get, 1), "set": ("a[inp({p})] = inp({p1})", put, 2), "delete": ("del a[inp({p})]", delete, 1), "pop": ("out(0, a.pop(inp({p})))", pop, 1),
        "contains": ("out(0, inp({p}) in a)", lambda xs, p, x, c: [look(xs, x[p]) >= 0], 1), "clear": ("a.clear()", clear, 0),
        "keys": ("s = 0\nfor k in a.keys():\n    s += k\nout(0, s)", tot(lambda e: e[0]), 0), "iteration": ("s = 0\nfor k in a:\n    s += k\nout(0, s)", tot(lambda e: e[0]), 0),
        "values": ("s = 0\nfor k in a.values():\n    s += k\nout(0, s)", tot(lambda e: e[1]), 0), "items": ("s = 0\nfor k, v in a.items():\n    s += 5 * k + v\nout(0, s)", tot(lambda e: 5 * e[0] + e[1]), 0),
        "set and get": ("a[inp({p})] = inp({p1})\nout(0, a[inp({p2})])", two(put, get, 2), 3), "pop and set": ("out(0, a.pop(inp({p})))\na[inp({p1})] = inp({p2})", two(pop, put, 1), 3),
        "augmented": ("a[inp({p})] += inp({p1})", lambda xs, p, x, c: aug(xs, p, x, c), 2),
    }

    def aug(xs, p, x, c):
        i = look(xs, x[p])
        need(i >= 0)
        xs[i] = (xs[i][0], xs[i][1] + x[p + 1])
        return []
    cap = 3
    for name, (code, model, args) in ops.items():
        for size in range(cap + 1):
            c = code.replace("{p2}", str(1 + 2 * cap + 2))
            L.append(make(f"ArrayMap[number, number, {cap}] of {size}: {name}", f"inps(ArrayMap[Num, Num, {cap}], 0)", c, model, size, cap, 2, args, None, "bag", ns, pre=distinct(size, 2, 1)))
    # record keys and values: entries of four cells, key = first two
    def look2(xs, k):
        for i, e in enumerate(xs):
            if bool(e[0] == k[0]) and bool(e[1] == k[1]):
                return i
        return -1

    def put2(xs, p, x, c):
        k, v = (x[p], x[p + 1]), (x[p + 2], x[p + 3])
        i = look2(xs, k)
        if i >= 0:
            xs[i] = k + v
        else:
            need(len(xs) < c)
            xs.append(k + v)
        return []

    def get2(xs, p, x, c):
        i = look2(xs, (x[p], x[p + 1]))
        need(i >= 0)
        return [xs[i][2:]]

    def pop2(xs, p, x, c):
        i = look2(xs, (x[p], x[p + 1]))
        need(i >= 0)
        return [xs.pop(i)[2:]]

    def mutate2(xs, p, x, c):
        i = look2(xs, (x[p], x[p + 1]))
        need(i >= 0)
        xs[i] = xs[i][:3] + (x[p + 2],)
        return []
    cap = 2
    P = "inps(Pair[Num, Num], {k})"
    q = 1 + 4 * cap
    ops2 = {"set": (f"a[{P.format(k=q)}] = {P.format(k=q + 2)}", put2, 4), "get": (f"out(0, a[{P.format(k=q)}])", get2, 2), "pop": (f"out(0, a.pop({P.format(k=q)}))", pop2, 2),
            "mutate through a reference": (f"a[{P.format(k=q)}].second = inp({q + 2})", mutate2, 3)}
    STEP.setdefault(4, "")
    TYPE.setdefault(4, "")
    for name, (code, model, args) in ops2.items():
        for size in range(cap + 1):
            L.append(make(f"ArrayMap[record, record, {cap}] of {size}: {name}", f"inps(ArrayMap[Pair[Num, Num], Pair[Num, Num], {cap}], 0)", code, model, size, cap, 4, args, None, "bag", ns, pre=distinct(size, 4, 2)))
    return L


def pairs(ns):
    """Pair is ordered as the tuple; equality component-wise"""
    from vp import front
    from vp.contract import Contract, Item, conj, disj, iff
    L = []
    for name, lt, le in (("<", True, False), ("<=", True, True), (">", False, False), (">=", False, True)):
        fn = front.src_fn(f"def f():\n    out(0, inps(Pair[Num, Num], 0) {name} inps(Pair[Num, Num], 2))\n    out(1, inps(Pair[Num, Num], 0) == inps(Pair[Num, Num], 2))\n    out(2, inps(Pair[Num, Num], 0).tuple)\n", dict(ns))

        def post(v, o, lt=lt, le=le):
            a, b = (v[0], v[1]), (v[2], v[3])
            if not lt:
                a, b = b, a
            r = disj(a[0] < b[0], conj(a[0] == b[0], a[1] <= b[1] if le else a[1] < b[1]))
            return {"lexicographic": iff(o[0], r), "equality": iff(o[1], conj(v[0] == v[2], v[1] == v[3])), "tuple": conj(o[2] == v[0], o[3] == v[1])}
        import operator
        f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[name]
        L.append(Item(f"Pair {name}", fn, lambda r: {i: r.choice([0, 1, 2]) for i in range(4)}, lambda x, f=f: [f((x[0], x[1]), (x[2], x[3])), (x[0], x[1]) == (x[2], x[3]), x[0], x[1]], Contract(f"Pair {name}", fn, "real", post), plain=True))
    fn = front.src_fn("def f():\n    b = Box(inp(0))\n    c = b\n    c.value = inp(1)\n    out(0, b.value)\n    d = +b\n    d.value = inp(2)\n    out(1, b.value)\n    out(2, d.value)\n", dict(ns))
    L.append(Item("Box", fn, lambda r: {i: r.choice([0, 1, 2]) for i in range(3)}, lambda x: [x[1], x[1], x[2]], Contract("Box", fn, "real", lambda v, o: {"by reference": o[0] == v[1], "copy": conj(o[1] == v[1], o[2] == v[2])})))
    return L


def frozen(ns):
    """membership in sets of constants and of run-time values, below and above the switch to binary search"""
    from vp import front
    from vp.contract import Contract, Item, conj, disj, iff
    L = []
    for n in (1, 3, 15, 16, 17, 20):
        vals = [((7 * i) % n) * 2 - 5 for i in range(n)]
        fn = front.src_fn(f"def f():\n    s = FrozenNumSet.of({', '.join(map(str, vals))})\n    out(0, inp(0) in s)\n    out(1, len(s))\n    t = 0\n    for v in s:\n        t += v\n    out(2, t)\n", dict(ns))

        def post(v, o, vals=vals):
            return {"membership": iff(o[0], disj(*[v[0] == w for w in vals])), "len": o[1] == len(vals), "iteration": o[2] == sum(vals)}
        L.append(Item(f"FrozenNumSet of {n} constants", fn, lambda r, vals=vals: {0: r.choice(vals) + r.choice([0, 0, 1, 0.5, -100])}, lambda x, vals=vals: [x[0] in vals, len(vals), sum(vals)],
                      Contract(f"FrozenNumSet of {n} constants", fn, "real", post)))
    for n in (1, 3, 17):
        fn = front.src_fn(f"def f():\n    s = FrozenNumSet.of({', '.join(f'inp({i})' for i in range(n))})\n    out(0, inp({n}) in s)\n    out(1, len(s))\n", dict(ns))

        def post(v, o, n=n):
            return {"membership": iff(o[0], disj(*[v[n] == v[i] for i in range(n)])), "len": o[1] == n}
        L.append(Item(f"FrozenNumSet of {n} values", fn, lambda r, n=n: {i: r.randrange(n * 2) for i in range(n + 1)}, lambda x, n=n: [x[n] in [x[i] for i in range(n)], n],
                      Contract(f"FrozenNumSet of {n} values", fn, "real", post) if n < 4 else None))
    return L


def pointers(ns):
    """an array behind a pointer: the cells of the block from the offset on"""
    from vp import front
    from vp.contract import Contract, Item, Terminated, conj, imp, neg
    L = []
    for es in (1, 2):
        for const in (True, False):
            # cells 0 size 1 offset 2 index 3,4 value; the pointer addresses the input block
            blk = "100" if const else "inp(9)"
            t = TYPE[es]
            fn = front.src_fn(f"def f():\n    a = ArrayPointer[{t}](3, {blk}, inp(1))\n    a[inp(2)] = {'inp(3)' if es == 1 else f'inps({t}, 3)'}\n    out(0, a[inp(2)])\n    for i in range(10, 20):\n        pass\n    out(2, {', '.join(['(' + ', '.join(f'inp({i})' for i in range(10, 20)) + ')'])})\n    done(1)\n", dict(ns))

            def ref(x, es=es):
                i = x[2]
                if not -3 <= i < 3:
                    raise Terminated
                i = i % 3
                c = {k: x[k] for k in range(20)}
                for j in range(es):
                    c[x[1] + es * i + j] = x[3 + j]
                return [x[3], x[4] if es == 2 else None] + [c[k] for k in range(10, 20)]

            def sample(r):
                return {**{i: r.randrange(100) for i in range(20)}, 1: r.choice([10, 11, 14]), 2: r.randrange(-4, 5), 9: 100}
            L.append(Item(f"ArrayPointer[{t}] {'constant' if const else 'computed'} block", fn, sample, ref, None, checks="TERMINATE"))
    return L


# -- random histories
def histories(seed, n, length, secs):
    """the same random operation sequence compiled and on Python's containers; every element is checked at the end of every step"""
    from vp import front
    from vp.contract import Compiled
    ns = namespace()
    r = random.Random(seed)
    bad, cnt = [], 0
    t0 = time.time()
    for h in range(n):
        if time.time() - t0 > secs:
            break
        kind = r.choice(["list", "set", "map", "rec"])
        cap = r.choice([1, 2, 3, 5, 8])
        vals = [r.choice([0, 1, 2, 3, 4, 5, -1]) for _ in range(40)]
        code, want = [], []
        st = [] if kind in ("list", "rec") else {} if kind == "map" else []
        o = 0
        T = "Num" if kind != "rec" else "Pair[Num, Num]"
        decl = {"list": f"VarArray[Num, {cap}].new()", "rec": f"VarArray[Pair[Num, Num], {cap}].new()", "set": f"ArraySet[Num, {cap}].new()", "map": f"ArrayMap[Num, Num, {cap}].new()"}[kind]

        def mk(i):
            return (f"inp({i})", vals[i]) if kind != "rec" else (f"Pair(inp({i}), inp({(i + 1) % 40}))", (vals[i], vals[(i + 1) % 40]))

        def fl(v):
            return list(v) if isinstance(v, tuple) else [v]
        for _ in range(length):
            i = r.randrange(40)
            e, v = mk(i)
            if kind in ("list", "rec"):
                k = r.choice(["append", "insert", "pop", "popi", "set", "remove", "set_add", "set_remove", "reverse", "swap", "index", "extend", "own"] + (["sort"] if kind == "list" else []))
                m = len(st)
                if k == "append" and m < cap:
                    code.append(f"a.append({e})")
                    st.append(v)
                elif k == "insert" and m < cap:
                    j = r.randint(0, m)
                    code.append(f"a.insert({j}, {e})")
                    st.insert(j, v)
                elif k == "own" and 0 < m < cap:
                    j, q = r.randint(0, m), r.randrange(m)
                    code.append(f"a.insert({j}, a[{q}])")
                    st.insert(j, st[q])
                elif k == "pop" and m:
                    code.append(f"out({o}, a.pop())")
                    x = fl(st.pop())
                    want += x
                    o += len(x)
                elif k == "popi" and m:
                    j = r.randint(-m, m - 1)
                    code.append(f"out({o}, a.pop({j}))")
                    x = fl(st.pop(j))
                    want += x
                    o += len(x)
                elif k == "set" and m:
                    j = r.randint(-m, m - 1)
                    code.append(f"a[{j}] = {e}")
                    st[j] = v
                elif k in ("remove", "set_remove"):
                    code.append(f"out({o}, a.{k}({e}))")
                    want.append(v in st)
                    o += 1
                    if v in st:
                        if k == "remove":
                            st.remove(v)
                        else:
                            j = st.index(v)
                            st[j] = st[-1]
                            st.pop()
                elif k == "set_add":
                    code.append(f"out({o}, a.set_add({e}))")
                    want.append(v not in st and m < cap)
                    o += 1
                    if want[-1]:
                        st.append(v)
                elif k == "reverse":
                    code.append("a.reverse()")
                    st.reverse()
                elif k == "sort":
                    rv = r.random() < 0.5
                    code.append(f"a.sort(reverse={rv})")
                    st.sort(reverse=rv)
                elif k == "swap" and m:
                    p, q = r.randrange(m), r.randrange(m)
                    code.append(f"a.swap({p}, {q})")
                    st[p], st[q] = st[q], st[p]
                elif k == "index":
                    code.append(f"out({o}, a.index({e}))\nout({o + 1}, a.count({e}))")
                    want += [st.index(v) if v in st else -1, st.count(v)]
                    o += 2
                elif k == "extend" and m + 2 <= cap:
                    code.append(f"a.extend(Array({e}, {e}))")
                    st += [v, v]
            elif kind == "set":
                k = r.choice(["add", "remove", "in"])
                if k == "in":
                    code.append(f"out({o}, {e} in a)")
                    want.append(v in st)
                else:
                    code.append(f"out({o}, a.{k}({e}))")
                    want.append((v not in st and len(st) < cap) if k == "add" else v in st)
                    if want[-1]:
                        (st.append if k == "add" else st.remove)(v)
                o += 1
            else:
                k = r.choice(["set", "get", "del", "pop", "in"])
                if k == "in":
                    code.append(f"out({o}, {e} in a)")
                    want.append(v in st)
                    o += 1
                elif k == "set" and (v in st or len(st) < cap):
                    code.append(f"a[{e}] = {o + 100}")
                    st[v] = o + 100
                elif k == "get" and v in st:
                    code.append(f"out({o}, a[{e}])")
                    want.append(st[v])
                    o += 1
                elif k == "pop" and v in st:
                    code.append(f"out({o}, a.pop({e}))")
                    want.append(st.pop(v))
                    o += 1
                elif k == "del" and v in st:
                    code.append(f"del a[{e}]")
                    del st[v]
        # final contents
        if kind in ("list", "rec"):
            code.append(f"out({o}, len(a))")
            want.append(len(st))
            o += 1
            for j, v in enumerate(st):
                code.append(f"out({o}, a[{j}])")
                want += fl(v)
                o += len(fl(v))
        else:
            code.append(f"out({o}, len(a))")
            want.append(len(st))
            o += 1
            for v in sorted(set(vals)):
                code.append(f"out({o}, {v} in a)")
                want.append(v in st)
                o += 1
                if kind == "map" and v in st:
                    code.append(f"out({o}, a[{v}])")
                    want.append(st[v])
                    o += 1
        src = f"def f():\n    a = {decl}\n" + "\n".join("    " + l for c in code for l in c.split("\n")) + "\n    done(1)\n"
        fn = front.src_fn(src, dict(ns))
        cnt += 1
        for lev, res in Compiled(fn, checks="TERMINATE").run(dict(enumerate(vals))).items():
            got = res[2] if res[0] == "ok" else res[1]
            if res[0] != "ok" or res[3] != 1 or [float(g) for g in got[:len(want)]] != [float(w) for w in want]:
                bad.append({"key": f"history {kind}", "what": f"{kind} of capacity {cap} ({lev}): {got} expected {[float(w) for w in want]}", "input": {"source": src, "cells": vals}})
                break
    return {"violations": bad[:5], "bounded": {"name": "random histories", "evaluations": cnt, "distinct": cnt, "samples": [], "bound": f"{length} operations"}}


def prove(i, parts):
    L = items()
    return merge(*[pack(x.contract.prove()) for x in L[i::parts] if x.contract is not None])


def run(i, parts, seed, n, secs):
    from vp import contract
    L = items()
    return contract.sweep(L[i::parts], seed, n, secs)


def unbounded(i, parts):
    from vp.checks import c16u
    return merge(*[pack(c.prove()) for c in c16u.contracts()[i::parts]])


def tasks(tier, seed):
    q = tier == "quick"
    os.environ["VERIF_TIER"] = tier
    return ([Task("real", "unbounded", i, 4, timeout=280) for i in range(4)] + [Task("real", "prove", i, 48, timeout=280) for i in range(48)] + [Task("real", "histories", seed * 100 + i, 40 if q else 4000, 12, 40 if q else 400, timeout=500) for i in range(4)] +
            [Task("real", "run", i, 8, seed, 4 if q else 100, 60 if q else 400, timeout=500) for i in range(8)])


def replay(o):
    from vp import contract
    from vp.checks import c16u
    nm = o["name"].split(":")[0]
    if nm in {c.name for c in c16u.contracts()}:
        # a search among the bounded operations; a loop invariant that no longer fits is not a violation
        kind = next(k for k in ("VarArray", "ArraySet", "ArrayMap") if k in nm)
        w = contract.sweep([x for x in items() if kind in x.name] or items(), 5, 60, 100)
        h = [] if w["violations"] else histories(77, 60, 12, 60)["violations"]
        return {"violations": (w["violations"] + h)[:1], "undecided": True} if w["violations"] + h else {"undecided": True}
    return contract.replay(items(), o)

"""C17 Sorting and searching arrays are correct for every content: unbounded proofs over the compiled loops of array_like."""
import os

import z3

from vp import front, sx, sym
from vp.check import Task
from vp.checks.common import merge, pack
from vp.contract import Item, conj
from vp.hoare import A0, KEY, HoareContract, it
from vp.sym import SReal

META = {
    "level": "proof",
    "functions": ["_insertion_sort", "_heapify", "_heap_sort", "ArrayLike.sort", "ArrayLike.reverse", "ArrayLike.swap", "ArrayLike.swap_unchecked", "ArrayLike.index", "ArrayLike.last_index", "ArrayLike.count",
                  "ArrayLike.__contains__", "ArrayLike.index_of_max", "ArrayLike.index_of_min", "UncheckedArrayProxy", "ArrayPointer accesses", "sort_linked_entities, _merge_sort_linked_list_nodes, _merge_linked_list_nodes (bounded)"],
    "trusted": ["z3", "the front end's translation of these functions (C22) and the optimizer (C01)", "an injective map of a finite set into itself is a rearrangement", "the element type is opaque to the algorithms: an element is moved as a whole and otherwise only compared"],
    "assumptions": ["numbers as reals (no NaN)", "key functions are functions of the element", "_heap_sort is called with start 0 (its only caller)", "sort_linked_entities: lists up to 5 nodes (thorough 6), all keys"],
    "rule": "one contract per function for every length and content, loops cut by invariants over the source variables, callees by contract; bounded part: lengths on both sides of the switch between the algorithms at every optimization level, records with keys, variable-size arrays and reversed views, linked lists",
    "technique": "loop invariants and contracts on the compiled real functions: quantified facts over array positions with explicit instantiation, elements as identities; z3",
    "level_note": "unbounded except for linked lists, which are bounded in length",
    "deadline": {"quick": 300, "thorough": 800},
}
TARGET = "sonolus.script.array_like"
BASE = 8
I = z3.IntVal
And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
_items = None


def namespace():
    from sonolus.script import array_like as al
    from sonolus.script.containers import ArrayPointer
    from sonolus.script.internal.impl import validate_value
    from sonolus.script.internal.meta_fn import meta_fn
    from sonolus.script.num import Num

    @meta_fn
    def keyfn(x):
        return front.call(1, [validate_value(x)], 1)[0]
    ns = dict(front.api(), ArrayPointer=ArrayPointer, Num=Num, al=al, keyfn=keyfn)
    return ns


def fn(body, ns):
    code = "def f():\n    a = ArrayPointer[Num](inp(0), inp(1), 8)\n" + "\n".join("    " + l for l in body.split("\n")) + "\n    done(1)\n"
    return front.src_fn(code, ns)


def key_call(run, x):
    """the key function is arbitrary"""
    return [SReal(KEY(x.t))]


TYPES = {None: "real", 0: "int", 1: ("const", front.IN)}


def inside(k, n):
    return And(k >= 0, k < n)


def injective(s, n):
    """no two positions hold the same element, each holds an element of the array"""
    return {"elements are kept": lambda a, b: Imp(And(inside(a, n), inside(b, n), s.G(a) == s.G(b)), a == b),
            "elements are from the array": lambda a: Imp(inside(a, n), inside(s.G(a), n)), "rest of the memory": lambda a: Imp(Not(inside(a, n)), s.G(a) == a)}


def size(v):
    return v[0] >= 0


# ---------------------------------------------------------------- insertion sort
def before(s, rev):
    """element at a may stand before the element at b in the stable order"""
    def f(a, b):
        ka, kb = s.key(a), s.key(b)
        return Or(ka > kb if rev else ka < kb, And(ka == kb, s.G(a) < s.G(b)))
    return f


def insertion(rev):
    def outer(v, s):
        n, i = v.t(0), s["i"]
        b = before(s, rev)
        return {**injective(s, n), "i": And(i >= 1, Or(i <= n, n == 0)), "sorted prefix": lambda p, q: Imp(And(p >= 0, p < q, q < i, q < n), b(p, q)), "untouched": lambda k: Imp(k >= i, s.G(k) == k),
                "prefix": lambda k: Imp(And(k >= 0, k < i), s.G(k) < i)}

    def inner(v, s):
        n, i, j = v.t(0), s["i"], s["j"]
        b = before(s, rev)
        return {**injective(s, n), "i": And(i >= 1, i < n), "j": And(j >= 0, j <= i), "sorted but for j": lambda p, q: Imp(And(p >= 0, p < q, q <= i, p != j, q != j), b(p, q)),
                "j first of the rest": lambda q: Imp(And(q > j, q <= i), b(j, q)), "untouched": lambda k: Imp(k > i, s.G(k) == k), "the inserted element": s.G(j) == i,
                "prefix": lambda k: Imp(And(k >= 0, k <= i), s.G(k) <= i)}

    def post(v, o, s):
        n = v.t(0)
        b = before(s, rev)
        return {**injective(s, n), "stable and sorted": lambda p, q: Imp(And(p >= 0, p < q, q < n), b(p, q))}
    return HoareContract(f"_insertion_sort reverse={rev}", fn(f"al._insertion_sort(a.unchecked(), 0, len(a), keyfn, {rev})", namespace()), TYPES, post, invs=[outer, inner], pre=size, calls={1: key_call})


# ---------------------------------------------------------------- heaps
def le(rev, a, b):
    return a >= b if rev else a <= b


def heap(s, rev, end, lo, but=None):
    """every position p >= lo below end precedes neither of its children"""
    def f(p):
        g = Imp(2 * p + 1 < end, le(rev, s.val(2 * p + 1), s.val(p)))
        h = Imp(2 * p + 2 < end, le(rev, s.val(2 * p + 2), s.val(p)))
        return Imp(And(p >= lo, p >= 0, True if but is None else p != but), And(g, h))
    return f


def family(t):
    return (2 * t + 1, 2 * t + 2, (t - 1) / 2)


def within(s, lo, end):
    """positions [lo, end) are rearranged among themselves"""
    return {"elements are kept": lambda a, b: Imp(s.G(a) == s.G(b), a == b), "range": lambda a: Imp(And(a >= lo, a < end), And(s.G(a) >= lo, s.G(a) < end)),
            "frame": lambda a: Imp(Not(And(a >= lo, a < end)), s.G(a) == a)}


def heapify(rev):
    """cells 2 = end, 3 = index"""
    def pre(v):
        return conj(v[0] >= 0, v[3] >= 0, v[2] >= 0, v[2] <= v[0])

    def inv(v, s):
        end, lo, c = v.t(2), v.t(3), s["index"]

        def grand(p):
            low = And(p >= lo, Or(2 * p + 1 == c, 2 * p + 2 == c))
            return Imp(low, And(Imp(2 * c + 1 < end, le(rev, s.val(2 * c + 1), s.val(p))), Imp(2 * c + 2 < end, le(rev, s.val(2 * c + 2), s.val(p)))))
        return {**within(s, lo, end), "index": And(c >= lo, Or(c == lo, c < end)), "heap but for index": heap(s, rev, end, lo, c), "parent of index": grand}

    def post(v, o, s):
        end, lo = v.t(2), v.t(3)
        return {**within(s, lo, end), "heap": heap(s, rev, end, lo)}
    return HoareContract(f"_heapify reverse={rev}", fn(f"al._heapify(a.unchecked(), inp(2), inp(3), {rev})", namespace()), {**TYPES, 2: "int", 3: "int"}, post, invs=[inv], pre=pre,
                         pre_q=lambda v, s: {"heap below": heap(s, rev, v.t(2), v.t(3) + 1)}, derive=family)


def heapify_call(rev):
    """the contract of _heapify at a call"""
    def call(run, end, index):
        from vp.hoare import St
        end, lo = it(end), it(index)
        s0 = St(run, {})
        run.check("_heapify: bounds", And(lo >= 0, end >= 0, end <= run.v.t(0)))
        run.check("_heapify: heap below", heap(s0, rev, end, lo + 1), [lo, end])
        P = sym.fresh("P", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        run.rearranged(None)
        s = St(run, {})
        p = lambda a: z3.Select(P, a)  # noqa: E731
        run.images.append(p)
        run.assume({"from": lambda a: s.G(a) == s0.G(p(a)), "kept": lambda a, b: Imp(p(a) == p(b), a == b), "range": lambda a: Imp(And(a >= lo, a < end), And(p(a) >= lo, p(a) < end)),
                    "frame": lambda a: Imp(Not(And(a >= lo, a < end)), p(a) == a), "heap": heap(s, rev, end, lo)})
        return []
    return call


def stub_heapify(cid):
    from sonolus.script.internal.impl import validate_value
    from sonolus.script.internal.meta_fn import meta_fn

    @meta_fn
    def stub(array, end, index, reverse):
        front.call(cid, [validate_value(end), validate_value(index)], 0)
    return stub


def heap_sort(rev):
    from sonolus.script import array_like as al

    def build(v, s):
        n, i = v.t(0), s["i"]
        return {**injective(s, n), "i": And(i >= -1, Or(2 * i + 2 <= n, i == -1)), "heap above i": heap(s, rev, n, i + 1)}

    def extract(v, s):
        n, i = v.t(0), s["i"]
        return {**injective(s, n), "i": And(i < n, Or(i >= 0, n == 0)), "heap": heap(s, rev, i + 1, I(0)),
                "sorted rest": lambda a, b: Imp(And(a > i, a >= 0, a <= b, b < n), le(rev, s.val(a), s.val(b))), "rest after heap": lambda a, b: Imp(And(a >= 0, a <= i, b > i, b < n), le(rev, s.val(a), s.val(b)))}

    def post(v, o, s):
        n = v.t(0)
        return {**injective(s, n), "sorted": lambda p, q: Imp(And(p >= 0, p <= q, q < n), le(rev, s.val(p), s.val(q)))}

    def root(v, s, i):
        """the root of a heap of i + 1 elements precedes none of them, by induction on the position (step checked here)"""
        def step(k, p):
            return Imp(And(k >= 1, k <= i, Or(2 * p + 1 == k, 2 * p + 2 == k), le(rev, s.val(p), s.val(0))), And(p >= 0, p < k, le(rev, s.val(k), s.val(0))))

        def parent(k):
            p = (k - 1) / 2
            return Imp(k >= 1, Or(2 * p + 1 == k, 2 * p + 2 == k))
        return step, parent, lambda k: Imp(And(k >= 0, k <= i), le(rev, s.val(k), s.val(I(0))))

    c = HoareContract(f"_heap_sort reverse={rev}", fn(f"al._heap_sort(a.unchecked(), 0, len(a), {rev})", namespace()), TYPES, post, invs=[build, extract], pre=size, derive=None,
                      stubs=[(al, "_heapify", stub_heapify(2))], calls={2: heapify_call(rev)})

    def entered(run, n, v, s):
        if n == 1:
            step, parent, concl = root(v, s, s["i"])
            run.check("root of the heap: induction step", step)
            run.check("root of the heap: every position has a parent", parent)
            run.hyps.append(concl)
    c.entered = entered
    return c


# ---------------------------------------------------------------- sort
def sort_call(rev, stable, keyed=False):
    def call(run, start, end):
        from vp.hoare import St
        n = run.v.t(0)
        Ctx = sym.Ctx.cur
        Ctx.prove("called on the whole array", And(it(start) == 0, it(end) == n))
        run.rearranged(None)
        s = St(run, {})
        facts = injective(s, n)
        if stable:
            b = before(s, rev) if keyed else lambda a, b: Or(s.val(a) > s.val(b) if rev else s.val(a) < s.val(b), And(s.val(a) == s.val(b), s.G(a) < s.G(b)))
            facts["sorted"] = lambda p, q: Imp(And(p >= 0, p < q, q < n), b(p, q))
        else:
            facts["sorted"] = lambda p, q: Imp(And(p >= 0, p <= q, q < n), le(rev, s.val(p), s.val(q)))
        run.assume(facts)
        return []
    return call


def sort(rev, keyed):
    from sonolus.script import array_like as al
    from sonolus.script.internal.impl import validate_value
    from sonolus.script.internal.meta_fn import meta_fn

    @meta_fn
    def insertion_stub(array, start, end, key, reverse):
        key = validate_value(key)
        k = (key._as_py_() if key._is_py_() else None)
        name = "identity" if k is al._identity else "key"
        front.call(3 if bool(validate_value(reverse)._as_py_()) == rev and (name == "key") == keyed else 4, [validate_value(start), validate_value(end)], 0)

    @meta_fn
    def heap_stub(array, start, end, reverse):
        front.call(5 if bool(validate_value(reverse)._as_py_()) == rev and not keyed else 4, [validate_value(start), validate_value(end)], 0)

    def wrong(run, start, end):
        sym.Ctx.cur.fail("sorted with another key or direction", "")

    def post(v, o, s):
        n = v.t(0)
        f = injective(s, n)
        if keyed:
            b = before(s, rev)
            f["stable and sorted"] = lambda p, q: Imp(And(p >= 0, p < q, q < n), b(p, q))
        else:
            f["sorted"] = lambda p, q: Imp(And(p >= 0, p < q, q < n), le(rev, s.val(p), s.val(q)))
        return f
    args = ", ".join((["key=keyfn"] if keyed else []) + ([f"reverse={rev}"] if rev else []))
    c = HoareContract(f"sort({args})", fn(f"a.sort({args})", namespace()), TYPES, post, pre=size, stubs=[(al, "_insertion_sort", insertion_stub), (al, "_heap_sort", heap_stub)],
                      calls={1: key_call, 3: sort_call(rev, True, keyed), 4: wrong, 5: sort_call(rev, False)})
    return c


# ---------------------------------------------------------------- other functions
def reverse():
    def inv(v, s):
        n, i, j = v.t(0), s["i"], s["j"]
        return {"ends": And(i + j == n - 1, i >= 0, i <= j + 1, Or(n > 0, i == 0)), "swapped": lambda k: Imp(And(inside(k, n), Or(k < i, k > j)), s.G(k) == n - 1 - k), "rest": lambda k: Imp(Or(Not(inside(k, n)), And(k >= i, k <= j)), s.G(k) == k)}

    def post(v, o, s):
        n = v.t(0)
        return {"reversed": lambda k: Imp(inside(k, n), s.G(k) == n - 1 - k), "frame": lambda k: Imp(Not(inside(k, n)), s.G(k) == k)}
    return HoareContract("reverse", fn("a.reverse()", namespace()), TYPES, post, invs=[inv], pre=size)


def unchanged(s):
    return {"array unchanged": lambda k: s.G(k) == k}


def swap():
    def post(v, o, s):
        i, j = v.t(2), v.t(3)
        return {"swapped": lambda k: s.G(k) == z3.If(k == i, j, z3.If(k == j, i, k))}
    return HoareContract("swap", fn("a.swap(inp(2), inp(3))", namespace()), {**TYPES, 2: "int", 3: "int"}, post, pre=lambda v: conj(v[0] >= 0, v[2] >= 0, v[2] < v[0], v[3] >= 0, v[3] < v[0]))


def search(kind):
    """index / last_index / contains / count of the number in cell 4"""
    def content(k):
        return A0(k)
    C = z3.Function("count", z3.IntSort(), z3.IntSort())

    def inv(v, s):
        n, x, i = v.t(0), v[4].t, s["i"]
        none = lambda k: Imp(inside(k, i), A0(k) != x)  # noqa: E731
        if kind == "last_index":
            return {"i": And(i >= -1, i < n), "none above i": lambda k: Imp(And(k > i, k < n), A0(k) != x)}
        if kind == "count":
            return {"i": And(i >= 0, Or(i <= n)), "count": s["count"] == C(i)}
        return {"i": And(i >= 0, i <= n), "none below i": none}

    def pre_q(v, s):
        if kind != "count":
            return {}
        x = v[4].t
        return {"count 0": C(I(0)) == 0, "count": lambda k: Imp(k >= 0, C(k + 1) == C(k) + z3.If(A0(k) == x, 1, 0))}

    def post(v, o, s):
        n, x = v.t(0), v[4].t
        r = it(o[0])
        f = {}
        if kind == "index":
            f["index"] = Or(r == -1, And(inside(r, n), A0(r) == x))
            f["first"] = lambda k: Imp(And(inside(k, n), Or(r == -1, k < r)), A0(k) != x)
        elif kind == "last_index":
            f["index"] = Or(r == -1, And(inside(r, n), A0(r) == x))
            f["last"] = lambda k: Imp(And(inside(k, n), k > r), A0(k) != x)
        elif kind == "count":
            f["count"] = r == C(n)
        else:
            f["member"] = Or(r == 0, r == 1)
            f["absent"] = lambda k: Imp(And(inside(k, n), A0(k) == x), r == 1)
            f["present"] = Imp(r == 1, Or(*[And(inside(t, n), A0(t) == x) for t in s.run.terms.values()]))
        return {**f, **unchanged(s)}
    code = {"index": "a.index(inp(4))", "last_index": "a.last_index(inp(4))", "count": "a.count(inp(4))", "contains": "inp(4) in a"}[kind]
    return HoareContract(kind, fn(f"out(0, {code})", namespace()), TYPES, post, invs=[inv], pre=size, pre_q=pre_q)


def index_range():
    """index(x, start, stop) with a range inside the array"""
    def lo(v):
        return z3.If(v.t(2) < 0, z3.If(v.t(2) + v.t(0) < 0, 0, v.t(2) + v.t(0)), v.t(2))

    def hi(v):
        b = z3.If(v.t(3) < 0, v.t(3) + v.t(0), v.t(3))
        return z3.If(b > v.t(0), v.t(0), b)

    def inv(v, s):
        x, i = v[4].t, s["i"]
        return {"i": And(i >= lo(v), Or(i <= hi(v), i == lo(v)), s["stop"] == hi(v)) if "stop" in s.names else And(i >= lo(v), Or(i <= hi(v), i == lo(v))), "none": lambda k: Imp(And(k >= lo(v), k < i), A0(k) != x)}

    def post(v, o, s):
        x, r = v[4].t, it(o[0])
        return {"index": Or(r == -1, And(r >= lo(v), r < hi(v), A0(r) == x)), "first": lambda k: Imp(And(k >= lo(v), k < hi(v), Or(r == -1, k < r)), A0(k) != x), **unchanged(s)}
    return HoareContract("index start stop", fn("out(0, a.index(inp(4), inp(2), inp(3)))", namespace()), {**TYPES, 2: "int", 3: "int"}, post, invs=[inv], pre=size)


def extreme(kind, keyed):
    big = kind == "max"

    def better(s, a, b):
        x, y = (s.key(a), s.key(b)) if keyed else (s.val(a), s.val(b))
        return x > y if big else x < y

    def inv(v, s):
        n, i, m = v.t(0), s["i"], s[f"{kind}_index"]
        return {"i": And(i >= 1, i <= n), "best": And(m >= 0, m < i), "of those seen": lambda k: Imp(inside(k, i), Not(better(s, k, m))), "first": lambda k: Imp(inside(k, m), better(s, m, k))}

    def post(v, o, s):
        n, r = v.t(0), it(o[0])
        return {"empty": Imp(n == 0, r == -1), "index": Imp(n > 0, inside(r, n)), "best": lambda k: Imp(inside(k, n), Not(better(s, k, r))), "first": lambda k: Imp(And(n > 0, inside(k, r)), better(s, r, k)), **unchanged(s)}
    return HoareContract(f"index_of_{kind}" + (" key" if keyed else ""), fn(f"out(0, a.index_of_{kind}({'key=keyfn' if keyed else ''}))", namespace()), TYPES, post, invs=[inv], pre=size, calls={1: key_call})


# ---------------------------------------------------------------- concrete runs
class Real(Item):
    """code on the array ``a``; model(xs, x) changes the list and returns the results"""

    def __init__(self, name, body, model, sizes=(0, 1, 2, 3, 4, 5, 7), contract=None, args=None, ns=None, decl=None):
        self.model, self.sizes, self.args = model, sizes, args
        n = dict(namespace(), **(ns or {}))
        f = fn(body, n) if decl is None else front.src_fn(f"def f():\n    a = {decl}\n" + "\n".join("    " + l for l in body.split("\n")) + "\n    done(1)\n", n)
        super().__init__(name, f, self.draw, None, contract)
        self.fixed = decl is not None

    def draw(self, r):
        n = r.choice(self.sizes)
        pool = [r.choice([0, 1, -1, 2, 3, 0.5, -2, 7]) for _ in range(4)]
        x = {0: n, 1: front.IN, 4: r.choice(pool)}
        for i in range(n):
            x[BASE + i] = r.choice(pool) if r.random() < 0.6 else r.choice([-3, 4, 9, 1.5, -7, 100, 2, -2, 1, -1])
        a = self.args(r, n) if self.args is not None else (0, 0)
        x[2], x[3] = a
        return x

    def one(self, x):
        n = int(x[0])
        if n < 0 or any(BASE + i not in x for i in range(n)):
            return None
        xs = [x[BASE + i] for i in range(n)]
        try:
            res = self.model(xs, x) if self.model is not None else None
        except (IndexError, ValueError):
            return None
        for lev, r in self.compiled().run(x).items():
            if r[0] != "ok":
                return f"{lev}: {r[0]}: {r[1]}"
            got = r[5][BASE:BASE + n]
            for k, w in enumerate(res or ()):
                if not (k < len(r[2]) and r[2][k] == w):
                    return f"{lev}: result {r[2][:len(res)]}, expected {res}"
            if self.model is None:
                w = self.wrong(xs, x, got)
                if w:
                    return f"{lev}: {got}: {w}"
            elif got != xs:
                return f"{lev}: array {got}, expected {xs}"
            if any(c != float(x.get(i, -1.0)) for i, c in enumerate(r[5]) if not BASE <= i < BASE + n):
                return f"{lev}: memory outside the array changed"
        return None


def _rev(xs, x):
    xs.reverse()


def _swap(xs, x):
    i, j = int(x[2]), int(x[3])
    xs[i], xs[j] = xs[j], xs[i]


def _idx(xs, x, lo=0, hi=None):
    return next((i for i in range(*slice(lo, hi).indices(len(xs))) if xs[i] == x[4]), -1)


def _heapified(rev):
    """what is wrong with the array ``got`` after _heapify of xs"""
    def wrong(xs, x, got):
        end, lo = int(x[2]), int(x[3])
        ok = lambda ys, a: all(not (ys[c] < ys[p] if rev else ys[c] > ys[p]) for p in range(a, end) for c in (2 * p + 1, 2 * p + 2) if c < end)  # noqa: E731
        if not ok(xs, lo + 1):
            return None
        if not ok(got, lo) or sorted(got[lo:end]) != sorted(xs[lo:end]) or got[:lo] != xs[:lo] or got[max(end, lo):] != xs[max(end, lo):]:
            return "not the heap of the same elements"
        return None
    return wrong


BIG = (0, 1, 2, 5, 13, 14, 15, 16, 17, 30, 41)


def real_items():
    L = []
    ex = [(f"_insertion_sort reverse={rev}", f"al._insertion_sort(a.unchecked(), 0, len(a), abs, {rev})", lambda xs, x, rev=rev: xs.sort(key=abs, reverse=rev), (0, 1, 2, 3, 4, 6), insertion(rev)) for rev in (False, True)]
    ex += [(f"_heap_sort reverse={rev}", f"al._heap_sort(a.unchecked(), 0, len(a), {rev})", lambda xs, x, rev=rev: xs.sort(reverse=rev), (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 18), heap_sort(rev)) for rev in (False, True)]
    for rev in (False, True):
        for keyed in (False, True):
            args = ", ".join((["key=abs"] if keyed else []) + ([f"reverse={rev}"] if rev else []))
            ex.append((f"sort({args})", f"a.sort({args})", lambda xs, x, rev=rev, keyed=keyed: xs.sort(key=abs if keyed else None, reverse=rev), BIG, sort(rev, keyed)))
    ex.append(("sort, direction known at run time only", "a.sort(reverse=inp(4) > 0.7)", lambda xs, x: xs.sort(reverse=x[4] > 0.7), BIG, None))
    ex.append(("sort with key, direction known at run time only", "a.sort(key=lambda q: -(q * q), reverse=inp(4) > 0.7)", lambda xs, x: xs.sort(key=lambda q: -(q * q), reverse=x[4] > 0.7), (0, 3, 6, 16), None))
    ex.append(("reverse", "a.reverse()", _rev, BIG, reverse()))
    ex.append(("index", "out(0, a.index(inp(4)))", lambda xs, x: [_idx(xs, x)], BIG, search("index")))
    ex.append(("last_index", "out(0, a.last_index(inp(4)))", lambda xs, x: [max([i for i, y in enumerate(xs) if y == x[4]], default=-1)], BIG, search("last_index")))
    ex.append(("count", "out(0, a.count(inp(4)))", lambda xs, x: [xs.count(x[4])], BIG, search("count")))
    ex.append(("contains", "out(0, inp(4) in a)", lambda xs, x: [x[4] in xs], BIG, search("contains")))
    for kind, f in (("max", max), ("min", min)):
        for keyed in (False, True):
            k = abs if keyed else (lambda z: z)
            ex.append((f"index_of_{kind}" + (" key" if keyed else ""), f"out(0, a.index_of_{kind}({'key=abs' if keyed else ''}))", lambda xs, x, f=f, k=k: [xs.index(f(xs, key=k)) if xs else -1], BIG, extreme(kind, keyed)))
            ex.append((f"{kind} of an array" + (" key" if keyed else ""), f"out(0, {kind}(a{', key=abs' if keyed else ''}))", lambda xs, x, f=f, k=k: [f(xs, key=k)], (1, 2, 3, 8, 20), None))
    for nm, body, model, sizes, c in ex:
        L.append(Real(nm, body, model, sizes, c))
    inr = lambda r, n: (r.randrange(max(n, 1)), r.randrange(max(n, 1)))  # noqa: E731
    L.append(Real("swap", "a.swap(inp(2), inp(3))", _swap, (1, 2, 3, 9), swap(), args=inr))
    anyr = lambda r, n: (r.randint(-n - 2, n + 2), r.randint(-n - 2, n + 2))  # noqa: E731
    L.append(Real("index start stop", "out(0, a.index(inp(4), inp(2), inp(3)))", lambda xs, x: [_idx(xs, x, int(x[2]), int(x[3]))], (0, 1, 3, 6), index_range(), args=anyr))
    for rev in (False, True):
        hp = Real(f"_heapify reverse={rev}", f"al._heapify(a.unchecked(), inp(2), inp(3), {rev})", None, (0, 1, 2, 3, 5, 9, 16), heapify(rev))

        hp.wrong = _heapified(rev)

        def draw(r, hp=hp, rev=rev):
            x = Real.draw(hp, r)
            n = int(x[0])
            end = r.randint(0, n)
            lo = r.randrange(3)
            ys = sorted([x[BASE + i] for i in range(lo + 1, end)], reverse=not rev)
            for i, y in zip(range(lo + 1, end), ys):
                x[BASE + i] = y
            x[2], x[3] = end, lo
            return x
        hp.draw = hp.sample = draw
        L.append(hp)
    return L


# ---------------------------------------------------------------- linked lists (bounded)
SHARED = 4102
ORDERS = [(), (3,), (2, 1), (1, 2), (3, 1, 2), (2, 4, 1, 3), (5, 3, 1, 4, 2), (4, 6, 2, 5, 1, 3)]


def linked_fn(both, where):
    from sonolus.script import containers
    from sonolus.script.archetype import EntityRef, PlayArchetype, shared_memory
    from typing import Any

    class Node(PlayArchetype):
        pad: int = shared_memory()
        value: float = shared_memory()
        next: EntityRef[Any] = shared_memory()
        prev: EntityRef[Any] = shared_memory()
    ns = dict(front.api(), sort_linked_entities=containers.sort_linked_entities, EntityRef=EntityRef, Node=Node)
    prev = ", get_prev_ref=lambda e: e.prev" if both else ""
    f = front.src_fn(f"def f():\n    r = sort_linked_entities(EntityRef[Node](inp(0)), get_value=lambda e: e.value, get_next_ref=lambda e: e.next{prev})\n    out(0, r.index)\n    done(1)\n", ns)
    return f, {Node: 0}


class Linked(Item):
    """sort_linked_entities of a list whose nodes lie in the entities ``order``"""

    def __init__(self, order, both):
        self.order, self.both = order, both
        f, self.arch = linked_fn(both, order)
        c = None
        if len(order) <= (5 if os.environ.get("VERIF_TIER") != "thorough" else 6):
            from vp.contract import Contract
            head = order[0] if order else 0
            c = Contract(f"sort_linked_entities {order} {'doubly' if both else 'singly'}", f, {None: "real", 0: ("const", head)}, self.post, fuel=20000, budget=200)
            c.archetypes, c.cellfn = self.arch, self.content
        super().__init__(f"sort_linked_entities {order} {'doubly' if both else 'singly'}", f, self.draw, None, c)

    def compiled(self):
        from vp.contract import Compiled
        if self._c is None:
            self._c = Compiled(self.fn, self.checks, self.mode, self.callback, archetypes=self.arch)
        return self._c

    def content(self, v, b, i):
        if b != SHARED:
            return None
        e, j = divmod(i, 32)
        if j == 1:
            return v[10 + e]
        k = self.order.index(e) if e in self.order else None
        if j == 2:
            return 0 if k is None or k == len(self.order) - 1 else self.order[k + 1]
        if j == 3:
            return 0 if k is None or k == 0 else self.order[k - 1]
        return 0

    def chain(self, o0, nxt):
        c, e = [], o0
        while e != 0 and len(c) <= len(self.order):
            c.append(int(e))
            e = nxt(int(e))
        return c

    def post(self, v, o):
        from vp.contract import disj
        mem = o.run.mem
        at = lambda e, j: mem.get((SHARED, 32 * e + j), self.content(v, SHARED, 32 * e + j))  # noqa: E731
        c = self.chain(o[0], lambda e: at(e, 2))
        g = {"all nodes once": sorted(c) == sorted(self.order)}
        for a, b in zip(c, c[1:]):
            later = self.order.index(a) < self.order.index(b)
            g[f"sorted {a} {b}"] = v[10 + a] <= v[10 + b] if later else v[10 + a] < v[10 + b]
        for (b, i), x in mem.items():
            if b == SHARED and i % 32 == 1:
                g[f"value {i // 32} kept"] = x == v[10 + i // 32]
        if self.both:
            g["back links"] = [int(at(e, 3)) for e in c] == [0, *c][:len(c)]
        return g

    def draw(self, r):
        return {0: self.order[0] if self.order else 0, **{10 + e: r.choice([0, 1, 2, -1, 0.5]) for e in self.order}}

    def one(self, x):
        n = max(self.order, default=0)
        blk = [float(self.content({10 + e: x.get(10 + e, 0) for e in range(n + 1)}, SHARED, i)) for i in range(32 * (n + 1))]
        want = sorted(self.order, key=lambda e: x[10 + e])
        for lev, r in self.compiled().run(x, blocks={SHARED: blk}).items():
            if r[0] != "ok":
                return f"{lev}: {r[0]}: {r[1]}"
            m = r[6][SHARED]
            c = self.chain(r[2][0], lambda e: m[32 * e + 2])
            if c != want:
                return f"{lev}: {c}, expected {want}"
            if self.both and [m[32 * e + 3] for e in c] != [0, *c][:len(c)]:
                return f"{lev}: back links {[m[32 * e + 3] for e in c]} of {c}"
            if [m[32 * e + 1] for e in self.order] != [x[10 + e] for e in self.order] or any(m[i] != blk[i] for i in range(len(blk)) if i % 32 not in (2, 3)):
                return f"{lev}: other memory changed"
        return None


def linked_items():
    import random
    L = [Linked(o, b) for o in ORDERS for b in (False, True)]
    for n in (7, 9):
        o = list(range(1, n + 1))
        random.Random(n).shuffle(o)
        L.append(Linked(tuple(o), True))
    return L


# ---------------------------------------------------------------- other containers (bounded sizes)
def seq_items():
    from vp import seq
    from sonolus.script import containers as c
    from sonolus.script.array import Array
    from sonolus.script.record import Record
    ns = dict(namespace(), VarArray=c.VarArray, Array=Array)
    exec("class Pt(Record):\n    x: float\n    y: float\n", dict(ns, Record=Record), ns)
    L = []

    def add(name, code, model, decl, n, cap, es, prefix):
        L.append(seq.item(seq.Op(f"{name} ({n})", decl, code, model, n, cap, es=es, prefix=prefix), ns))

    def srt(k, rev):
        def model(xs, p, x):
            xs.sort(key=(lambda e: e[k]) if k is not None else None, reverse=rev)
            return []
        return model

    def rvs(xs, p, x):
        xs.reverse()
        return []
    top = 3 if os.environ.get("VERIF_TIER") != "thorough" else 4
    for rev in (False, True):
        for n in range(top + 1):
            add(f"VarArray.sort reverse={rev}", f"a.sort(reverse={rev})", srt(None, rev), "inps(VarArray[Num, 5], 0)", n, 5, 1, 1)
            add(f"VarArray of records, sort by key, reverse={rev}", f"a.sort(key=lambda p: p.y, reverse={rev})", srt(1, rev), "inps(VarArray[Pt, 4], 0)", n, 4, 2, 1)
        for n in range(1, top + 1):
            add(f"Array of records, sort by key, reverse={rev}", f"a.sort(key=lambda p: p.x, reverse={rev})", srt(0, rev), f"inps(Array[Pt, {n}], 0)", n, n, 2, 0)
            add(f"Array.sort reverse={rev}", f"a.sort(reverse={rev})", srt(None, rev), f"inps(Array[Num, {n}], 0)", n, n, 1, 0)

        add(f"sort of a reversed view reverse={rev}", f"reversed(a).sort(reverse={rev})", lambda xs, p, x, rev=rev: (_stable_back(xs, rev), [])[1], f"inps(Array[Num, {top}], 0)", top, top, 1, 0)
    for n in range(5):
        add("VarArray.reverse", "a.reverse()", rvs, "inps(VarArray[Num, 5], 0)", n, 5, 1, 1)
        if n:
            add("Array.reverse of records", "a.reverse()", rvs, f"inps(Array[Pt, {n}], 0)", n, n, 2, 0)
            add("reversed", "i = 0\nfor e in reversed(a):\n    out(0, e) if i == 0 else (out(1, e) if i == 1 else out(2, e))\n    i += 1", lambda xs, p, x: [*list(reversed(xs))[:2]], f"inps(Array[Num, {n}], 0)", n, n, 1, 0)
    return L


def _stable_back(xs, rev):
    ys = xs[::-1]
    ys.sort(reverse=rev)
    xs[:] = ys[::-1]


def items():
    global _items
    if _items is None:
        _items = real_items() + linked_items() + seq_items()
    return _items


def prove(i, parts):
    return merge(*[pack(x.contract.prove()) for x in items()[i::parts] if x.contract is not None])


def run(i, parts, seed, n, secs):
    from vp import contract
    return contract.sweep(items()[i::parts], seed, n, secs)


def tasks(tier, seed):
    q = tier == "quick"
    os.environ["VERIF_TIER"] = tier
    return ([Task("real", "prove", i, 40, timeout=280) for i in range(40)] + [Task("real", "run", i, 8, seed, 25 if q else 1500, 50 if q else 500, timeout=600) for i in range(8)])


def replay(o):
    """the failing function, then everything that depends on it"""
    from vp import contract
    r = contract.replay(items(), o)
    if r.get("violations"):
        return r
    w = contract.sweep(items(), 7, 60, 100)
    return {"violations": w["violations"][:1]} if w["violations"] else r

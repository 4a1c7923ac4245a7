"""C15: compiled ranges behave exactly like Python ranges.

Contracts, for all integers start, stop and step != 0 (Python's definition of a range as the sequence start + k * step, 0 <= k < n):
  len            ensures n = 0 iff the range is empty, else start + (n-1) * step is the last element before stop
  iteration      loop invariant: after k iterations the iterator holds start + k * step and every earlier element is before stop;
                 ensures iteration k yields start + k * step, and the loop ends exactly when start + k * step is not before stop
  [i]            requires -n <= i < n; ensures start + (i if i >= 0 else i + n) * step; otherwise the runtime check trips
  in             ensures true iff the (real) item is start + k * step for an integer k with 0 <= k < n
  ==, !=         ensures equal iff the element sequences are
  reversed, enumerate, last, indexes with reversed roles: same"""
import math

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["Range.__new__", "Range.frozen", "Range.__iter__", "Range.__len__", "Range.__getitem__", "Range.get_unchecked", "Range.__contains__", "Range.__eq__", "Range.__ne__",
                  "Range.last", "RangeIterator.next", "range_or_tuple", "get_positive_index", "ArrayLike.__reversed__", "SonolusIterator.__iter__", "array_like._ArrayReverser", "array_like._ArrayEnumerator"],
    "trusted": ["z3", "the front end's translation of these functions (C22) and the optimizer (C01)", "the runtime's arithmetic (vp/rtspec.py), integer division by quotient and remainder"],
    "assumptions": ["integers are those whose intermediate results are exact doubles (machine arithmetic treated as mathematical)", "ranges with constant arguments are unrolled by the compiler: bounded"],
    "rule": "bounded part: start, stop, step, index drawn from -8..8 and larger values, constant and run-time arguments, every optimization level, against Python's range; non-trivial always",
    "deadline": {"quick": 200, "thorough": 800},
    "technique": "front-end compiled functions executed symbolically; loops cut by inductive invariants over mathematical integers",
    "level_note": "constant-argument ranges (unrolled tuples) are a bounded stand-in",
}


def _ints(n, lo=-8, hi=8):
    def f(r):
        x = {}
        for i in range(n):
            x[i] = r.randint(lo, hi) if r.random() < 0.9 else r.choice([-100, 100, 1000, -37, 55])
        return x
    return f


def items():
    from vp import front
    from vp.contract import Contract, Item, LoopContract, Skip, Terminated, conj, disj, iff, imp, neg
    A = front.api()
    inp, out, done = A["inp"], A["out"], A["done"]
    from sonolus.script.debug import debug_log
    from sonolus.script.internal.range import Range
    L = []

    def R(x, n=3):
        a = [int(x[i]) for i in range(n)]
        if n == 3 and a[2] == 0:
            raise Skip
        return range(*a)

    def size(s, e, st, n):
        """n is the number of elements"""
        pos = conj(n >= 0, iff(n == 0, e <= s), imp(n > 0, conj(s + (n - 1) * st < e, s + n * st >= e)))
        ng = conj(n >= 0, iff(n == 0, e >= s), imp(n > 0, conj(s + (n - 1) * st > e, s + n * st <= e)))
        return conj(imp(st > 0, pos), imp(st < 0, ng))

    def before(x, e, st):
        return disj(conj(st > 0, x < e), conj(st < 0, x > e))

    nz = lambda v: v[2] != 0

    def add(name, fn, sample, ref, C=None, **kw):
        L.append(Item(name, fn, sample, ref, C, **kw))

    # ---- length
    def f_len():
        out(0, len(range(inp(0), inp(1), inp(2))))
    add("len", f_len, _ints(3), lambda x: [len(R(x))], Contract("len", f_len, "int", lambda v, o: {"count": size(v[0], v[1], v[2], o[0])}, nz))

    def f_len1():
        out(0, len(range(inp(0))))
    add("len-stop", f_len1, _ints(1), lambda x: [len(range(int(x[0])))], Contract("len-stop", f_len1, "int", lambda v, o: {"count": iff(o[0] == v[0], v[0] >= 0) if False else conj(imp(v[0] > 0, o[0] == v[0]), imp(v[0] <= 0, o[0] == 0))}))

    def f_len2():
        out(0, len(range(inp(0), inp(1))))
    add("len-start-stop", f_len2, _ints(2), lambda x: [len(R(x, 2))], Contract("len-start-stop", f_len2, "int", lambda v, o: {"count": conj(imp(v[1] > v[0], o[0] == v[1] - v[0]), imp(v[1] <= v[0], o[0] == 0))}))

    def f_lenst():
        r = range(inp(0), inp(1), -3)
        out(0, len(r))
        out(1, len(range(inp(0), inp(1), 7)))
    add("len-constant-step", f_lenst, _ints(2), lambda x: [len(range(int(x[0]), int(x[1]), -3)), len(range(int(x[0]), int(x[1]), 7))],
        Contract("len-constant-step", f_lenst, "int", lambda v, o: {"down": _c(size, v[0], v[1], -3, o[0]), "up": _c(size, v[0], v[1], 7, o[1])}))

    # ---- iteration
    def loop(name, fn, n, st, start=None, stop=None, rev=False):
        s_ = start or (lambda v: v[0])
        e_ = stop or (lambda v: v[1])

        def ref(x):
            return list(R(x, n)) if st is None else list(range(*([int(x[0]), int(x[1])] if n == 2 else [int(x[0])]), *([] if n == 1 else [st])))

        def fstep(v):
            return v[2] if st is None else st
        C = LoopContract("iterate-" + name, fn, "int", lambda v, o, k: {"ends after the last element": neg(before(s_(v) + k * fstep(v), e_(v), _lift(fstep(v))))},
                         steps=lambda v: [fstep(v), 1, -1], inv=lambda v, k: {"earlier elements are in the range": imp(k > 0, before(s_(v) + (k - 1) * fstep(v), e_(v), _lift(fstep(v))))},
                         body=lambda v, o, k: {"element k": o[0] == s_(v) + k * fstep(v), "within the range": before(s_(v) + k * fstep(v), e_(v), _lift(fstep(v)))},
                         pre=nz if st is None else None)
        return ref, C

    def f_it():
        out(0, 0)
        for i in range(inp(0), inp(1), inp(2)):
            out(0, i)
            debug_log(i)
    ref, C = loop("start-stop-step", f_it, 3, None)
    add("iterate-start-stop-step", f_it, _ints(3), ref, C, from_log=True)

    def f_it2():
        out(0, 0)
        for i in range(inp(0), inp(1)):
            out(0, i)
            debug_log(i)
    ref, C = loop("start-stop", f_it2, 2, 1)
    add("iterate-start-stop", f_it2, _ints(2), ref, C, from_log=True)

    def f_it1():
        out(0, 0)
        for i in range(inp(0)):
            out(0, i)
            debug_log(i)
    ref, C = loop("stop", f_it1, 1, 1, start=lambda v: 0, stop=lambda v: v[0])
    add("iterate-stop", f_it1, _ints(1), ref, C, from_log=True)

    def f_itd():
        out(0, 0)
        for i in range(inp(0), inp(1), -2):
            out(0, i)
            debug_log(i)
    ref, C = loop("down", f_itd, 2, -2)
    add("iterate-down", f_itd, _ints(2), ref, C, from_log=True)

    def f_ite():
        out(0, 0)
        out(1, 0)
        for k, i in enumerate(range(inp(0), inp(1), inp(2)), inp(3)):
            out(0, i)
            out(1, k)
            debug_log(i)
            debug_log(k)
    base, C = loop("enumerate", f_ite, 3, None)
    b0 = C.body
    C.body = lambda v, o, k: {**b0(v, o, k), "counter": o[1] == v[3] + k}
    add("iterate-enumerate", f_ite, _ints(4), lambda x: [y for k, i in enumerate(R(x), int(x[3])) for y in (i, k)], C, from_log=True)

    def f_itr():
        out(0, 0)
        n = len(range(inp(0), inp(1), inp(2)))
        out(1, n)
        for i in reversed(range(inp(0), inp(1), inp(2))):
            out(0, i)
            debug_log(i)
    n_ = lambda o: o[1]
    C = LoopContract("iterate-reversed", f_itr, "int", lambda v, o, k: {"ends after the first element": k >= o[1], "one iteration per element": k <= o[1]},
                     steps=lambda v: [1, -1], inv=lambda v, k, o: {"at most n iterations": disj(k <= o[1])}, body=lambda v, o, k: {"element n-1-k": o[0] == v[0] + (o[1] - 1 - k) * v[2], "n": k < o[1]}, pre=nz)
    add("iterate-reversed", f_itr, _ints(3), lambda x: list(reversed(R(x))), C, from_log=True)

    # ---- elements
    def f_get():
        r = range(inp(0), inp(1), inp(2))
        out(1, len(r))
        out(0, r[inp(3)])
        done(1)

    def g_ref(x):
        try:
            return [R(x)[int(x[3])], len(R(x))]
        except IndexError:
            raise Terminated from None
    add("element", f_get, _ints(4), g_ref, Contract("element", f_get, "int", lambda v, o: {
        "value or check": imp(o.done == 1, conj(v[3] >= -o[1], v[3] < o[1], o[0] == v[0] + ite_(v[3] < 0, v[3] + o[1], v[3]) * v[2])) if o.has(0) else True,
        "valid index accepted": imp(conj(v[3] >= -o[1], v[3] < o[1]), o.done == 1)}, nz, checks="TERMINATE"), checks="TERMINATE")

    def f_get0():
        r = range(inp(0), inp(1), inp(2))
        out(1, len(r))
        out(0, r[inp(3)])

    def g0_ref(x):
        try:
            return [R(x)[int(x[3])], len(R(x))]
        except IndexError:
            raise Skip from None
    add("element-unchecked", f_get0, _ints(4), g0_ref, Contract("element-unchecked", f_get0, "int", lambda v, o: {
        "value": imp(conj(v[3] >= -o[1], v[3] < o[1]), o[0] == v[0] + ite_(v[3] < 0, v[3] + o[1], v[3]) * v[2])}, nz))

    def f_last():
        r = Range(inp(0), inp(1), inp(2))
        out(1, len(r))
        out(0, r.last)
        out(2, r.get_unchecked(inp(3)))

    def l_ref(x):
        if not len(R(x)):
            raise Skip
        return [R(x)[-1], len(R(x)), int(x[0]) + int(x[3]) * int(x[2])]
    add("last", f_last, _ints(4), l_ref, Contract("last", f_last, "int", lambda v, o: {"last": imp(o[1] > 0, o[0] == v[0] + (o[1] - 1) * v[2]), "unchecked": o[2] == v[0] + v[3] * v[2], "len": size(v[0], v[1], v[2], o[1])}, nz))

    # ---- membership: true iff some k in [0, n) gives the item.  Existence by the witness (item - start) / step
    def f_in():
        r = range(inp(0), inp(1), inp(2))
        out(0, inp(3) in r)
        out(1, inp(3) not in r)

    def in_spec(v, o):
        import z3
        from vp import sx
        from vp.contract import use
        from vp.sym import Ctx, SInt, fresh
        k = SInt(fresh("anyk", z3.IntSort()))
        el = v[0] + k * v[2]
        w = conj(k >= 0, before(el, v[1], v[2]))
        d = v[3] - v[0]
        sx.division((el - v[0]).t, v[2].t, k.t, z3.IntVal(0))
        use(imp(conj(k >= 0, v[2] > 0), k * v[2] >= 0))
        use(imp(conj(k >= 0, v[2] < 0), k * v[2] <= 0))
        # every integer is q * step + r with r between 0 and step
        q, rr = fresh("wq", z3.IntSort()), fresh("wr", z3.IntSort())
        Ctx.cur.axiom(sx.is_division(d.t, v[2].t, q, rr))
        sx.division(d.t, v[2].t, q, rr)
        return {"every element is a member": imp(conj(w, v[3] == el), o[0] == 1),
                "every member is an element": imp(o[0] != 0, conj(SInt(rr) == 0, SInt(q) >= 0, before(v[3], v[1], v[2]))),
                "truth value": disj(o[0] == 0, o[0] == 1), "not in": o[1] == 1 - o[0]}
    add("member", f_in, _ints(4), lambda x: [int(x[3] in R(x)), int(x[3] not in R(x))], Contract("member", f_in, "int", in_spec, nz, prove_ms=20000))

    def f_inr():
        out(0, inp(3) in range(inp(0), inp(1), inp(2)))

    def s_inr(r):
        x = _ints(4)(r)
        x[3] += r.choice([0.5, 0.25, 0])
        return x
    add("member-fraction", f_inr, s_inr, lambda x: [int(x[3] in R(x))])

    # ---- equality
    def f_eq():
        a = range(inp(0), inp(1), inp(2))
        b = range(inp(3), inp(4), inp(5))
        out(0, a == b)
        out(1, a != b)
        out(2, len(a))
        out(3, len(b))

    def eq_spec(v, o):
        from vp.contract import use
        n, m, a, b = o[2], o[3], v[2], v[5]
        use(imp(conj(n == m, a == b), n * a == m * b))
        use(imp(conj(n == m, (n - 1) * a == (m - 1) * b, n != 1), a == b))
        use(imp(n == 1, n * a == a))
        use(imp(m == 1, m * b == b))
        same = conj(n == m, imp(n > 0, v[0] == v[3]), imp(n > 1, v[2] == v[5]))
        return {"equal iff same elements": iff(o[0] != 0, same), "unequal": o[1] == 1 - o[0], "truth value": disj(o[0] == 0, o[0] == 1),
                "len": conj(size(v[0], v[1], v[2], n), size(v[3], v[4], v[5], m))}

    def eq_sample(r):
        x = _ints(6)(r)
        if r.random() < 0.6:
            x[3], x[5] = x[0], x[2]
            if r.random() < 0.5:
                x[4] = x[1] + r.randint(-2, 2)
        return x
    add("equal", f_eq, eq_sample, lambda x: [int(R(x) == _r2(x)), int(R(x) != _r2(x)), len(R(x)), len(_r2(x))],
        Contract("equal", f_eq, "int", eq_spec, lambda v: conj(v[2] != 0, v[5] != 0), prove_ms=20000))

    def f_eqc():
        a = range(inp(0), inp(1))
        out(0, a == a)
        out(1, a == range(inp(0), inp(2)))
        out(2, a == 5)
    add("equal-simple", f_eqc, _ints(3), lambda x: [1, int(R(x, 2) == range(int(x[0]), int(x[2]))), 0],
        Contract("equal-simple", f_eqc, "int", lambda v, o: {"reflexive": o[0] == 1, "stop": iff(o[1] != 0, disj(v[1] == v[2], conj(v[1] <= v[0], v[2] <= v[0]))), "other kinds": o[2] == 0}))
    return L


def ite_(c, a, b):
    from vp import sx
    return sx.ite(c, a, b)


def _lift(x):
    import z3
    from vp.sym import SInt
    return SInt(z3.IntVal(x)) if isinstance(x, int) else x


def _c(size, s, e, st, n):
    return size(s, e, _lift(st), n)


def _r2(x):
    from vp.contract import Skip
    if int(x[5]) == 0:
        raise Skip
    return range(int(x[3]), int(x[4]), int(x[5]))


def lemma():
    """the number of elements is determined by the characterization used above"""
    import z3
    from vp.sym import Ctx, Obl, SInt
    from vp.contract import conj, imp
    c = Ctx("lemma", budget_s=30)

    def run():
        s, e, st, n, m = (SInt.var(k) for k in ("s", "e", "st", "n", "m"))
        for sg in (1, -1):
            lt = (lambda a, b: a < b) if sg > 0 else (lambda a, b: a > b)
            ge = (lambda a, b: a >= b) if sg > 0 else (lambda a, b: a <= b)
            ch = lambda n: conj(n >= 1, lt(s + (n - 1) * st, e), ge(s + n * st, e))
            # n < m: (m - 1 - n) * st has the sign of st or is 0
            d = m - 1 - n
            c.prove(f"monotone {sg}", imp(conj(d >= 0, (st > 0) if sg > 0 else (st < 0)), ge(d * st, 0)))
            c.prove(f"unique {sg}", imp(conj(ch(n), ch(m), n < m, (st > 0) if sg > 0 else (st < 0), ge(d * st, 0)), False))
        c.cover("lemma")
    c.run(run)
    from vp import sx
    c.obls += [Obl("lemma:" + n, st, "z3", 0) for n, st in sx.division_lemmas()]
    return pack(c)


def prove(i):
    L = [x for x in items() if x.contract is not None]
    return merge(*[pack(L[j].contract.prove()) for j in range(i, len(L), 8)])


def run(i, seed, n):
    from vp import contract
    L = items()
    return contract.sweep([L[j] for j in range(i, len(L), 4)], seed, n)


def consts(i, parts, seed, n):
    """constant arguments (unrolled), partly constant arguments"""
    from vp import front
    from vp.contract import Item, sweep
    A = front.api()
    inp, out, done = A["inp"], A["out"], A["done"]
    from sonolus.script.debug import debug_log
    r = random.Random(seed * 100 + i)
    L = []
    for k in range(n):
        a, b, st = r.randint(-6, 6), r.randint(-6, 6), r.choice([-3, -2, -1, 1, 2, 3])
        if k % parts != i:
            continue
        mode = r.choice(["const", "const", "var-stop", "var-start", "one", "slice"])

        def mk(a=a, b=b, st=st, mode=mode):
            if mode == "const":
                def f():
                    t = 0
                    for x in range(a, b, st):
                        debug_log(x)
                    debug_log(len(range(a, b, st)))
                    debug_log(inp(0) in range(a, b, st))
                    debug_log(range(a, b, st) == range(a, b + 1, st))
                return f, lambda x: [*range(a, b, st), len(range(a, b, st)), int(x[0] in range(a, b, st)), int(range(a, b, st) == range(a, b + 1, st))]
            if mode == "one":
                def f():
                    for x in range(b):
                        debug_log(x)
                    for x in reversed(range(a, b, st)):
                        debug_log(x)
                return f, lambda x: [*range(b), *reversed(range(a, b, st))]
            if mode == "slice":
                def f():
                    for x in range(a, b, st):
                        if x == inp(0):
                            continue
                        if x == inp(1):
                            break
                        debug_log(x)
                    else:
                        debug_log(99)

                def ref(x):
                    o = []
                    for y in range(a, b, st):
                        if y == x[0]:
                            continue
                        if y == x[1]:
                            break
                        o.append(y)
                    else:
                        o.append(99)
                    return o
                return f, ref
            if mode == "var-stop":
                def f():
                    q = range(a, inp(0), st)
                    for x in q:
                        debug_log(x)
                    debug_log(len(q))
                    debug_log(inp(1) in q)
                return f, lambda x: [*range(a, x[0], st), len(range(a, x[0], st)), int(x[1] in range(a, x[0], st))]

            def f():
                q = range(inp(0), b, st)
                for x in q:
                    debug_log(x)
                debug_log(len(q))
                debug_log(inp(1) in q)
            return f, lambda x: [*range(x[0], b, st), len(range(x[0], b, st)), int(x[1] in range(x[0], b, st))]
        f, ref = mk()
        L.append(Item(f"constants {mode} {a} {b} {st}", f, _ints(2), ref, None, from_log=True))
    return sweep(L, seed, 6)


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", i, timeout=300) for i in range(8)] + [Task("real", "lemma", timeout=60)] +
            [Task("real", "run", i, seed, 60 if q else 1500, timeout=500) for i in range(4)] +
            [Task("real", "consts", i, 4, seed, 120 if q else 2000, timeout=500) for i in range(4)])


def replay(o):
    from vp import contract
    return contract.replay(items(), o)

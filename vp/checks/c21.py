"""C21: comparable floats order exactly like the tuples they encode.

Contracts, for all integers 0 <= v_i < m_i with m_1 * ... * m_n < 2^31 (limits constant or known only at run time)
  _UInt32.of            ensures 0 <= hi, lo < 2^16 and hi * 2^16 + lo = value mod 2^32
  _UInt32 +, -, *       ensures the same of the result modulo 2^32;  comparisons ensure the order of the values
  _ints_to_uint32       ensures the pair is the mixed-radix number u = (..(v_1 * m_2 + v_2) * m_3 ..) + v_n
  _uint32_to_comparable_float   requires u < 2^31; ensures sign * (1 + mantissa / 2^23) * 2^exponent with 0 <= mantissa < 2^23, 0 <= exponent < 128
                        (an exact single-precision number) equal to F(u)
  lemmas                F strictly increasing; u strictly monotone in the lexicographic order; u < m_1 * ... * m_n
  quantize_to_step      requires start < stop, step > 0; ensures 0 <= k < total, and for start <= value < stop the distance to start + k * step is at
                        most step / 2, in the last step less than step"""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["make_comparable_float", "_ints_to_uint32", "_uint32_to_comparable_float", "_UInt32.of", "_UInt32.__add__", "_UInt32.__sub__", "_UInt32.__mul__", "_UInt32._carry_add",
                  "_UInt32._borrow_sub", "_UInt32._carry_mul", "_UInt32._wrap_mul", "_UInt32 comparisons", "quantize_to_step", "product", "interval.clamp"],
    "trusted": ["z3", "the front end's translation of these functions (C22) and the optimizer (C01)", "2 ** e as an uninterpreted function with 2 ** (e + 1) = 2 * 2 ** e"],
    "assumptions": ["intermediate integers are exact doubles (machine arithmetic treated as mathematical; all are below 2^33)", "the listed shapes of constant and run-time limits (one to six pairs); others by the same step, and bounded"],
    "rule": "bounded part: tuples of 1-6 pairs with random, extreme and power-of-two limits, constant and run-time, neighbours in the lexicographic order, compiled at every level and in plain Python; non-trivial always",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "front-end compiled functions executed symbolically over mathematical integers; postconditions and order lemmas discharged by z3",
    "level_note": "quantization over the reals; float rounding of the quotient bounded only",
}


def spec_u(vs):
    u = 0
    for v, m in vs:
        u = u * m + v
    return u


def spec_f(u):
    """exact encoding in Python integers / fractions"""
    from fractions import Fraction
    if u < 2 ** 30:
        return -spec_f(2 ** 30 - 1 - u + 2 ** 30)
    w = u - 2 ** 30
    return (1 + Fraction(w % 2 ** 23, 2 ** 23)) * 2 ** (w // 2 ** 23)


def items():
    import z3
    from vp import front, sx
    from vp.contract import Contract, Item, Skip, conj, disj, iff, imp, use
    from vp.sym import Ctx, SInt, fresh
    from sonolus.script.internal.meta_fn import meta_fn
    from sonolus.script.numtools import _ints_to_uint32, _uint32_to_comparable_float, _UInt32, make_comparable_float, quantize_to_step
    A = front.api()
    inp, out, done = A["inp"], A["out"], A["done"]
    L = []

    def add(name, fn, sample, ref, C=None, **kw):
        L.append(Item(name, fn, sample, ref, C, **kw))
    W16, W32 = 2 ** 16, 2 ** 32

    @meta_fn
    def raw(hi, lo):
        from sonolus.script.num import Num
        return _UInt32._raw(hi=Num._accept_(hi), lo=Num._accept_(lo))

    def r16(r):
        return r.choice([0, 1, 255, 256, 257, 65535, 65534, 32768, r.randrange(W16), r.randrange(W16)])

    def s4(r):
        return {i: r16(r) for i in range(4)}

    def pre16(n):
        return lambda v: conj(*[conj(v[i] >= 0, v[i] < W16) for i in range(n)])

    def mod32(x, hi, lo):
        """hi * 2^16 + lo is x modulo 2^32"""
        q = SInt(fresh("wrap", z3.IntSort()))
        return q, conj(hi >= 0, hi < W16, lo >= 0, lo < W16)

    def congruent(x, hi, lo):
        return conj(hi >= 0, hi < W16, lo >= 0, lo < W16, _eqmod(x, hi * W16 + lo, W32))

    def _eqmod(a, b, m):
        from vp.sym import SBool, _nt
        return SBool((_nt(a, False) - _nt(b, False)) % z3.IntVal(m) == 0)

    def f_of():
        x = _UInt32.of(inp(0))
        out(0, x.hi)
        out(1, x.lo)
    add("of", f_of, lambda r: {0: r.choice([0, 1, 65535, 65536, 2 ** 31 - 1, 2 ** 32 - 1, r.randrange(2 ** 32), r.randrange(2 ** 24)])}, lambda x: [int(x[0]) // W16 % W16, int(x[0]) % W16],
        Contract("of", f_of, "int", lambda v, o: {"value": congruent(v[0], o[0], o[1]), "exact": imp(v[0] < W32, o[0] * W16 + o[1] == v[0])}, lambda v: v[0] >= 0))

    def two(name, fn, op):
        def ref(x):
            a, b = int(x[0]) * W16 + int(x[1]), int(x[2]) * W16 + int(x[3])
            c = op(a, b) % W32
            return [c // W16, c % W16]
        return ref

    def f_add():
        x = raw(inp(0), inp(1)) + raw(inp(2), inp(3))
        out(0, x.hi)
        out(1, x.lo)
    add("add", f_add, s4, two("add", f_add, lambda a, b: a + b), Contract("add", f_add, "int", lambda v, o: (lambda t: {"value": congruent(t, o[0], o[1]), "exact": imp(t < W32, o[0] * W16 + o[1] == t)})(v[0] * W16 + v[1] + v[2] * W16 + v[3]), pre16(4)))

    def f_sub():
        x = raw(inp(0), inp(1)) - raw(inp(2), inp(3))
        out(0, x.hi)
        out(1, x.lo)
    add("sub", f_sub, s4, two("sub", f_sub, lambda a, b: a - b), Contract("sub", f_sub, "int", lambda v, o: {"value": congruent(v[0] * W16 + v[1] - v[2] * W16 - v[3], o[0], o[1])}, pre16(4)))

    def f_mul():
        x = raw(inp(0), inp(1)) * raw(inp(2), inp(3))
        out(0, x.hi)
        out(1, x.lo)

    def mul_spec(v, o):
        # modulo 2^32 the product of the high halves vanishes
        p = (v[0] * W16 + v[1]) * (v[2] * W16 + v[3])
        return {"value": congruent(v[1] * v[3] + (v[0] * v[3] + v[1] * v[2]) * W16, o[0], o[1]), "exact": imp(p < W32, o[0] * W16 + o[1] == p)}
    add("mul", f_mul, s4, two("mul", f_mul, lambda a, b: a * b), Contract("mul", f_mul, "int", mul_spec, pre16(4), prove_ms=30000))

    def f_cmp():
        a, b = raw(inp(0), inp(1)), raw(inp(2), inp(3))
        out(0, a < b)
        out(1, a <= b)
        out(2, a > b)
        out(3, a >= b)
        out(4, a == b)
        out(5, a != b)

    def cmp_ref(x):
        a, b = (x[0], x[1]), (x[2], x[3])
        return [int(a < b), int(a <= b), int(a > b), int(a >= b), int(a == b), int(a != b)]

    def s_cmp(r):
        x = s4(r)
        if r.random() < 0.6:
            x[2] = x[0]
        if r.random() < 0.3:
            x[3] = x[1]
        return x

    def cmp_spec(v, o):
        a, b = v[0] * W16 + v[1], v[2] * W16 + v[3]
        return {"lt": iff(o[0] != 0, a < b), "le": iff(o[1] != 0, a <= b), "gt": iff(o[2] != 0, a > b), "ge": iff(o[3] != 0, a >= b), "eq": iff(o[4] != 0, a == b), "ne": iff(o[5] != 0, a != b)}
    add("compare", f_cmp, s_cmp, cmp_ref, Contract("compare", f_cmp, "int", cmp_spec, pre16(4)))

    # ---- the encoding of u
    def f_enc():
        out(0, _uint32_to_comparable_float(raw(inp(0), inp(1))))

    def enc_spec(v, o):
        u = v[0] * W16 + v[1]
        return {"F(u)": _is_f(u, o[0])}

    def _is_f(u, y):
        """y = F(u), with the mantissa and exponent in the single-precision range"""
        cs = []
        for sg, w, c in ((1, u - 2 ** 30, u >= 2 ** 30), (-1, 2 ** 30 - 1 - u, u < 2 ** 30)):
            e, m = SInt(fresh("e", z3.IntSort())), SInt(fresh("m", z3.IntSort()))
            from vp.sym import Ctx
            Ctx.cur.axiom(z3.And(w.t == e.t * 2 ** 23 + m.t, m.t >= 0, m.t < 2 ** 23))
            p = sx.pow2(e)
            cs.append(imp(c, conj(e >= 0, e < 128, y == sg * (1 + m / 2 ** 23) * p)))
        return conj(*cs)

    def s_enc(r):
        u = r.choice([0, 1, 2 ** 30 - 1, 2 ** 30, 2 ** 31 - 1, 2 ** 23, 2 ** 23 - 1, 2 ** 30 + 2 ** 23, 2 ** 30 - 2 ** 23, r.randrange(2 ** 31)])
        return {0: u // W16, 1: u % W16}
    add("encode", f_enc, s_enc, lambda x: [float(spec_f(int(x[0]) * W16 + int(x[1])))],
        Contract("encode", f_enc, "int", enc_spec, lambda v: conj(pre16(2)(v), v[0] < 2 ** 15), prove_ms=30000))

    # ---- the callees of the tuple functions, by their contracts above (exact when the result fits)
    fof, fadd, fmul, fenc = 1, 2, 3, 4
    vals = {}

    def value(hi, lo):
        return vals.get((str(hi), str(lo)), hi * W16 + lo)

    def pair(u):
        hi, lo = SInt(fresh("hi", z3.IntSort())), SInt(fresh("lo", z3.IntSort()))
        Ctx.cur.axiom(conj(hi >= 0, hi < W16, lo >= 0, lo < W16, hi * W16 + lo == u).t)
        vals[str(hi), str(lo)] = u
        return hi, lo

    def h_of(x):
        Ctx.cur.prove("argument of _UInt32.of", conj(x >= 0, x < W32))
        return pair(x)

    def h_add(a, b, c, d):
        u = value(a, b) + value(c, d)
        Ctx.cur.prove("a sum that fits", conj(u >= 0, u < W32, a >= 0, a < W16, b >= 0, b < W16, c >= 0, c < W16, d >= 0, d < W16))
        return pair(u)

    def h_mul(a, b, c, d):
        u = value(a, b) * value(c, d)
        Ctx.cur.prove("a product that fits", conj(u >= 0, u < W32, a >= 0, a < W16, b >= 0, b < W16, c >= 0, c < W16, d >= 0, d < W16))
        return pair(u)

    def h_enc(a, b):
        u = value(a, b)
        Ctx.cur.prove("an encodable number", conj(u >= 0, u < W32 // 2))
        return [F(u)]

    Fz = z3.Function("F", z3.IntSort(), z3.RealSort())

    def F(u):
        from vp.sym import SReal, _nt
        return SReal(Fz(_nt(u, False)))

    @classmethod
    @meta_fn
    def st_of(cls, value):
        from sonolus.script.num import Num
        return raw(*front.call(fof, [Num._accept_(value)], 2))

    @meta_fn
    def st_add(self, other):
        return raw(*front.call(fadd, [self.hi, self.lo, other.hi, other.lo], 2))

    @meta_fn
    def st_mul(self, other):
        return raw(*front.call(fmul, [self.hi, self.lo, other.hi, other.lo], 2))

    @meta_fn
    def st_enc(x):
        return front.call(fenc, [x.hi, x.lo], 1)[0]
    import sonolus.script.numtools as numtools
    modular = dict(stubs=[(_UInt32, "of", st_of), (_UInt32, "__add__", st_add), (_UInt32, "__mul__", st_mul), (numtools, "_uint32_to_comparable_float", st_enc)],
                   calls={fof: h_of, fadd: h_add, fmul: h_mul, fenc: h_enc})

    # ---- tuples: which limits are constants
    def shape(name, lims, cmpf):
        """lims: constants or None (run time)"""
        n = len(lims)
        k = [0]

        def limit(v, i):
            return lims[i] if lims[i] is not None else v[n + i]
        for i in range(n):
            k.append(i)
        src = ", ".join(f"(inp({i}), {lims[i] if lims[i] is not None else f'inp({n + i})'})" for i in range(n))
        ns = {"inp": inp, "out": out, "ints": _ints_to_uint32, "make": make_comparable_float}
        code = f"def f():\n    x = ints({src})\n    out(0, x.hi)\n    out(1, x.lo)\n    out(2, make({src}))\n"
        fn = front.src_fn(code, ns)

        def pre(v):
            cs = []
            p = 1
            for i in range(n):
                m = limit(v, i)
                cs += [v[i] >= 0, v[i] < m, m >= 1]
                p = p * m
            cs.append(p < 2 ** 31 if not isinstance(p, int) else True)
            return conj(*cs, hints(v) >= 0)

        def hints(v):
            u = v[0]
            p = limit(v, 0)
            for i in range(1, n):
                m = limit(v, i)
                # u < p  =>  u * m + v_i < p * m
                use(imp(conj(u + 1 <= p, m >= 1, u >= 0), conj((u + 1) * m <= p * m, u * m >= 0)))
                use(imp(conj(m >= 1, p >= 1), conj(p * m >= p, p * m >= m)))
                u, p = u * m + v[i], p * m
            return u

        def post(v, o):
            u = hints(v)
            return {"mixed radix": conj(o[0] >= 0, o[0] < 2 ** 15, o[1] >= 0, o[1] < W16, o[0] * W16 + o[1] == u), "encoded": o[2] == F(u)}

        def lims_of(x):
            return [lims[i] if lims[i] is not None else int(x[n + i]) for i in range(n)]

        def sample(r):
            x, left = {}, 2 ** 31 - 1
            for i in range(n):
                if lims[i] is not None:
                    left //= lims[i]
            for i in range(n):
                if lims[i] is None:
                    top = max(1, left)
                    m = r.choice([1, 2, 3, min(top, 256), min(top, 65536), min(top, 65537), r.randint(1, top), top, int(top ** 0.5) or 1])
                    m = max(1, min(m, top))
                    x[n + i] = m
                    left //= m
            ms = [lims[i] if lims[i] is not None else x[n + i] for i in range(n)]
            for i in range(n):
                x[i] = r.choice([0, ms[i] - 1, r.randrange(ms[i]), r.randrange(ms[i])])
            return x

        def ref(x):
            u = spec_u([(int(x[i]), m) for i, m in enumerate(lims_of(x))])
            y = float(spec_f(u))
            return [u // W16, u % W16, y]
        from vp.contract import Contract as C
        add("tuple-" + name, fn, sample, ref, C("tuple-" + name, fn, "int", post, pre, prove_ms=30000, budget=100, **modular) if cmpf else None)

    T = True
    shape("r", [None], T)
    shape("rr", [None, None], T)
    shape("rrr", [None, None, None], T)
    shape("c", [1000], T)
    shape("big", [2 ** 31 - 1], T)
    shape("2^24", [2 ** 24], T)
    shape("cc", [1000, 1000], T)
    shape("cc-split", [70000, 30000], T)
    shape("c-big-c", [3, 2 ** 24, 40], T)
    shape("ccc", [5, 7, 11], T)
    shape("ccc-split", [2000, 2000, 500], T)
    shape("cr", [100, None], T)
    shape("rc", [None, 100], T)
    shape("crc", [10, None, 20], T)
    shape("rcr", [None, 30, None], T)
    shape("ccr", [10, 20, None], T)
    shape("rcc", [None, 40, 50], T)
    shape("one", [1, None, 1], T)
    shape("c1c", [16, 1, 2 ** 20, 1, 100], T)
    shape("rrrr", [None] * 4, T)
    shape("crcrc", [3, None, 5, None, 7], T)
    shape("c6", [10, 20, 30, 10, 5, 7], T)

    # ---- quantization
    def f_q():
        k, total = quantize_to_step(inp(0), inp(1), inp(2), inp(3))
        out(0, k)
        out(1, total)

    def q_spec(v, o):
        x, s, e, st, k, n = v[0], v[1], v[2], v[3], o[0], o[1]
        d = x - (s + k * st)
        return {"step index": conj(k >= 0, k <= n - 1), "total": n >= 1,
                "the steps cover the range": conj(s + n * st >= e, disj(n == 1, s + (n - 1) * st < e)),
                "near": imp(conj(x >= s, x < e), conj(d * 2 >= -st, disj(d * 2 <= st, conj(k == n - 1, d < st)))),
                "below": imp(x < s, k == 0), "above": imp(x >= e, k == n - 1)}

    def q_ref(x):
        v, s, e, st = (x[i] for i in range(4))
        if not (e > s and st > 0):
            raise Skip
        n = max(1, math.ceil((e - s) / st))
        return [min(max(round((v - s) / st), 0), n - 1), n]

    def s_q(r):
        st = r.choice([1, 0.5, 0.25, 2, 0.001, 0.01, 0.1, 3])
        s = r.choice([0, -100, 5, r.uniform(-10, 10)])
        e = s + st * r.choice([0.3, 1, 2.5, 10, 1000, 7])
        return {0: r.choice([s, e, s - 1, e + 1, r.uniform(s, e), s + st * r.randint(0, 8), s + st * (r.randint(0, 5) + 0.5), e - st / 4]), 1: s, 2: e, 3: st}
    add("quantize", f_q, s_q, q_ref, Contract("quantize", f_q, "real", q_spec, lambda v: conj(v[2] > v[1], v[3] > 0), prove_ms=30000))
    return L


def lemmas():
    """order lemmas"""
    import z3
    from vp import sx
    from vp.contract import conj, disj, iff, imp, use
    from vp.sym import Ctx, SInt, SReal
    c = Ctx("lemma", budget_s=120, prove_ms=30000)

    def run():
        # F is strictly increasing on [0, 2^31)
        e1, e2, m1, m2 = (SInt.var(k) for k in ("e1", "e2", "m1", "m2"))
        for m in (m1, m2):
            c.assume(conj(m >= 0, m < 2 ** 23))
        for e in (e1, e2):
            c.assume(conj(e >= 0, e < 128))
        p1, p2 = sx.pow2(e1), sx.pow2(e2)
        f1, f2 = (1 + m1 / 2 ** 23) * p1, (1 + m2 / 2 ** 23) * p2
        c.prove("increasing above 2^30, equal exponents", imp(conj(e1 == e2, m1 < m2), f1 < f2))
        c.prove("increasing above 2^30, larger exponent", imp(e1 < e2, f1 < f2))
        c.prove("positive", conj(f1 > 0, f1 >= 1))
        c.prove("decomposition order", imp(e1 * 2 ** 23 + m1 < e2 * 2 ** 23 + m2, disj(e1 < e2, conj(e1 == e2, m1 < m2))))
        c.cover("order")
    c.run(run)
    d = Ctx("lexicographic", budget_s=60, prove_ms=30000)

    def run2():
        # one step of the mixed radix number: (u, a) < (w, b) lexicographically iff u * m + a < w * m + b
        u, w, a, b, m = (SInt.var(k) for k in ("u", "w", "a", "b", "m"))
        d.assume(conj(a >= 0, a < m, b >= 0, b < m))
        use(imp(conj(u + 1 <= w, m >= 1), (u + 1) * m <= w * m))
        use(imp(conj(w + 1 <= u, m >= 1), (w + 1) * m <= u * m))
        use(imp(u == w, u * m == w * m))
        d.prove("step", iff(u * m + a < w * m + b, disj(u < w, conj(u == w, a < b))))
        d.prove("step equal", iff(u * m + a == w * m + b, conj(u == w, a == b)))
        d.cover("step")
    d.run(run2)
    return merge(pack(c), pack(d))


def prove(i, parts):
    L = [x for x in items() if x.contract is not None]
    return merge(*[pack(L[j].contract.prove()) for j in range(i, len(L), parts)])


def run(i, parts, seed, n):
    from vp import contract
    L = items()
    return contract.sweep([L[j] for j in range(i, len(L), parts)], seed, n)


def plain(seed, n):
    """plain Python and exactness: neighbours in the lexicographic order, single-precision"""
    import struct
    from sonolus.script.numtools import make_comparable_float, quantize_to_step
    r = random.Random(seed)
    bad, cnt = [], 0
    for _ in range(n):
        k = r.randint(1, 6)
        left, ms = 2 ** 31 - 1, []
        for _ in range(k):
            m = max(1, min(left, r.choice([1, 2, 3, 10, 256, 1000, 65536, 2 ** 24, r.randint(1, max(1, left)), left])))
            ms.append(m)
            left //= m
        r.shuffle(ms)

        def tup():
            return tuple(r.choice([0, m - 1, r.randrange(m)]) for m in ms)
        a = tup()
        b = tup()
        if r.random() < 0.7:
            u = min(spec_u(list(zip(a, ms))) + r.choice([1, 1, 2]), math.prod(ms) - 1)
            b = []
            for m in reversed(ms):
                b.append(u % m)
                u //= m
            b = tuple(reversed(b))
        cnt += 1
        x, y = (make_comparable_float(*zip(t, ms)) for t in (a, b))
        ok = (x < y) == (a < b) and (x == y) == (a == b)
        ok = ok and all(struct.unpack("<f", struct.pack("<f", z))[0] == z for z in (x, y))
        ok = ok and x == float(spec_f(spec_u(list(zip(a, ms)))))
        if not ok:
            bad.append({"key": "plain", "what": f"limits {ms}: {a} -> {x!r}, {b} -> {y!r}", "input": {"limits": ms, "a": a, "b": b}})
            break
        st = r.choice([0.1, 0.001, 1, 0.25, 3])
        s, e = r.uniform(-100, 0), r.uniform(0.1, 100)
        v = r.uniform(s, e)
        q, t = quantize_to_step(v, s, e, st)
        if not (0 <= q < t and (abs(v - (s + q * st)) <= st * 0.5000001 or (q == t - 1 and 0 <= v - (s + q * st) < st * 1.0000001))):
            bad.append({"key": "quantize plain", "what": f"quantize_to_step({v}, {s}, {e}, {st}) = {q}, {t}", "input": {"args": [v, s, e, st]}})
            break
    return {"violations": bad, "bounded": {"name": "plain Python", "evaluations": cnt, "distinct": cnt, "samples": [], "bound": f"{n} tuples"}}


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", i, 8, timeout=300) for i in range(8)] + [Task("real", "lemmas", timeout=200)] +
            [Task("real", "run", i, 4, seed, 40 if q else 1500, timeout=500) for i in range(4)] + [Task("real", "plain", seed, 3000 if q else 100000, timeout=500)])


def replay(o):
    from vp import contract
    return contract.replay(items(), o)

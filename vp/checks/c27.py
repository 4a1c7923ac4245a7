"""C27: streams read back what was written, in key order.

The runtime's stream operations are known by their contracts only: StreamHas, StreamGetValue are arbitrary functions of (id, key);
StreamGetNextKey(id, k) is the least key above k, or k if there is none; StreamGetPreviousKey likewise.  For every stream content, key,
start, time and probe key:
  s[k] = v            ensures component j of v is set at (id + j, k), nothing else is set
  s[k]                ensures component j is read at (id + j, k)
  data field          ensures component j is set at (id, j), with 0 half a key before and after it, and read at (id, j)
  k in s, next_key, ... ensures what their documentation says of the keys of s
  iter_*_from(start)  ensures the results of next() are the keys from start on, ascending (descending), each once, with its value
  iter_*_since_previous_frame  ensures the same of the keys after the previous frame's time up to the current time
  declarations        ensures no two fields, streams of a group, or components share an id; fields added at the end leave the others in place
Reads outside watch mode and writes outside play mode are rejected."""
import math
import random

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["stream.streams", "_StreamField", "_StreamDataField", "_StreamBacking", "_SparseStreamBacking", "Stream.__getitem__", "Stream.__setitem__", "Stream.__contains__", "Stream.next_key", "next_key_or_default",
                  "previous_key", "previous_key_or_default", "has_next_key", "has_previous_key", "next_key_inclusive", "previous_key_inclusive", "get_next", "get_previous", "get_next_inclusive", "get_previous_inclusive",
                  "iter_items_from", "iter_keys_from", "iter_values_from", "iter_*_from_desc", "iter_*_since_previous_frame", "the stream iterators' next", "StreamGroup.__getitem__", "StreamGroup.__contains__", "Stream.backing_size",
                  "StreamGroup.backing_size", "runtime.prev_time", "runtime.time"],
    "trusted": ["z3", "the contracts of the runtime's stream operations", "the front end's translation of these functions (C22) and the optimizer (C01)"],
    "assumptions": ["keys are finite numbers, treated as mathematical reals", "iteration: the first three results of next() from an arbitrary start; longer iterations bounded"],
    "rule": "bounded part: streams of up to six keys in -4..4, whole loops, every optimization level, play callbacks followed by watch callbacks; declarations generated; non-trivial always",
    "deadline": {"quick": 200, "thorough": 800},
    "technique": "front-end compiled functions executed symbolically over contracts of the runtime's stream operations (uninterpreted content); z3",
    "level_note": "declarations are generated (each proved for every index, key and value); whole loops are a bounded stand-in beyond three steps",
}
Q = 9                                # an arbitrary key, for statements about all keys
KEYS = range(40, 46)                 # concrete runs: the keys of the stream
TIME, DELTA = 20, 21
RT = 1001


def theory():
    """handlers of the runtime's operations over uninterpreted contents, and the content as functions for contracts"""
    import z3
    from vp.sym import Ctx, SBool, SReal
    R = z3.RealSort()
    H = z3.Function("has", R, R, z3.BoolSort())
    V = z3.Function("value", R, R, R)
    N = z3.Function("next", R, R, R)
    P = z3.Function("prev", R, R, R)

    def t(x):
        x = getattr(x, "t", x)
        if isinstance(x, (int, float)):
            return z3.RealVal(repr(x) if isinstance(x, float) else x)
        return z3.ToReal(x) if z3.is_expr(x) and x.sort() == z3.IntSort() else x

    def inf(x):
        return isinstance(x, float) and math.isinf(x)

    def ax(f, s, k, up):
        c = Ctx.cur
        n = f(t(s), t(k))
        lt = (lambda a, b: a < b) if up else (lambda a, b: b < a)
        c.axiom(z3.Or(n == t(k), z3.And(lt(t(k), n), H(t(s), n))))
        for q in PROBE:
            c.axiom(z3.Implies(z3.And(H(t(s), t(q)), lt(t(k), t(q))), z3.And(lt(t(k), n), z3.Not(lt(t(q), n)))))
        return SReal(n)

    def has(run, s, k):
        return 0 if inf(k) else 1 if bool(SBool(H(t(s), t(k)))) else 0

    def get(run, s, k):
        return SReal(V(t(s), t(k)))

    def nxt(run, s, k):
        return k if inf(k) else ax(N, s, k, True)

    def prv(run, s, k):
        return k if inf(k) else ax(P, s, k, False)
    PROBE = []
    return {"StreamHas": has, "StreamGetValue": get, "StreamGetNextKey": nxt, "StreamGetPreviousKey": prv}, PROBE, lambda s, k: SBool(H(t(s), t(k))), lambda s, k: SReal(V(t(s), t(k)))


def runner():
    from sonolus.backend.interpret import Interpreter

    class Streams(Interpreter):
        def __init__(self, data):
            super().__init__()
            self.data = data        # {id: {key: value}}
            self.sets = []

        def run(self, node):
            f = getattr(getattr(node, "func", None), "name", "")
            if not f.startswith("Stream"):
                return super().run(node)
            a = [float(self.run(x)) for x in node.args]
            d = self.data.get(a[0], {})
            if f == "StreamSet":
                self.sets.append(tuple(a))
                self.data.setdefault(a[0], {})[a[1]] = a[2]
                return 0.0
            if f == "StreamHas":
                return float(a[1] in d)
            if f == "StreamGetNextKey":
                return min((k for k in d if k > a[1]), default=a[1])
            if f == "StreamGetPreviousKey":
                return max((k for k in d if k < a[1]), default=a[1])
            if f == "StreamGetValue":
                return value(d, a[1])
            raise NotImplementedError(f)
    return Streams


def value(d, k):
    """linear between the surrounding keys, the nearest one outside"""
    if k in d:
        return d[k]
    lo = max((x for x in d if x < k), default=None)
    hi = min((x for x in d if x > k), default=None)
    if lo is None or hi is None:
        return d[lo if hi is None else hi] if d else 0.0
    return d[lo] + (d[hi] - d[lo]) * (k - lo) / (hi - lo)


class StreamItem:
    """fn run in the mode at every level on concrete stream contents: ref(x, keys) -> outputs or sets"""

    def __init__(self, name, fn, ref, contract=None, mode="WATCH", sets=False, callback="updateSequential", long=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self._c = None

    def sample(self, r):
        ks = sorted(r.sample(range(-4, 5), 6))
        n = r.choice([0, 1, 2, 3, 4, 6])
        x = {k: float(ks[j]) for j, k in enumerate(KEYS)}
        x[46] = float(n)
        near = [*ks[:n], *range(-5, 6)]
        x.update({i: float(r.choice(near)) + r.choice([0, 0, 0, 0.5]) for i in range(8)})
        x[0] = float(r.randrange(3)) if self.sets else x[0]
        x[8] = float(r.randrange(3))
        x[TIME] = float(r.choice(near)) + r.choice([0, 0, 0.5])
        x[DELTA] = r.choice([0.0, 0.5, 1.0, 1.0, 2.0, 5.0])
        return x

    def compiled(self):
        from vp.contract import Compiled
        if self._c is None:
            self._c = Compiled(self.fn, mode=self.mode, callback=self.callback)
        return self._c

    def one(self, x):
        from vp import front
        keys = [x[k] for k in KEYS][:int(x[46])]
        S = runner()
        want = self.ref(x, sorted(keys))
        c = self.compiled()
        for lev, (n, why) in c.nodes.items():
            if n is None:
                return f"{lev}: rejected: {why}"
            data = {float(s): {k: content(s, k) for k in keys} for s in range(1, 30)}
            it = S({} if self.sets else data)
            it.blocks[3000] = list(c.rom)
            it.blocks[front.IN] = [x.get(i, -1.0) for i in range(10)]
            it.blocks[RT] = [x[TIME], x[DELTA], 0.0, 0.0]
            try:
                from vp.checks.pipe import Hang, limit
                with limit(20):
                    it.run(n)
            except Hang:
                return f"{lev}: does not end"
            except Exception as e:  # noqa: BLE001
                return f"{lev}: {e!r}"
            got = it.sets if self.sets else it.log if self.long else list(it.blocks.get(front.OUT, []))[:len(want)]
            if len(got) != len(want) or any(w is not None and tuple_(g) != tuple_(w) for g, w in zip(got, want)):
                return f"{lev}: {got}, expected {want}"
        return None


def tuple_(x):
    return tuple(float(y) for y in x) if isinstance(x, (tuple, list)) else float(x)


def content(s, k):
    return float(s * 100 + k * 8)


def declare():
    from sonolus.script.array import Array
    from sonolus.script.record import Record
    from sonolus.script.stream import Stream, StreamGroup, streams

    class P(Record):
        x: int
        y: float

    class E(Record):
        pass

    @streams
    class S:
        a: Stream[float]
        p: Stream[P]
        d: int
        e: Stream[E]
        g: StreamGroup[P, 3]
        w: Array[P, 2]
        h: StreamGroup[E, 3]
        z: Stream[Array[int, 3]]
    return S, P, E


def items():
    import z3  # noqa: F401
    from vp import front
    from vp.contract import Contract, conj, disj, imp, neg
    A = front.api()
    inp, inps, out = A["inp"], A["inps"], A["out"]
    from sonolus.script.array import Array
    from sonolus.script.debug import debug_log
    S, P, E = declare()
    AI = Array[int, 3]
    L = []
    calls, PROBE, HAS, VAL = theory()

    class C(Contract):
        """the handlers see the probe key and the keys a statement is about"""

        def handlers(self):
            return calls

        def cellfn(self, v, b, i):
            if b == RT and i < 2:
                return v[TIME + i]
            return None

    def contract(name, fn, post, pre=None, mode="WATCH", types="real"):
        def pre_(v):
            PROBE[:] = [v[Q]]
            return True if pre is None else pre(v)
        c = C(name, fn, types, post, pre_, mode=mode, callback="updateSequential", budget=60)
        c.cellfn = lambda v, b, i: v[TIME + i] if b == RT and i < 2 else None
        return c

    def watch(name, fn, post, ref, pre=None, types="real"):
        L.append(StreamItem(name, fn, ref, contract(name, fn, post, pre, types=types)))

    def play(name, fn, want, pre=None, types="real"):
        """want(v): the sets in order"""
        def post(v, o):
            got = [a for op, a in o.run.log if op == "StreamSet"]
            w = want(v)
            r = {"number of sets": len(got) == len(w)}
            if len(got) == len(w):
                for i, (a, b) in enumerate(zip(got, w)):
                    r[f"set {i}"] = conj(*[x == y for x, y in zip(a, b)])
            return r
        L.append(StreamItem(name, fn, lambda x, ks: want(x), contract(name, fn, post, pre, mode="PLAY", types=types), mode="PLAY", sets=True))

    # ids of the declaration above
    a, p, d, e, g, w, h, z = 1, 2, 4, 5, 6, 12, 13, 16

    def f():
        S.a[inp(1)] = inp(2)
    play("set number", f, lambda v: [(a, v[1], v[2])])

    def f():
        S.p[inp(1)] = P(inp(2), inp(3))
        S.z[inp(1)] = Array(inp(4), inp(5), inp(6))
        S.e[inp(1)] = E()
    play("set record", f, lambda v: [(p, v[1], v[2]), (p + 1, v[1], v[3]), (z, v[1], v[4]), (z + 1, v[1], v[5]), (z + 2, v[1], v[6]), (e, v[1], 0)])

    def f():
        S.g[inp(8)][inp(1)] = P(inp(2), inp(3))
        S.h[inp(8)][inp(1)] = E()
    play("set in group", f, lambda v: [(g + 2 * v[8], v[1], v[2]), (g + 2 * v[8] + 1, v[1], v[3]), (h + v[8], v[1], 0)], pre=lambda v: conj(v[8] >= 0, v[8] <= 2), types={8: "int", None: "real"})

    def f():
        S.d = inp(1)
        S.w = Array(P(inp(2), inp(3)), P(inp(4), inp(5)))
        S.w[1].y = inp(6)

    def sparse(i, j, x):
        return [(i, j, x), (i, j - 0.5, 0), (i, j + 0.5, 0)]
    play("set data fields", f, lambda v: [*sparse(d, 0, v[1]), *[y for j in range(4) for y in sparse(w, j, v[2 + j])], *sparse(w, 3, v[6])])

    def val(s, k, ks):
        return value({q: content(s, q) for q in ks}, k)

    def f():
        out(0, S.a[inp(1)])
        out(1, S.p[inp(1)])
        out(3, S.z[inp(2)])
        out(6, S.g[inp(8)][inp(2)])
        out(8, S.p[inp(3)].y)
        out(9, S.z[inp(3)][1])
    RD = [(0, lambda v: a, 1), (1, lambda v: p, 1), (2, lambda v: p + 1, 1), (3, lambda v: z, 2), (4, lambda v: z + 1, 2), (5, lambda v: z + 2, 2), (6, lambda v: g + 2 * v[8], 2), (7, lambda v: g + 2 * v[8] + 1, 2), (8, lambda v: p + 1, 3), (9, lambda v: z + 1, 3)]
    watch("read", f, lambda v, o: {f"cell {i}": o[i] == VAL(s(v), v[k]) for i, s, k in RD}, lambda x, ks: [val(int(s(x)), x[k], ks) for i, s, k in RD], pre=lambda v: conj(v[8] >= 0, v[8] <= 2), types={8: "int", None: "real"})

    def f():
        out(0, S.d)
        out(1, S.w)
        out(5, S.w[1].x)
    DR = [(0, d, 0), (1, w, 0), (2, w, 1), (3, w, 2), (4, w, 3), (5, w, 2)]
    watch("read data fields", f, lambda v, o: {f"cell {i}": o[i] == VAL(s, k) for i, s, k in DR}, lambda x, ks: [val(s, k, ks) for i, s, k in DR])

    # queries about keys; a result r "is the least key above k" for the arbitrary key q
    def least(s, r, k, q, incl=False):
        return conj(HAS(s, r), r >= k if incl else r > k, imp(conj(HAS(s, q), q >= k if incl else q > k), r <= q))

    def greatest(s, r, k, q, incl=False):
        return conj(HAS(s, r), r <= k if incl else r < k, imp(conj(HAS(s, q), q <= k if incl else q < k), r >= q))

    def none(s, k, q, up=True, incl=False):
        """no key above (below) k"""
        return imp(HAS(s, q), (q < k if incl else q <= k) if up else (q > k if incl else q >= k))

    def up(ks, k, incl=False):
        return min((q for q in ks if q > k or (incl and q == k)), default=None)

    def down(ks, k, incl=False):
        return max((q for q in ks if q < k or (incl and q == k)), default=None)

    def f():
        k = inp(1)
        out(0, k in S.a)
        out(1, k not in S.g[1])
        out(2, 0 <= inp(2) < 3)
        out(3, inp(2) in S.g)
    watch("membership", f, lambda v, o: {"in": disj(conj(o[0] == 1, HAS(a, v[1])), conj(o[0] == 0, neg(HAS(a, v[1])))), "not in": disj(conj(o[1] == 0, HAS(g + 2, v[1])), conj(o[1] == 1, neg(HAS(g + 2, v[1])))), "group": o[3] == o[2]},
          lambda x, ks: [x[1] in ks, x[1] not in ks, None, 0 <= x[2] < 3])

    for nm, far, nb in (("next", up, least), ("previous", down, greatest)):
        u = nm == "next"
        ns = {"S": S, "inp": inp, "out": out, "P": P}
        f = front.src_fn(f"""def f():
    k = inp(1)
    s = S.p
    out(0, s.{nm}_key(k))
    out(1, s.{nm}_key_or_default(k, inp(2)))
    out(2, s.has_{nm}_key(k))
    out(3, s.get_{nm}(k))
""", ns)

        def post(v, o, nb=nb, u=u):
            k, q = v[1], v[Q]
            some = o[2] == 1
            return {"flag": disj(o[2] == 0, o[2] == 1), "key": imp(some, nb(p, o[0], k, q)), "default": imp(some, o[1] == o[0]), "value": conj(o[3] == VAL(p, o[0]), o[4] == VAL(p + 1, o[0])),
                    "no key": imp(o[2] == 0, conj(none(p, k, q, u), o[0] == k, o[1] == v[2]))}

        def ref(x, ks, far=far):
            r = far(ks, x[1])
            y = x[1] if r is None else r
            return [y, x[2] if r is None else r, r is not None, val(p, y, ks), val(p + 1, y, ks)]
        watch(f"{nm} key", f, post, ref)
        f = front.src_fn(f"""def f():
    k = inp(1)
    s = S.p
    out(0, s.{nm}_key_inclusive(k))
    out(1, s.get_{nm}_inclusive(k))
""", ns)

        def post(v, o, nb=nb, u=u):
            k, q = v[1], v[Q]
            return {"key": disj(nb(p, o[0], k, q, True), conj(o[0] == k, none(p, k, q, u, True))), "value": conj(o[1] == VAL(p, o[0]), o[2] == VAL(p + 1, o[0]))}

        def ref(x, ks, far=far):
            r = far(ks, x[1], True)
            y = x[1] if r is None else r
            return [y, val(p, y, ks), val(p + 1, y, ks)]
        watch(f"{nm} key inclusive", f, post, ref)

    # iteration
    parts = {"items": lambda r: (r, VAL(p, r), VAL(p + 1, r)), "keys": lambda r: (r,), "values": lambda r: (VAL(p, r), VAL(p + 1, r))}
    for kind, cells in parts.items():
        for form in ("from", "from_desc", "since_previous_frame"):
            u = form != "from_desc"
            arg = "" if form == "since_previous_frame" else "inp(1)"
            n = {"items": 3, "keys": 1, "values": 2}[kind]
            body = f"def f():\n    it = S.p.iter_{kind}_{form}({arg})\n"
            for j in range(3):
                body += f"    r{j} = it.next()\n    out({8 * j}, r{j}.is_some)\n    if r{j}.is_some:\n        out({8 * j + 1}, r{j}.get_unsafe())\n"
            f = front.src_fn(body, {"S": S, "inp": inp, "out": out, "P": P})

            def post(v, o, u=u, form=form, cells=cells, kind=kind, n=n):
                import z3
                from vp.sym import Ctx, SReal, fresh
                q = v[Q]
                nb = least if u else greatest
                start, incl = v[1], True
                if form == "since_previous_frame":
                    start, incl = v[TIME] - v[DELTA], False

                def last(r):
                    return r <= v[TIME] if form == "since_previous_frame" else True
                res = {}
                for j in range(3):
                    b = 8 * j
                    # the key the result belongs to: given, or the one the content's order determines
                    if kind == "values":
                        r = key(start, incl, u, v)
                        if r is None:
                            break
                    else:
                        r = o[b + 1] if o.has(b + 1) else None
                    some = o[b] == 1
                    if o.has(b + 1):
                        res[f"result {j}"] = conj(some, nb(p, r, start, q, incl), last(r), *[o[b + 1 + i] == x for i, x in enumerate(cells(r))])
                        start, incl = r, False
                        continue
                    end = none(p, start, q, u, incl)
                    if form == "since_previous_frame":
                        end = disj(neg(HAS(p, q)), q <= start, q > v[TIME])
                    res[f"end {j}"] = conj(o[b] == 0, end)
                    # once ended, it stays ended
                    for i in range(j + 1, 3):
                        res[f"ended {i}"] = o[8 * i] == 0
                    break
                return res

            def key(start, incl, u, v):
                """the least (greatest) key from start on, as the runtime's own operations would name it"""
                k = calls["StreamGetNextKey" if u else "StreamGetPreviousKey"](None, p, start)
                if incl and bool(HAS(p, start)):
                    return start
                return k

            def ref(x, ks, form=form, kind=kind, u=u, n=n):
                sel = list(seq(x, ks, form))
                res = []
                for j in range(3):
                    res.append(1 if j < len(sel) else 0)
                    c = vals(sel[j], ks, kind) if j < len(sel) else [None] * n
                    res += [*c, *[None] * (7 - n)]
                while len(res) > 17 + n or (res and res[-1] is None):
                    res.pop()
                return res

            def seq(x, ks, form):
                if form == "from":
                    return [q for q in ks if q >= x[1]]
                if form == "from_desc":
                    return [q for q in reversed(ks) if q <= x[1]]
                return [q for q in ks if x[TIME] - x[DELTA] < q <= x[TIME]]

            def vals(q, ks, kind):
                return {"items": [q, val(p, q, ks), val(p + 1, q, ks)], "keys": [q], "values": [val(p, q, ks), val(p + 1, q, ks)]}[kind]
            pre = (lambda v: v[DELTA] >= 0) if form == "since_previous_frame" else None
            watch(f"iter {kind} {form}", f, post, ref, pre=pre)
            tgt = {"items": "k, r", "keys": "k", "values": "r"}[kind]
            show = {"items": "debug_log(k)\n        debug_log(r.x)\n        debug_log(r.y)", "keys": "debug_log(k)", "values": "debug_log(r.x)\n        debug_log(r.y)"}[kind]
            f = front.src_fn(f"def f():\n    for {tgt} in S.p.iter_{kind}_{form}({arg}):\n        {show}\n", {"S": S, "inp": inp, "debug_log": debug_log})
            L.append(StreamItem(f"loop {kind} {form}", f, lambda x, ks, form=form, kind=kind: [y for q in seq(x, ks, form) for y in vals(q, ks, kind)], long=True))
    return L


def prove(i, n):
    L = [x for x in items() if x.contract is not None]
    return merge(*[pack(L[j].contract.prove()) for j in range(i, len(L), n)])


def run(i, parts, seed, n):
    L = items()
    from vp.contract import sweep
    return sweep([L[j] for j in range(i, len(L), parts)], seed, n)


def layouts(seed, n):
    """generated declarations: ids never shared, a field added at the end moves nothing"""
    from vp import front
    from sonolus.script.array import Array
    from sonolus.script.record import Record
    from sonolus.script.stream import Stream, StreamGroup, streams
    A = front.api()

    class P(Record):
        x: int
        y: float

    class Em(Record):
        pass

    class N(Record):
        p: P
        a: Array[int, 2]
    T = {"float": 1, "P": 2, "Em": 0, "N": 4, "Array[P, 3]": 6, "int": 1}
    r = random.Random(f"c27/{seed}")
    viol, cnt = [], 0

    def ids(fields):
        src = "@streams\nclass S:\n" + "".join(f"    f{i}: {t}\n" for i, t in enumerate(fields)) + "\ndef zero(T):\n    return T._from_list_(iter([7] * T._size_()))\ndef f():\n"
        marks = []
        for i, t in enumerate(fields):
            if t.startswith("StreamGroup["):
                el, size = t[12:-1].rsplit(", ", 1)
                for j in range(int(size)):
                    src += f"    S.f{i}[{j}][{i}] = mk({el})\n"
                    marks += [(i, j)] * max(1, T[el])
            elif t.startswith("Stream["):
                src += f"    S.f{i}[{i}] = mk({t[7:-1]})\n"
                marks += [(i, 0)] * max(1, T[t[7:-1]])
            else:
                src += f"    S.f{i} = mk({t})\n"
                marks += [(i, None)] * T[t]
        from sonolus.script.internal.meta_fn import meta_fn

        from sonolus.script.internal.generic import validate_concrete_type
        from sonolus.script.num import Num

        @meta_fn
        def mk(t):
            t = validate_concrete_type(t._as_py_() if hasattr(t, "_as_py_") else t)
            return t._from_list_(iter([Num(7)] * t._size_()))
        fn = front.src_fn(src, {"streams": streams, "Stream": Stream, "StreamGroup": StreamGroup, "Array": Array, "P": P, "Em": Em, "N": N, "mk": mk})
        from vp.contract import Compiled
        c = Compiled(fn, mode="PLAY", levels=("fast",))
        it = runner()({})
        it.blocks[3000] = list(c.rom)
        it.run(c.nodes["fast"][0])
        return it.sets, marks
    for _ in range(n):
        fields = []
        for _ in range(r.randint(1, 6)):
            t = r.choice(list(T))
            k = r.random()
            fields.append(f"Stream[{t}]" if k < 0.4 else f"StreamGroup[{t}, {r.randint(1, 4)}]" if k < 0.75 else t)
        cnt += 1
        try:
            sets, marks = ids(fields)
            more, _ = ids([*fields, r.choice(["Stream[P]", "int", "StreamGroup[float, 2]"])])
        except Exception as ex:  # noqa: BLE001
            viol.append({"key": "layout", "what": f"{fields}: {ex!r}", "input": {"fields": fields}})
            break
        what = None
        owner = {}
        k = 0
        for m in marks:
            part = sets[k:k + (3 if m[1] is None else 1)]
            k += len(part)
            for s in part:
                cell = (s[0],) if m[1] is not None else (s[0], s[1])
                if s[0] < 1:
                    what = f"id {s[0]} is kept for uninitialized streams"
                if owner.setdefault(s[0], m) != m:
                    what = f"stream {s[0]} is used by {owner[s[0]]} and {m}"
                if (*cell, "c") in owner and m[1] is not None:
                    what = f"two components share stream {s[0]}"
                if m[1] is not None:
                    owner[(*cell, "c")] = m
        if k != len(sets):
            what = f"{len(sets)} sets, expected {k}"
        if more[:len(sets)] != sets:
            what = "a field added at the end moves the earlier ones"
        if what:
            viol.append({"key": "layout", "what": f"{fields}: {what}", "input": {"fields": fields}})
            break
    return {"violations": viol, "bounded": {"name": "generated declarations", "evaluations": cnt, "distinct": cnt, "samples": [str(fields)], "bound": f"{n} declarations of up to six fields"}}


def modes():
    """reads outside watch mode, writes outside play mode, values of another type are rejected"""
    from vp import front
    from sonolus.script.array import Array
    A = front.api()
    S, P, E = declare()
    ns = {**A, "S": S, "P": P, "E": E, "Array": Array}
    W = ["S.a[1] = 2", "S.p[1] = P(1, 2)", "S.d = 1", "S.w = Array(P(1, 2), P(3, 4))", "S.w[0].x = 1", "S.g[1][2] = P(1, 2)", "S.e[1] = E()"]
    R = ["out(0, S.a[1])", "out(0, S.p[1].x)", "out(0, S.d)", "out(0, S.w[1].y)", "out(0, 1 in S.a)", "out(0, S.a.next_key(1))", "out(0, S.a.previous_key(1))", "out(0, S.a.has_next_key(1))", "out(0, S.g[0].get_next(1))",
         "for k in S.a.iter_keys_from(0):\n        out(0, k)", "for k in S.a.iter_values_from_desc(0):\n        out(0, k)", "for k, v in S.a.iter_items_since_previous_frame():\n        out(0, k)"]
    B = ["S.a[1] = P(1, 2)", "S.p[1] = 1", "S.a = 1", "S.g[1] = 1", "S.w = 1"]
    viol, cnt = [], 0
    for mode, cb in (("PLAY", "updateSequential"), ("WATCH", "updateSequential"), ("PREVIEW", "render"), ("TUTORIAL", "update")):
        for kind, L in (("W", W), ("R", R), ("B", B)):
            for s in L:
                cnt += 1
                want = (mode == "PLAY" and kind == "W") or (mode == "WATCH" and kind == "R")
                try:
                    front.compile_fn(front.src_fn("def f():\n    " + s + "\n", dict(ns)), mode, cb)
                    ok = True
                except Exception as ex:  # noqa: BLE001
                    ok, why = False, ex
                    while why.__cause__ is not None:
                        why = why.__cause__
                if ok != want:
                    viol.append({"key": f"{mode} {s}", "what": f"{s!r} in {mode} is " + ("accepted" if ok else f"rejected: {why!r}"), "input": {"mode": mode, "program": s}})
    return {"violations": viol, "bounded": {"name": "accesses by mode", "evaluations": cnt, "distinct": cnt, "samples": W[:2] + R[:2], "bound": "fixed list of accesses, all four modes"}}


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "prove", i, 8, timeout=300) for i in range(8)] + [Task("real", "run", i, 4, seed, 60 if q else 2000, timeout=500) for i in range(4)] +
            [Task("real", "layouts", seed, 40 if q else 600, timeout=500), Task("real", "modes", timeout=200)])


def replay(o):
    from vp import contract
    return contract.replay(items(), o)

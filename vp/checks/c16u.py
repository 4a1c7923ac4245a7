"""C16, unbounded part: operations of VarArray, ArraySet and ArrayMap for every size, content and argument at a large capacity."""
import z3

from vp import front
from vp.contract import Contract, conj
from vp.hoare import HoareContract, it, unreached

And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
CAP = 1000
ARG = 5000
TY = {None: "real", 0: "int", ARG: "int"}


def inside(k, n):
    return And(k >= 0, k < n)


def ns():
    from vp.checks.c16 import namespace
    return namespace()


def size_ok(v):
    return conj(v[0] >= 0, v[0] <= CAP)


def new_size(s):
    return it(s.run.mem.get((front.IN, 0), s.run.v[0]))


class Va:
    """one operation: valid(v, n) when it is defined; effect(v, n, s, o) -> facts"""

    def __init__(self, name, code, valid, effect, invs=(), types=None, es=1, decl="VarArray[Num, {c}]", facts=None, derive=None, post_terms=None):
        n = ns()
        self.fn = front.src_fn(f"def f():\n    a = inps({decl.format(c=CAP)}, 0)\n" + "\n".join("    " + l for l in code.split("\n")) + "\n    done(1)\n", n)

        def post(v, o, s):
            k = v.t(0)
            ok = valid(v, k, s)
            if not (isinstance(o.done, int) and o.done == 1):
                return {"no check trips on a valid operation": (Not(ok) if not callable(ok) else ok)}
            return {"defined": ok, **effect(v, k, s, o)} if not callable(ok) else effect(v, k, s, o)
        self.contract = HoareContract(name, self.fn, {**TY, **(types or {})}, post, invs=list(invs), pre=size_ok, pre_q=facts, region=lambda v: (1, CAP * es), ids=False, derive=derive, checks="TERMINATE", budget=100)


def norm(v, n, end=0):
    i = v.t(ARG)
    return If(i < 0, i + n, i)


def frame(s, f):
    """cell k holds f(k)"""
    return lambda k: Imp(inside(k, CAP), s.val(k) == f(k))


def ops():
    L = []
    size = lambda s, m: new_size(s) == m  # noqa: E731
    x = lambda v: v[ARG + 1].t  # noqa: E731
    num = lambda o, i=0: z3.ToReal(it(o[i])) if isinstance(o[i], int) else o[i].t  # noqa: E731

    # pop
    def popped(j):
        return lambda s: frame(s, lambda k: k)

    def pop_inv(v, s):
        n, j, i = v.t(0), norm(v, v.t(0)), s["#0"]
        return {"i": And(i >= j, i <= n - 1), "size": new_size(s) == n - 1, "moved": lambda k: Imp(And(k >= j, k < i), s.val(k) == s.old(k + 1)), "rest": lambda k: Imp(Or(k < j, k >= i), s.val(k) == s.old(k))}

    def pop_eff(v, n, s, o, res=True):
        j = norm(v, n)
        f = {"size": size(s, n - 1), "elements": lambda k: Imp(inside(k, n - 1), s.val(k) == s.old(If(k < j, k, k + 1))), "frame": lambda k: Imp(Not(inside(k, n)), s.val(k) == s.old(k))}
        if res:
            f["result"] = num(o) == s.old(j)
        return f
    in_range = lambda v, n, s: And(v.t(ARG) >= -n, v.t(ARG) < n)  # noqa: E731
    L.append(Va("VarArray.pop(i)", f"out(0, a.pop(inp({ARG})))", in_range, pop_eff, [pop_inv]))
    L.append(Va("del VarArray[i]", f"del a[inp({ARG})]", in_range, lambda v, n, s, o: pop_eff(v, n, s, o, False), [pop_inv]))

    # insert
    def ins_inv(v, s):
        n, j, i = v.t(0), norm(v, v.t(0)), s["#0"]
        return {"i": And(i >= j, i <= n), "size": new_size(s) == n + 1, "moved": lambda k: Imp(And(k > i, k <= n), s.val(k) == s.old(k - 1)), "rest": lambda k: Imp(Or(k <= i, k > n), s.val(k) == s.old(k))}

    def ins_eff(v, n, s, o):
        j = norm(v, n)
        return {"size": size(s, n + 1), "inserted": s.val(j) == x(v), "elements": lambda k: Imp(And(inside(k, n + 1), k != j), s.val(k) == s.old(If(k < j, k, k - 1))), "frame": lambda k: Imp(Not(inside(k, n + 1)), s.val(k) == s.old(k))}
    L.append(Va("VarArray.insert", f"a.insert(inp({ARG}), inp({ARG + 1}))", lambda v, n, s: And(v.t(ARG) >= -n, v.t(ARG) <= n, n < CAP), ins_eff, [ins_inv]))

    # without loops
    same = lambda s, but: lambda k: Imp(Not(but(k)), s.val(k) == s.old(k))  # noqa: E731
    L.append(Va("VarArray.append", f"a.append(inp({ARG + 1}))", lambda v, n, s: n < CAP, lambda v, n, s, o: {"size": size(s, n + 1), "element": s.val(n) == x(v), "frame": same(s, lambda k: k == n)}))
    L.append(Va("VarArray[i]", f"out(0, a[inp({ARG})])", in_range, lambda v, n, s, o: {"size": size(s, n), "result": num(o) == s.old(norm(v, n)), "frame": same(s, lambda k: False)}))
    L.append(Va("VarArray[i] = x", f"a[inp({ARG})] = inp({ARG + 1})", in_range, lambda v, n, s, o: {"size": size(s, n), "element": s.val(norm(v, n)) == x(v), "frame": same(s, lambda k: k == norm(v, n))}))
    L.append(Va("VarArray.clear", "a.clear()", lambda v, n, s: z3.BoolVal(True), lambda v, n, s, o: {"size": size(s, 0)}))
    L.append(Va("VarArray.pop()", "out(0, a.pop())", lambda v, n, s: n > 0, lambda v, n, s, o: {"size": size(s, n - 1), "result": num(o) == s.old(n - 1), "frame": same(s, lambda k: k >= n)}, [unreached]))

    def ext_inv(v, s):
        n, i = v.t(0), s["i"]
        return {"i": And(i >= 0, i <= 3), "size": new_size(s) == n, "copied": And(*[Imp(i > j, s.val(n + j) == v[ARG + 1 + j].t) for j in range(3)]), "rest": lambda k: Imp(Not(And(k >= n, k < n + i)), s.val(k) == s.old(k))}
    vals = f"Array(inp({ARG + 1}), inp({ARG + 2}), inp({ARG + 3}))"
    for nm, code in (("extend", f"a.extend({vals})"), ("+=", f"a += {vals}")):
        L.append(Va(f"VarArray.{nm}", code, lambda v, n, s: n + 3 <= CAP,
                    lambda v, n, s, o: {"size": size(s, n + 3), "elements": And(*[s.val(n + j) == v[ARG + 1 + j].t for j in range(3)]), "frame": same(s, lambda k: And(k >= n, k < n + 3))}, [ext_inv]))

    # a loop over the elements, then a change
    def seek(v, s):
        n, i = v.t(0), s["i"]
        return {"i": And(i >= 0, i <= n), "size": new_size(s) == n, "not before": lambda k: Imp(inside(k, i), s.old(k) != x(v)), "unchanged": lambda k: s.val(k) == s.old(k)}

    def found(v, n, s):
        """the scan stopped at the first element equal to x"""
        t = s["i"]
        return {"found": And(inside(t, n), s.old(t) == x(v)), "first": lambda k: Imp(inside(k, t), s.old(k) != x(v))}
    absent = lambda v, n, s: lambda k: Imp(inside(k, n), s.old(k) != x(v))  # noqa: E731

    def add_eff(v, n, s, o):
        r = it(o[0])
        if not z3.is_int_value(z3.simplify(r)):
            return {"result": z3.BoolVal(False)}
        if z3.simplify(r).as_long():
            return {"was absent": absent(v, n, s), "size": size(s, n + 1), "element": s.val(n) == x(v), "frame": same(s, lambda k: k == n)}
        return {"was present or full": Or(n == CAP, found(v, n, s)["found"]) if "i" in s.names else n == CAP, "size": size(s, n), "frame": same(s, lambda k: False)}
    true = lambda v, n, s: z3.BoolVal(True)  # noqa: E731
    L.append(Va("VarArray.set_add", f"out(0, a.set_add(inp({ARG + 1})))", true, add_eff, [seek]))
    L.append(Va("ArraySet.add", f"out(0, a.add(inp({ARG + 1})))", true, add_eff, [seek], decl="ArraySet[Num, {c}]"))

    def rem_eff(v, n, s, o):
        r = z3.simplify(it(o[0]))
        if not z3.is_int_value(r):
            return {"result": z3.BoolVal(False)}
        if not r.as_long():
            return {"was absent": absent(v, n, s), "size": size(s, n), "frame": same(s, lambda k: False)}
        t = s["i"]
        return {"size": size(s, n - 1), **found(v, n, s), "last moved": Imp(t < n - 1, s.val(t) == s.old(n - 1)), "frame": same(s, lambda k: k == t)}
    L.append(Va("VarArray.set_remove", f"out(0, a.set_remove(inp({ARG + 1})))", true, rem_eff, [seek]))
    L.append(Va("ArraySet.remove", f"out(0, a.remove(inp({ARG + 1})))", true, rem_eff, [seek], decl="ArraySet[Num, {c}]"))
    L.append(Va("in ArraySet", f"out(0, inp({ARG + 1}) in a)", true, lambda v, n, s, o: {"frame": same(s, lambda k: False), "size": size(s, n), **(found(v, n, s) if str(z3.simplify(it(o[0]))) == "1" else {"absent": absent(v, n, s)})}, [seek],
                decl="ArraySet[Num, {c}]"))

    # remove: scan, then shift
    def shift_inv(v, s):
        n, j, i = v.t(0), s["i"], s["#1"]
        return {"position": And(inside(j, n), s.old(j) == x(v)), "first": lambda k: Imp(inside(k, j), s.old(k) != x(v)), "i": And(i >= j, i <= n - 1), "size": new_size(s) == n - 1,
                "moved": lambda k: Imp(And(k >= j, k < i), s.val(k) == s.old(k + 1)), "rest": lambda k: Imp(Or(k < j, k >= i), s.val(k) == s.old(k))}

    def remove_eff(v, n, s, o):
        r = z3.simplify(it(o[0]))
        if not z3.is_int_value(r):
            return {"result": z3.BoolVal(False)}
        if not r.as_long():
            return {"was absent": absent(v, n, s), "size": size(s, n), "frame": same(s, lambda k: False)}
        j = s["i"]
        return {**found(v, n, s), "size": size(s, n - 1), "elements": lambda k: Imp(inside(k, n - 1), s.val(k) == s.old(If(k < j, k, k + 1))), "frame": lambda k: Imp(Not(inside(k, n)), s.val(k) == s.old(k))}
    L.append(Va("VarArray.remove", f"out(0, a.remove(inp({ARG + 1})))", true, remove_eff, [seek, shift_inv]))

    # iteration: every element once, in order
    F = z3.Function("fold", z3.IntSort(), z3.RealSort())

    def folded(v, s):
        return {"start": F(0) == 0, "step": lambda k: Imp(k >= 0, F(k + 1) == (F(k) - s.old(k)) / 2)}

    def fold_inv(v, s):
        i = s["#0"]
        return {"i": And(i >= 0, i <= v.t(0)), "size": new_size(s) == v.t(0), "folded": s.num("c") == F(i), "unchanged": lambda k: s.val(k) == s.old(k)}
    fold_eff = lambda v, n, s, o: {"result": num(o) == F(n), "size": size(s, n), "frame": same(s, lambda k: False)}  # noqa: E731
    for nm, decl in (("VarArray", "VarArray[Num, {c}]"), ("ArraySet", "ArraySet[Num, {c}]")):
        L.append(Va(f"for x in {nm}", "c = 0.0\nfor e in a:\n    c = (c - e) / 2\nout(0, c)", true, fold_eff, [fold_inv], decl=decl, facts=folded))

    # maps: entry i is cells 2 i and 2 i + 1
    key = lambda f, i: f(2 * i)  # noqa: E731
    value = lambda f, i: f(2 * i + 1)  # noqa: E731
    half = lambda t: (t / 2, 2 * t, 2 * t + 1)  # noqa: E731

    def scan(v, s):
        n, i = v.t(0), s["#0"]
        return {"i": And(i >= 0, Or(i <= n)), "size": new_size(s) == n, "not before": lambda k: Imp(inside(k, i), key(s.old, k) != x(v)), "unchanged": lambda k: s.val(k) == s.old(k)}

    def has(v, n, s):
        return {"found": And(inside(s["#0"] - 1, n), key(s.old, s["#0"] - 1) == x(v)), "first": lambda k: Imp(inside(k, s["#0"] - 1), key(s.old, k) != x(v))}
    lacks = lambda v, n, s: lambda k: Imp(inside(k, n), key(s.old, k) != x(v))  # noqa: E731
    keep = lambda s, but: lambda k: Imp(Not(but(k)), And(key(s.val, k) == key(s.old, k), value(s.val, k) == value(s.old, k)))  # noqa: E731

    def mp(name, code, fn_found, fn_absent, absent_ok):
        def valid(v, n, s):
            return z3.BoolVal(True)

        def post(v, o, s):
            n = v.t(0)
            t = s["#0"] - 1
            if s.run.matched(key(s.old, t) == x(v), t, n):
                if o.done != 1:
                    return {"no check trips on a present key": z3.BoolVal(False)}
                return {**has(v, n, s), **fn_found(v, n, s, o, t)}
            if o.done != 1:
                return {"absent": lacks(v, n, s), "trips": (Not(absent_ok(n)) if absent_ok is not None else z3.BoolVal(True))}
            if absent_ok is None:
                return {"a check trips on an absent key": z3.BoolVal(False)}
            return {"absent": lacks(v, n, s), "room": absent_ok(n), **fn_absent(v, n, s, o)}
        op = Va(name, code, valid, lambda *a: {}, [scan], es=2, decl="ArrayMap[Num, Num, {c}]", derive=half)
        op.contract.post = post
        L.append(op)
    Y = ARG + 2
    k_, v_ = f"inp({ARG + 1})", f"inp({Y})"
    y = lambda v: v[Y].t  # noqa: E731
    always = lambda n: z3.BoolVal(True)  # noqa: E731
    gone = lambda v, n, s, o, t: {"size": size(s, n - 1), "last moved": Imp(t < n - 1, And(key(s.val, t) == key(s.old, n - 1), value(s.val, t) == value(s.old, n - 1))), "frame": keep(s, lambda k: k == t)}  # noqa: E731
    mp("ArrayMap[k]", f"out(0, a[{k_}])", lambda v, n, s, o, t: {"result": num(o) == value(s.old, t), "size": size(s, n), "frame": keep(s, lambda k: False)}, None, None)
    mp("ArrayMap[k] = v", f"a[{k_}] = {v_}", lambda v, n, s, o, t: {"value": value(s.val, t) == y(v), "key": key(s.val, t) == x(v), "size": size(s, n), "frame": keep(s, lambda k: k == t)},
       lambda v, n, s, o: {"entry": And(key(s.val, n) == x(v), value(s.val, n) == y(v)), "size": size(s, n + 1), "frame": keep(s, lambda k: k == n)}, lambda n: n < CAP)
    mp("del ArrayMap[k]", f"del a[{k_}]", gone, None, None)
    mp("ArrayMap.pop", f"out(0, a.pop({k_}))", lambda v, n, s, o, t: {"result": num(o) == value(s.old, t), **gone(v, n, s, o, t)}, None, None)
    mp("in ArrayMap", f"out(0, {k_} in a)", lambda v, n, s, o, t: {"result": it(o[0]) == 1, "size": size(s, n), "frame": keep(s, lambda k: False)},
       lambda v, n, s, o: {"result": it(o[0]) == 0, "size": size(s, n), "frame": keep(s, lambda k: False)}, always)
    for nm, code, f in (("keys", "for e in a.keys():\n    c = (c - e) / 2", lambda s, k: key(s.old, k)), ("values", "for e in a.values():\n    c = (c - e) / 2", lambda s, k: value(s.old, k)),
                        ("items", "for p, q in a.items():\n    c = (c - p + 3 * q) / 2", lambda s, k: key(s.old, k) - 3 * value(s.old, k)), ("iteration", "for e in a:\n    c = (c - e) / 2", lambda s, k: key(s.old, k))):
        facts = (lambda f: lambda v, s: {"start": F(0) == 0, "step": lambda k: Imp(k >= 0, F(k + 1) == (F(k) - f(s, k)) / 2)})(f)
        L.append(Va(f"ArrayMap {nm}", "c = 0.0\n" + code + "\nout(0, c)", true, fold_eff, [fold_inv], es=2, decl="ArrayMap[Num, Num, {c}]", facts=facts, derive=half))
    return L


def contracts():
    return [o.contract for o in ops()]

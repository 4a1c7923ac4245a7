"""C02: constant folding computes exactly what the runtime computes.

Contract of kernels.fold_op(op, a, n, out):
  ensures result == FOLD_OK  =>  Interpreter.run(op(a...)) returns (no exception, no complex) and
          its value is bit-identical to *out
for every n and every n doubles.  Both bodies are executed symbolically on the same doubles."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["kernels.fold_op", "kernels._fold_ease", "kernels._float_pow", "kernels._fpow", "kernels._pymod", "kernels._pymin2",
                  "kernels._pymax2", "kernels._clamp01", "kernels._judge", "kernels._f32_exact", "kernels._m1", "kernels._m2",
                  "kernels._is_odd_int", "interpret.Interpreter.run", "interpret.Interpreter.ensure_int", "interpret ease/judge functions"],
    "trusted": ["z3 (floating-point and bit-vector theories)", "libm as uninterpreted deterministic functions satisfying the Annex F special cases",
                "CPython float %, **, round, int() transcribed in vp/sym.py", "Cython translation (vp/pyx2py.py) and the C compiler: strict IEEE double arithmetic"],
    "assumptions": ["variadic operations And/Or are checked to arity 3 and the Switch family to arity 6 (the loops are uniform in the arity)",
                    "round-half-even of the interpreter and of the kernel are compared over the mathematical reals with |x| < 2^52 plus the compiled sweep (the FP query does not terminate)"],
    "rule": "bounded part: operand tuples from special values, unit interval, small integers and random bit patterns, folded by the compiled kernel and run by the interpreter; non-trivial when the kernel folds",
    "deadline": {"quick": 420, "thorough": 840},
}



def tasks(tier, seed):
    n = 96
    ts = [Task("sym", "prove_slice", i, n, tier, timeout=400) for i in range(n)]
    ts += [Task("real", "sweep", seed * 1000 + i, 2500 if tier == "quick" else 60000, timeout=300) for i in range(4 if tier == "quick" else 8)]
    return ts


def _foldable():
    from sonolus.backend._opt import kernels
    from sonolus.backend.ops import Op
    ops = list(Op)
    return [(i, ops[i]) for i in kernels.foldable_op_ids()]


def _arities(op):
    if op.name in ("And", "Or"):
        return [1, 2, 3]
    if op.name.startswith("Switch"):
        return [1, 2, 3, 4, 5, 6]
    return list(range(0, 10))


def prove_slice(i, n, tier):
    ops = _foldable()
    outs = []
    for k, (opid, op) in enumerate(ops):
        if k % n == i:
            outs += [_prove(opid, op, a, tier) for a in _arities(op)]
    return merge(*outs)


def _prove(opid, op, n, tier):
    from vp import cyrt, pysrc
    from vp.sym import FP, ComplexResult, Ctx, SReal, lift_real, s_isinstance, same_double
    import z3
    from sonolus.backend._opt import kernels
    from sonolus.backend.node import FunctionNode
    I = pysrc.load("sonolus.backend.interpret")

    def body(c, real=False):
        def run():
            a = [(SReal if real else FP).var(f"a{i}") for i in range(n)]
            if real:
                for x in a:
                    c.assume(z3.And(x.t < 2**52, x.t > -(2**52)))
            out = cyrt._Cell("double")
            buf = cyrt._Buf("double", 8, n)
            buf.a = list(a)
            try:
                st = kernels.fold_op(opid, buf, n, out)
            except cyrt.MemFault as e:
                c.fail("memory-safe", repr(e))
                return
            if st != kernels.FOLD_OK:
                return
            c.cover("folds")
            try:
                r = I.Interpreter().run(FunctionNode(op, tuple(a)))
            except (ValueError, ArithmeticError, AssertionError, TypeError, IndexError) as e:
                c.fail("defers-what-raises", repr(e))
                return
            if isinstance(r, ComplexResult):
                c.fail("defers-complex", "")
                return
            if real:
                c.prove("same-real", lift_real(out.v).t == lift_real(r).t)
            else:
                c.prove("same", same_double(out.v, r))
        return run

    if op.name == "Round":
        c = Ctx(f"fold:{op.name}/{n}", budget_s=60)
        c.run(body(c, True))
        return pack(c)
    c = Ctx(f"fold:{op.name}/{n}", budget_s=300 if tier == "quick" else 700)
    c.run(body(c))
    r = pack(c)
    r["facts"] = {}
    return r


def _one(op, args):
    """None, or what differs"""
    from sonolus.backend._opt import kernels
    from sonolus.backend.interpret import Interpreter
    from sonolus.backend.node import FunctionNode
    got = kernels.fold(op, tuple(args))
    if got is None:
        return None, False
    try:
        want = Interpreter().run(FunctionNode(op, tuple(args)))
    except Exception as e:  # noqa: BLE001
        return f"folds {op.name}{tuple(args)!r} to {got!r}; the runtime raises {e!r}", True
    if isinstance(want, complex) or not same(got, want):
        return f"folds {op.name}{tuple(args)!r} to {got!r}; the runtime computes {want!r}", True
    return None, True


def sweep(seed, n):
    r = random.Random(seed)
    ops = _foldable()
    viol, ev, nt, samples = [], 0, set(), []
    for _, op in ops:
        ar = _arities(op)
        bad = False
        for k in range(n):
            a = r.choice(ar) if k < 30 or len(ar) < 7 else None
            if a is None:
                if not good:
                    break
                a = r.choice(good)
            if k == 0:
                good = []
            args = [draw(r) for _ in range(a)]
            if op.name.startswith("Switch") and a > 1 and r.random() < 0.6:
                # make a key match the test
                args[r.randrange(1, a)] = args[0]
            what, folded = _one(op, args)
            ev += 1
            if folded:
                if a not in good:
                    good.append(a)
                nt.add((op.name, tuple(map(bits, args))))
                if len(samples) < 3:
                    samples.append(f"{op.name}{tuple(args)!r}")
            if what and not bad:
                bad = True
                viol.append({"key": f"fold:{op.name}", "what": what, "input": [op.name, [x.hex() for x in args]]})
    return {"violations": viol, "bounded": {"name": "compiled kernel against the interpreter", "evaluations": ev, "distinct": len(nt),
                                            "samples": samples, "bound": f"{n} operand tuples per operation and seed"}}


def replay(o):
    from sonolus.backend.ops import Op
    name = o["name"].split(":")[1]
    opn, n = name.split("/")
    m = unmodel(o["model"])
    args = [float(m.get(f"a{i}", 0.0)) for i in range(int(n))]
    op = Op[opn]
    what, _ = _one(op, args)
    r = random.Random(0)
    tries = 0
    while not what and tries < 200000:
        tries += 1
        b = [x if r.random() < 0.5 else draw(r) for x in args]
        if r.random() < 0.3:
            b = [r.choice(b) for _ in b]
        what, _ = _one(op, b)
        args2 = b
        if what:
            args = args2
    if what:
        return {"violations": [{"key": f"fold:{opn}", "what": what, "input": [opn, [float(x).hex() for x in args]]}]}
    return {}

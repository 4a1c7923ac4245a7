"""Tests the lemmas the abstraction layer assumes, on the special values and random doubles:
python3-vt -m vp.selftest"""
import itertools
import math
import random
import struct

import z3

from vp import sym
from vp.sym import F64, RNE, Abstractor, fpv, pyvalue


def run(n=400, seed=1):
    a, b = z3.FP("sa", F64), z3.FP("sb", F64)
    ops = {"add": z3.fpAdd(RNE, a, b), "sub": z3.fpSub(RNE, a, b), "mul": z3.fpMul(RNE, a, b), "div": z3.fpDiv(RNE, a, b),
           "sqrt": z3.fpSqrt(RNE, a)}
    for nm, rm in (("RTN", z3.RTN()), ("RTP", z3.RTP()), ("RTZ", z3.RTZ()), ("RNE", z3.RNE()), ("RNA", z3.RNA())):
        ops["rti" + nm] = z3.fpRoundToIntegral(rm, a)
    for v in (1.0, -1.0, 2.0, 0.5, 3.0, 0.0, 1.70158):
        ops[f"addl{v}"] = z3.fpAdd(RNE, a, fpv(v))
        ops[f"mull{v}"] = z3.fpMul(RNE, a, fpv(v))
    sp = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 1e308, -1e308, 1.5, 1e100, 1e-100, 3.0]
    r = random.Random(seed)
    cases = list(itertools.product(sp, sp))
    for _ in range(n):
        x = r.choice([r.random(), r.uniform(-4, 4), struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]])
        y = r.choice([r.random(), x, -x, r.uniform(-4, 4), struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]])
        cases.append((x, y))
    bad = 0
    for nm, t in ops.items():
        A = Abstractor()
        out = A(t)
        if not A.lemmas:
            continue
        L = z3.And(*A.lemmas)
        for x, y in cases:
            s = [(a, fpv(x)), (b, fpv(y))]
            val = z3.simplify(z3.substitute(t, *s))
            f = z3.simplify(z3.substitute(z3.substitute(L, (out, val)), *s))
            if not z3.is_true(f):
                bad += 1
                print("lemma fails", nm, x, y, [i for i, l in enumerate(A.lemmas) if not z3.is_true(z3.simplify(z3.substitute(z3.substitute(l, (out, val)), *s)))])
    return bad


if __name__ == "__main__":
    print("bad:", run())

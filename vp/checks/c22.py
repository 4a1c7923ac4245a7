"""C22: compiled Python means what Python means.

For each program (a function of the supported language, generated or from the list below) the contract
  ensures  the output cells hold what running the same source as Python over plain objects puts there, on every path, for all inputs
is proved on the graph the repository's front end makes of it: graph and source are both executed on arbitrary integer
inputs, every decision splits the path, and the outputs are compared on each path by z3.  The record and array classes the
Python side runs with are plain ones (vp/pygen.py), not the repository's.
Programs outside the language, or without a meaning in Python, must be rejected."""
import random
import time

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "translation_validation",
    "functions": ["visitor.Visitor (statements, expressions, calls, closures, generators, match, comparisons)", "context.Scope.apply_merge", "Context.meet", "Context.branch", "Context.prepare_loop_header", "Context.branch_to_loop_header",
                  "context_to_cfg", "backend.utils.scan_writes", "Record and Array element access", "backend.utils.get_function", "find_function", "builtin_impls (sum, any, all, min, max, abs, enumerate, zip, range, len)"],
    "trusted": ["z3", "CPython, for what the source means", "vp/pygen.py: records assign by copying into the field, arrays hold copies"],
    "assumptions": ["inputs are integers in the proofs (fractions in the bounded part)", "array indices in range", "names captured by a pattern that fails later are not used (Python leaves them unspecified)", "loops run at most a few iterations: trip counts are bounded by the program"],
    "rule": "programs of up to 20 statements mixing every supported construct; a rejected program is only accepted when it rebinds a reference in a branch or loop; non-trivial when the program compiles",
    "technique": "per program, for all inputs: the front end's graph and the Python source executed symbolically path by path, equality of all outputs discharged by z3; programs generated",
    "level_note": "each generated program is verified for all inputs; that every program is translated correctly is not proved",
    "deadline": {"quick": 300, "thorough": 800},
}


def program(seed, k):
    """(name, source, may be rejected)"""
    from vp import pygen
    r = random.Random(f"c22/{seed}/{k}")
    wild = r.random() < 0.3
    return f"program {seed}/{k}", pygen.Gen(r, size=r.choice([5, 8, 12, 16]), wild=wild).program(), wild


HEAD = "from_here = 0\n"
FIXED = {
    "for else tuple": "for x in (1, inp(0), 3):\n    if x == inp(1):\n        break\n    if inp(2) == x:\n        continue\n    y += x\nelse:\n    y += 50\nout(0, (x, y))",
    "for else range": "for x in range(3):\n    if x == inp(0):\n        break\n    y += x\nelse:\n    y += 50\nout(0, y)",
    "while else": "while y < 3:\n    y += 1\n    if y == inp(0):\n        break\n    if y == inp(1):\n        continue\n    y += 0\nelse:\n    y += 50\nout(0, y)",
    "while true": "while True:\n    y += 1\n    if y > inp(6):\n        if inp(0):\n            break\n        y += 3\n        if y > 4:\n            break\nout(0, y)",
    "nested loops": "for i in range(3):\n    for j in range(3):\n        if j == inp(6):\n            break\n        if i == inp(7):\n            continue\n        y += i * 3 + j\n    else:\n        y += 100\n        continue\n    y += 1000\nout(0, y)",
    "return in loops": "def g(n):\n    for i in range(4):\n        for j in (1, 2):\n            if i * j == n:\n                return i * 10 + j\n    else:\n        return -1\n    return -2\nout(0, (g(inp(0)), g(inp(1))))",
    "late closure": "def g(a):\n    return a + y\ny = inp(0)\nz = g(1)\ny = inp(1)\nout(0, (z, g(2), (lambda: y)()))",
    "defaults at definition": "y = inp(0)\ndef g(a=y, b=tr(st, 3, y)):\n    return a * 10 + b\ny = inp(1)\nout(0, (g(), g(1), g(b=2), st.n))",
    "argument order": "def g(a, b, *c, d=0):\n    return a + 2 * b + 3 * sum(c) + 5 * d\nout(0, (g(tr(st, 1, inp(0)), tr(st, 2, inp(1)), tr(st, 3, 1), d=tr(st, 4, 2)), g(b=tr(st, 5, 1), a=tr(st, 6, 2)), g(*(tr(st, 7, 1), 2, 3), 4), st.n))",
    "operand order": "out(0, (tr(st, 1, inp(0)) - tr(st, 2, inp(1)) * tr(st, 3, 2), tr(st, 4, 1) < tr(st, 5, inp(0)) < tr(st, 6, 3), st.n))",
    "chain once": "out(0, (0 < tr(st, 1, inp(0)) <= tr(st, 2, inp(1)) != tr(st, 3, 2), 1 if inp(0) < inp(1) != None else 2, 1 if inp(0) < inp(1) == None else 2, st.n))",
    "short circuit": "a = tr(st, 1, inp(0)) and tr(st, 2, inp(1)) or tr(st, 3, inp(2))\nb = not (tr(st, 4, inp(0)) or tr(st, 5, inp(1)) and tr(st, 6, inp(2)))\nout(0, (a, b, st.n, 1 and tr(st, 7, 2), 0 or tr(st, 8, inp(1)), 0 and tr(st, 9, 1), st.n))",
    "conditional order": "out(0, (tr(st, 1, 5) if tr(st, 2, inp(0)) else tr(st, 3, 6), st.n))",
    "assignment order": "b = Array(0, 0, 0)\nb[tr(st, 1, inp(6))] = tr(st, 2, inp(0))\nb[tr(st, 3, 0)], b[tr(st, 4, 1)] = tr(st, 5, inp(1)), tr(st, 6, inp(2))\nb[tr(st, 7, inp(7))] += tr(st, 8, b[inp(7)])\nout(0, (b, st.n))",
    "swap": "a, b, c = inp(0), inp(1), inp(2)\na, b = b, a\na, (b, c) = c, (a, b)\nd = Array(a, b, c)\nd[0], d[2] = d[2], d[0]\nd[inp(6)], d[inp(7)] = d[inp(7)], d[inp(6)]\nout(0, (a, b, c, d))",
    "loop swap": "a, b = inp(0), inp(1)\nfor i in range(3):\n    a, b = b, a + b\n    if a > 5:\n        a = y\n        y = b\nout(0, (a, b, y))",
    "match capture in loop": "x = 10\ns = 0\ni = 0\nwhile i < 3:\n    s = s * 3 + x\n    match inp(0) + i:\n        case 3:\n            pass\n        case x if x != 1:\n            pass\n    i += 1\nout(0, (s, x))",
    "match as in loop": "x = 10\ns = 0\nfor i in range(3):\n    s = s * 3 + x\n    match inp(0) + i:\n        case (0 | 2) as x:\n            s += 1\nout(0, (s, x))",
    "match order": "match (inp(0), inp(1)):\n    case (0, a) if a > 1:\n        y = a\n    case (a, 0 | 1):\n        y = a * 10\n    case (1 | 2, _) as t:\n        y = t[1] * 100\n    case _:\n        y = -1\nout(0, y)",
    "match records": "q = Q(P(inp(0), inp(1)), inp(2))\nmatch q:\n    case Q(P(0, a), n=b):\n        y = a + 10 * b\n    case Q(n=1):\n        y = 5\n    case Q(p=P(x=a) as p):\n        p.y += a\n        y = 7\nout(0, (y, q))",
    "walrus in loop": "while (z := y * 2) < inp(0):\n    y += 1\n    if z > 4:\n        break\nout(0, (y, z))",
    "generator": "def g(n):\n    a = 0\n    while a < n:\n        a += 1\n        if a == inp(0):\n            continue\n        yield a\n    yield from (10, inp(1))\n    for b in range(2):\n        yield b + a\ns = 0\nfor v in g(inp(6)):\n    if v == 12:\n        break\n    s = s * 3 + v\nout(0, s)",
    "generator expressions": "out(0, (sum(a * b for a in range(3) if a != inp(0) for b in (1, inp(1), 3) if b > a if b != 2), sum(a for a in range(3) if 1 < 0), any(a == inp(0) for a in range(3)), all(a < inp(0) for a in (1, 2) if a != inp(1))))",
    "interleaved generators": "g = (tr(st, 1, a) for a in range(3))\nh = (tr(st, 2, a) for a in (4, inp(0)))\nfor a, b in zip(g, h):\n    y = y * 5 + a * b\nout(0, (y, st.n))",
    "record aliases": "p = P(inp(0), 1)\nq = Q(p, 2)\nr = q.p\nr.x += 1\np.y = 7\ns = +q\ns.p.x = 50\nq.p = P(3, inp(1))\nout(0, (p, q, r, s))",
    "array of records": "b = Array(P(1, 2), P(3, 4), P(5, inp(0)))\nr = b[inp(6)]\nr.x = 9\nb[inp(7)] = r\nr.y = 8\nfor e in b:\n    e.x += 1\nout(0, (b, r))",
    "copy on insert": "p = P(1, 2)\nb = Array(p, p, p)\np.x = inp(0)\nb[0].y = inp(1)\nc = +b\nc[1] = p\np.y = 6\nout(0, (p, b, c))",
    "parameters are references": "def g(p, n):\n    p.x += n\n    n += 1\n    return p\np = P(inp(0), 1)\nn = 5\nr = g(p, n)\nr.y = 3\nout(0, (p, n, g(p=r, n=n)))",
    "recursion": "def g(n, a):\n    if n == 0:\n        return a\n    return g(n - 1, a * 2 + n)\nout(0, g(3, inp(0)))",
    "functions as values": "def twice(h, a):\n    return h(h(a))\ndef make(k):\n    def add(a):\n        return a + k\n    return add\nout(0, (twice(lambda a: a * 2 + y, inp(0)), twice(make(inp(1)), 1), make(2)(inp(0))))",
    "early returns": "def g(a, b):\n    if a < b:\n        return 1\n    elif a == b:\n        if a > 2:\n            return 2\n    else:\n        return 3\n    st.n += 1\n    return 4\nout(0, (g(inp(0), inp(1)), g(1, 1), g(inp(2), 2), st.n))",
    "dead code": "def g(a):\n    return a + 1\n    st.n = 99\n    return 5\nfor i in range(2):\n    if inp(0):\n        continue\n        y = 7\n    y += 1\n    break\n    y = 9\nout(0, (g(inp(1)), y, st.n))",
    "reference kept by loop": "p = P(1, inp(0))\nfor i in range(3):\n    if inp(1) == i:\n        continue\n    q = p\n    q.x += i\nout(0, p)",
    "loop variable after loop": "x = 7\nfor x in range(inp(6)):\n    y += x\nout(0, (x, y))\nfor x in (4, inp(0)):\n    if x == 4:\n        y += 1\nout(3, (x, y))",
    "iterating a changing array": "b = Array(1, 2, 3)\nfor i, e in enumerate(b):\n    b[(i + 1) % 3] += e\n    y = y * 10 + e\nout(0, (y, b))",
    "bounds read once": "n = inp(6)\nfor i in range(n):\n    n += 1\n    y += 1\nout(0, (n, y))",
    "constant branches": "if 1 < 2:\n    a = inp(0)\nelse:\n    a = P(1, 2)\nif 0:\n    b = 1\nelif inp(1):\n    b = 2\nelse:\n    b = 3\nwhile 0:\n    b = 9\nelse:\n    b += 1\nout(0, (a, b))",
    "star": "def g(*a, k=1, **kw):\n    return len(a) * 100 + sum(a) * k\nt = (inp(0), *(1, 2), inp(1))\nout(0, (g(*t, k=2), g(), (*t, 3)[-1], len(t)))",
    "pre-increment in condition": "a = Array(3, 1, 2)\nwhile y < 3 and a[y] != inp(0):\n    y += 1\nout(0, y)",
    "functions on one line": "g, h = lambda a: a + 1, lambda a: a * 10\ndef k(m=lambda a: a - 3): return m(5)\nadd = lambda a: lambda b: a * 100 + b\nc, d = (lambda a: 1 if a > 2 else 2), (lambda a: 7)\nv, w = [(lambda a, i=i: a * i) for i in (2, 3)]\nt = (lambda a: (lambda b: b + 1)(a)), (lambda a: (lambda b: b + 2)(a))\nadd3 = add(3)\nk1, k2, k3 = lambda: 3, lambda: 4, lambda: -4\n---\nz = inp(0)\nout(0, (g(z), h(z), k(), c(z), d(z), v(z), w(z), t[0](z), t[1](z), add3(z), k1(), k2(), k3()))",
    "decorated functions": "def same(q):\n    return lambda fn: fn\n@same(lambda a: a + 1)\ndef g(a): return a * 3\n@same(1)\n@same(\n    lambda a: a)\ndef h(a, m=(lambda b: b * 2)): return m(a) + 1\n---\nout(0, (g(inp(0)), h(inp(1))))",
    "record as condition": "if P(1, 2):\n    y = 1\nout(0, y)",
}
REJECT = {
    "undefined after branch": "if inp(0):\n    z = 1\nout(0, z)",
    "undefined after loop": "for i in range(inp(0)):\n    z = 1\nout(0, z)",
    "different records": "p = P(1, 2)\nif inp(0):\n    p = P(3, 4)\nout(0, p)",
    "conditional expression of records": "out(0, P(1, 2) if inp(0) else P(3, 4))",
    "conditional expression of different types": "out(0, (P(1, 2) if inp(0) else inp(1)))",
    "number or record": "if inp(0):\n    p = P(3, 4)\nelse:\n    p = 1\nout(0, p)",
    "rebound in loop, read before": "p = P(1, 2)\nfor i in range(2):\n    y += p.x\n    p = P(3, 4)\nout(0, y)",
    "rebound in loop, read after": "p = P(1, 2)\nfor i in range(2):\n    p = P(3, 4)\nout(0, p)",
    "rebound in loop in branch, read after": "p = P(1, 2)\nif inp(0):\n    while y < 2:\n        y += 1\n        p = P(3, 4)\nout(0, p)",
    "rebound by for": "p = P(1, 2)\nb = Array(P(1, 1), P(2, 2))\nfor p in b:\n    y += 1\nout(0, p)",
    "rebound through a copy of the name": "p = P(1, 2)\nfor i in range(2):\n    if inp(0):\n        p = p\n    y += p.x\n    p = P(3, 4)\nout(0, y)",
    "function rebound in loop": "def g():\n    return 1\nfor i in range(3):\n    y += g()\n    def g():\n        return 2\nout(0, y)",
    "missing return": "def g(a):\n    if a:\n        return 1\nout(0, g(inp(0)) + 1)",
    "conflicting returns": "def g(a):\n    if a:\n        return 1\n    return P(1, 2)\nout(0, g(inp(0)))",
    "too many arguments": "def g(a):\n    return a\nout(0, g(1, 2))",
    "missing argument": "def g(a, b):\n    return a\nout(0, g(1))",
    "duplicate argument": "def g(a, b=1):\n    return a\nout(0, g(1, a=2))",
    "unknown keyword": "def g(a):\n    return a\nout(0, g(1, c=2))",
    "unpack too few": "a, b = (1, 2, inp(0))\nout(0, a)",
    "undefined name": "out(0, nothing_here)",
    "unknown field": "p = P(1, 2)\np.z = 1\nout(0, p.x)",
    "unknown field read": "p = P(1, 2)\nout(0, p.z)",
    "wrong field type": "q = Q(P(1, 2), 3)\nq.p = 1\nout(0, q)",
    "wrong element type": "b = Array(1, 2, 3)\nb[0] = P(1, 2)\nout(0, b)",
    "generator over a changed name": "k = 1\ng = (a * k for a in range(3))\nk = inp(0)\nfor a in g:\n    y += a\nout(0, y)",
    "try": "try:\n    y = 1\nexcept ValueError:\n    y = 2\nout(0, y)", "with": "with open('x') as g:\n    y = 1\nout(0, y)", "raise": "raise ValueError", "del": "del y", "global": "global zz\nzz = 1\nout(0, zz)",
    "nonlocal": "def g():\n    nonlocal y\n    y += 1\n    return y\nout(0, g() + y)", "class": "class A:\n    pass\nout(0, 1)", "import": "import math\nout(0, 1)", "list": "z = [1, inp(0)]\nout(0, z[0])",
    "list comprehension": "z = [a for a in range(3)]\nout(0, 1)", "slice": "b = Array(1, 2, 3)\nout(0, b[0:2])", "starred target": "a, *b = (1, 2, 3)\nout(0, a)", "f-string": "z = f'{inp(0)}'\nout(0, 1)", "async": "async def g():\n    return 1\nout(0, 1)",
    "is": "out(0, inp(0) is inp(1))", "mapping pattern": "match inp(0):\n    case {}:\n        y = 1\nout(0, y)", "none plus one": "out(0, None + 1)", "record plus number": "out(0, P(1, 2) + 1)",
    "duplicate pattern attribute": "match P(1, inp(0)):\n    case P(1, x=2):\n        y = 1\nout(0, y)",
}


def indent(s):
    """the module of a program: what precedes a line of dashes stands at module level"""
    from vp import pygen
    top, _, s = s.rpartition("\n---\n")
    return pygen.PRELUDE + "\n" + top + "\n\ndef f():\n    st = S(1)\n    y = 0\n" + "".join("    " + x + "\n" for x in s.split("\n"))


def sample(r):
    x = {i: r.choice([0, 1, 2, 3, -1, -2, 0.5, r.randint(-3, 6)]) for i in range(6)}
    return {**x, 6: r.randrange(3), 7: r.randrange(3)}


def item(name, src):
    from vp import front, pygen
    from vp.contract import Contract, Item, conj
    from vp.sym import Ctx
    fn = front.src_fn(src, dict(pygen.sonolus_namespace()))

    def ref(x):
        out = pygen.reference(src, x)
        return [float(out[i]) if i in out else None for i in range(max(out) + 1)] if out else []

    def post(v, o):
        cells = {i: pygen.RV(v[i]) for i in range(8)}
        want = pygen.reference(src, cells)
        if not want:
            return {"runs": True}
        return {"outputs": conj(*[o[k] == pygen.raw(w) for k, w in want.items()])}

    def pre(v):
        return conj(v[6] >= 0, v[6] <= 2, v[7] >= 0, v[7] <= 2)
    c = Contract(name, fn, "int", post, pre, budget=20, prove_ms=3000)
    return Item(name, fn, sample, ref, c, tol=1e-9)


def known(o, msg):
    return any(s in msg for s in ("conflicting definitions",))


def causes(e):
    m = repr(e)
    while e.__cause__ is not None:
        e = e.__cause__
        m += repr(e)
    return m


def inputs(seed, k):
    r = random.Random(f"in/{seed}/{k}")
    return [sample(r) for _ in range(6)]


def prove(seed, i, parts, secs):
    """the contract of program i, i + parts, ... for all inputs"""
    t0 = time.time()
    res, n = [], 0
    todo = [(nm, indent(s), False) for nm, s in FIXED.items()][i::parts]
    k = i
    while time.time() - t0 < secs:
        name, src, wild = todo.pop(0) if todo else program(seed, k)
        if not todo:
            k += parts
        try:
            it = item(name, src)
            it.contract.compile()
        except Exception as e:  # noqa: BLE001
            if wild and "conflicting definitions" in causes(e):
                continue
            res.append({"violations": [{"key": name, "what": f"{name} is rejected: {causes(e)[-300:]}", "input": {"program": src}}]})
            break
        n += 1
        res.append(pack(it.contract.prove()))
    return merge(*res)


def run(seed, i, parts, secs):
    """programs on concrete inputs, at every optimization level"""
    from vp import front
    t0 = time.time()
    n, ev, viol, samples = 0, 0, [], []
    k = 1000000 + i
    while time.time() - t0 < secs and not viol:
        name, src, wild = program(seed, k)
        k += parts
        try:
            it = item(name, src)
            it.compiled()
        except Exception as e:  # noqa: BLE001
            if not (wild and "conflicting definitions" in causes(e)):
                viol.append({"key": name, "what": f"{name} is rejected: {causes(e)[-300:]}", "input": {"program": src}})
            continue
        n += 1
        for x in inputs(seed, k):
            ev += 1
            w = it.one(x)
            if w:
                viol.append({"key": name, "what": f"{name} on {x}: {w}", "input": {"program": src, "cells": {str(a): b for a, b in x.items()}}})
                break
        if len(samples) < 3:
            samples.append(src[-200:])
    return {"violations": viol, "bounded": {"name": "programs run at every level", "evaluations": ev, "distinct": n, "samples": samples, "bound": f"{secs} s of programs, 6 inputs each"}}


def corners(seed):
    """the fixed programs on concrete inputs, and the programs that have to be rejected"""
    from vp import front, pygen
    viol, ev = [], 0
    for name, s in FIXED.items():
        src = indent(s)
        try:
            it = item(name, src)
            it.compiled()
        except Exception as e:  # noqa: BLE001
            viol.append({"key": name, "what": f"{name} is rejected: {causes(e)[-300:]}", "input": {"program": src}})
            continue
        r = random.Random(f"{seed}/{name}")
        for _ in range(40):
            x = sample(r)
            ev += 1
            w = it.one(x)
            if w:
                viol.append({"key": name, "what": f"{name} on {x}: {w}", "input": {"program": src, "cells": {str(a): b for a, b in x.items()}}})
                break
    for name, s in REJECT.items():
        src = indent(s)
        ev += 1
        try:
            fn = front.src_fn(src, dict(pygen.sonolus_namespace()))
            front.compile_fn(fn)
        except Exception:  # noqa: BLE001
            continue
        viol.append({"key": name, "what": f"{name}: the program is compiled, it has to be rejected", "input": {"program": src}})
    return {"violations": viol, "bounded": {"name": "fixed programs, rejected programs", "evaluations": ev, "distinct": ev, "samples": list(FIXED)[:3], "bound": f"{len(FIXED)} programs, {len(REJECT)} to be rejected"}}


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("real", "corners", seed, timeout=300)] + [Task("real", "prove", seed, i, 7, 50 if q else 500, timeout=700) for i in range(7)] + [Task("real", "run", seed, i, 8, 20 if q else 200, timeout=500) for i in range(8)])


def replay(o):
    """the verifier's inputs, then a search, on the compiled program"""
    from vp import contract
    nm = o["name"].split(":")[0]
    if nm in FIXED:
        src = indent(FIXED[nm])
    else:
        seed, k = nm.split(" ")[1].split("/")
        src = program(int(seed), int(k))[1]
    it = item(nm, src)
    r = contract.replay([it], o)
    for v in r.get("violations", []):
        v["input"]["program"] = src
    return r

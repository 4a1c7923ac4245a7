"""Contracts on functions of sonolus.script: the function is compiled by the repository's front end, its graph
executed on arbitrary inputs, and the postcondition proved on every path.  The same contract is evaluated on
concrete inputs with the whole tool chain (all optimization levels, reference interpreter) and with plain Python."""
import math

import z3

from vp import front, sx, sym
from vp.sym import Ctx, FP, SBool, SInt, SReal


_VALID = {}


def use(g):
    """an instance of a lemma: proved on its own, then available on this path"""
    c = Ctx.cur
    t = _b(g)
    key = t.sexpr()
    if key not in _VALID:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Not(t))
        _VALID[key] = s.check() == z3.unsat
    c.obls.append(sym.Obl(c.name + ":lemma instance", "proved" if _VALID[key] else "undecided", "z3", 0))
    if _VALID[key]:
        c.axiom(t)


class Out:
    """what a path wrote: o[i] output cells, done mark"""

    def __init__(self, run):
        self.run = run

    def __getitem__(self, i):
        k = (front.OUT, i)
        if k not in self.run.mem:
            raise sx.Crash(f"output {i} not written")
        return self.run.mem[k]

    def has(self, i):
        return (front.OUT, i) in self.run.mem

    @property
    def done(self):
        return self.run.mem.get((front.DONE, 0), 0)


MK = {"int": SInt.var, "real": SReal.var, "fp": FP.var}


class Contract:
    """fn: zero-argument function in the supported language using inp/inps/out/done;
    types: {cell: "int" | "real" | "fp" | "bool"} (default: the last), pre(v) -> condition, post(v, o) -> {name: condition}
    where v[i] is input cell i; undefined: what an undefined operation means ("fail", or "skip" when outside the contract)"""

    def __init__(self, name, fn, types, post, pre=None, checks="NONE", mode="PLAY", callback="", undefined="fail", ranges=None, fuel=400, crash="fail",
                 budget=60, prove_ms=10000, stubs=(), calls=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    cellfn = None                   # cellfn(v, block, index): initial content of other memory
    archetypes = None

    def compile(self):
        """stubs: (owner, attribute, replacement) for callees known by their contract, see front.call"""
        old = [(o, a, o.__dict__[a]) for o, a, _ in self.stubs]
        for o, a, f in self.stubs:
            setattr(o, a, f)
        try:
            return front.compile_fn(self.fn, self.mode, self.callback, self.checks, self.archetypes)
        finally:
            for o, a, f in old:
                setattr(o, a, f)

    def handlers(self):
        if not self.calls:
            return None

        def h(run, cid, *args):
            res = self.calls[int(cid)](*args)
            for j, x in enumerate(res):
                run.mem[front.CALLS, 16 * int(cid) + j] = x
            return 0
        return {"DebugLog": h}

    def prove(self):
        c = Ctx(self.name, max_paths=4000, budget_s=self.budget, prove_ms=self.prove_ms)
        cfg, rom = self.compile()
        ty = self.types

        def run():
            vs = {}

            def val(i):
                if i not in vs:
                    t = ty[i] if isinstance(ty, dict) and i in ty else (ty if isinstance(ty, str) else ty.get(None, "real"))
                    if isinstance(t, tuple):
                        x = t[1]
                    elif t == "bool":
                        x = SInt.var(f"i{i}")
                        c.assume(SBool(z3.Or(x.t == 0, x.t == 1)))
                    else:
                        x = MK[t](f"i{i}")
                    vs[i] = x
                return vs[i]

            class V:
                def __getitem__(_, i):
                    return val(i)
            v = V()
            if self.pre is not None:
                c.assume(self.pre(v))

            def cell(b, i):
                if b == front.IN:
                    return val(i)
                if self.cellfn is not None:
                    x = self.cellfn(v, b, i)
                    if x is not None:
                        return x
                return SReal(sym.fresh(f"cell{b}_{i}_", z3.RealSort()))
            r = sx.Run(cfg, cell, rom, fuel=self.fuel, sizes=self.ranges, calls=self.handlers())
            try:
                r.run()
            except sx.Undefined as e:
                if self.undefined == "fail":
                    c.fail("defined", str(e))
                return
            except sx.Crash as e:
                if self.crash == "fail":
                    c.fail("in bounds", str(e))
                return
            c.cover("end")
            try:
                for k, g in self.post(v, Out(r)).items():
                    c.prove(k, g)
            except sx.Crash as e:
                c.fail("result", str(e))
        c.run(run)
        return c


class Compiled:
    """a function compiled at every level, run by the reference interpreter on concrete input cells"""

    def __init__(self, fn, checks="NONE", mode="PLAY", callback="", levels=("minimal", "fast", "standard"), archetypes=None):
        from vp.checks.pipe import compile_at
        cfg, self.rom = front.compile_fn(fn, mode, callback, checks, archetypes)
        self.nodes = {lev: compile_at(cfg, lev) for lev in levels}
        self.cfg = cfg

    def run(self, inputs, seed=None, blocks=None):
        """{level: ("ok", return value, outputs, done mark, log) | ("rejected" | "raised", why)}"""
        from sonolus.backend.interpret import Interpreter
        import random
        res = {}
        for lev, (n, why) in self.nodes.items():
            if n is None:
                res[lev] = ("rejected", why)
                continue
            it = Interpreter()
            it.blocks[3000] = list(self.rom)
            cells = [-1.0] * (max(inputs) + 1 if inputs else 0)
            for i, x in inputs.items():
                cells[i] = x
            it.blocks[front.IN] = cells
            for b, c in (blocks or {}).items():
                it.blocks[b] = list(c)
            if seed is not None:
                random.seed(seed)
            try:
                from vp.checks.pipe import Hang, limit
                with limit(20):
                    ret = it.run(n)
            except Hang:
                res[lev] = ("raised", "hang")
                continue
            except Exception as e:  # noqa: BLE001
                res[lev] = ("raised", repr(e))
                continue
            res[lev] = ("ok", ret, list(it.blocks.get(front.OUT, [])), (list(it.blocks.get(front.DONE, [])) or [0])[0], list(it.log), list(it.blocks.get(front.IN, [])), it.blocks)
        return res


class Item:
    """a contract together with its meaning on concrete inputs.
    ref(x) -> expected list of outputs (None entries: anything), or raises Terminated / Skip;  sample(r) -> {cell: number};
    log: expected debug log instead;  tol: relative tolerance of the comparison (None: exact)"""

    def __init__(self, name, fn, sample, ref, contract=None, checks="NONE", tol=None, mode="PLAY", callback="", from_log=False, plain=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self._c = None

    def compiled(self):
        if self._c is None:
            self._c = Compiled(self.fn, self.checks, self.mode, self.callback)
        return self._c

    def one(self, x):
        """None or what is wrong on the input x"""
        try:
            want = self.ref(x)
        except Skip:
            return None
        except Terminated:
            want = None
        if self.plain and want is not None:
            try:
                got = front.plain(self.fn, x)
            except Exception as e:  # noqa: BLE001
                return f"plain Python: {e!r}, expected {want}"
            for k, w in enumerate(want):
                if w is not None and not (k in got and close(got[k], w, self.tol)):
                    return f"plain Python: result {k} is {got.get(k)}, expected {w} (all: {got})"
        for lev, r in self.compiled().run(x).items():
            if r[0] != "ok":
                return f"{lev}: {r[0]}: {r[1]}"
            if want is None:
                if r[3] == 1:
                    return f"{lev}: the runtime check did not trip"
                continue
            got = r[4] if self.from_log else r[2]
            if self.checks != "NONE" and r[3] != 1:
                return f"{lev}: terminated, expected {want}"
            if self.from_log and len(got) != len(want):
                return f"{lev}: {got}, expected {want}"
            for k, w in enumerate(want):
                if w is None:
                    continue
                g = got[k] if k < len(got) else None
                if g is None or not close(g, w, self.tol):
                    return f"{lev}: result {k} is {g}, expected {w} (all: {got[:len(want)]})"
        return None


class Skip(Exception):
    """outside the contract"""


class Terminated(Exception):
    """the runtime check must trip"""


def close(g, w, tol):
    g, w = float(g), float(w)
    if g == w or (g != g and w != w):
        return True
    return tol is not None and abs(g - w) <= tol * max(1.0, abs(g), abs(w))


def sweep(items, seed, n, secs=1e9):
    """concrete runs of every item"""
    import random
    import time
    bad, cnt, per = [], 0, {}
    t0 = time.time()
    samples = []
    for it in items:
        if time.time() - t0 > secs:
            break
        r = random.Random(f"{seed}/{it.name}")
        try:
            it.compiled()
        except Exception as e:  # noqa: BLE001
            bad.append({"key": it.name, "what": f"{it.name}: does not compile: {_cause(e)}", "input": {"item": it.name}})
            continue
        for _ in range(n):
            x = it.sample(r)
            cnt += 1
            w = it.one(x)
            if w:
                bad.append({"key": it.name, "what": f"{it.name} on {x}: {w}", "input": {"item": it.name, "cells": {str(k): v for k, v in x.items()}}})
                break
        samples.append(f"{it.name} {x}")
    return {"violations": bad, "bounded": {"name": "compiled at every level against the definition", "evaluations": cnt, "distinct": cnt, "samples": samples[:3], "bound": f"{n} inputs per item"}}


def _cause(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return repr(e)


def replay(items, o):
    """the verifier's counterexample, then a search, on the compiled code"""
    import random
    from vp.checks.common import unmodel
    nm = o["name"].split(":")[0]
    its = [i for i in items if (i.contract.name if i.contract is not None else i.name) == nm]
    m = unmodel(o.get("model"))
    for it in its:
        r = random.Random(1)
        for t in range(3000):
            x = it.sample(r)
            if t < 4:
                for k in list(x):
                    v = m.get(f"i{k}")
                    if v is not None:
                        x[k] = _num(v)
            try:
                w = it.one(x)
            except Exception as e:  # noqa: BLE001
                w = None
            if w:
                return {"violations": [{"key": it.name, "what": f"{it.name} on {x}: {w}", "input": {"item": it.name, "cells": {str(k): v for k, v in x.items()}}}]}
    # a loop invariant template or an intermediate call that no longer fits is not a violation by itself
    return {"undecided": any(isinstance(i.contract, LoopContract) or i.contract.stubs or getattr(i.contract, "abstract", False) for i in its if i.contract is not None)}


def _num(v):
    if isinstance(v, str):
        from fractions import Fraction
        try:
            return float(Fraction(v.rstrip("?")))
        except ValueError:
            return 0.0
    return v


def conj(*xs):
    return SBool(z3.And(*[_b(x) for x in xs]))


def disj(*xs):
    return SBool(z3.Or(*[_b(x) for x in xs]))


def imp(a, b):
    return SBool(z3.Implies(_b(a), _b(b)))


def iff(a, b):
    return SBool(_b(a) == _b(b))


def neg(a):
    return SBool(z3.Not(_b(a)))


def _b(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (SInt, SReal)):
        return x.t != 0
    return z3.BoolVal(bool(x))


def ite(c, a, b):
    return sx.ite(c, a, b)


class LoopContract(Contract):
    """a function with one loop.  steps(v): terms d for which "cell = its value at entry + k * d" is tried as an invariant for
    every cell the loop assigns (those that are not inductive are dropped); inv(v, k): further invariants over the inputs and the
    iteration number only; body(v, o, k): postcondition of the k-th iteration; post(v, o, k): at the exit after k iterations"""

    def __init__(self, name, fn, types, post, steps=None, inv=None, body=None, **kw):
        super().__init__(name, fn, types, post, **kw)
        self.steps, self.inv, self.body = steps, inv, body

    def invs(self, v, k, o):
        return self.inv(v, k, o) if self.inv.__code__.co_argcount == 3 else self.inv(v, k)

    def prove(self):
        c = Ctx(self.name, max_paths=4000, budget_s=self.budget, prove_ms=self.prove_ms)
        cfg, rom = self.compile()
        loops = sx.back_edges(cfg)
        if len(loops) != 1:
            c.obls.append(sym.Obl(self.name + ":one loop", "undecided", "engine", 0, detail=f"{len(loops)} loops"))
            return c
        (header, body), = loops.items()
        ty = self.types

        def inputs(cc):
            vs = {}

            class V:
                def __getitem__(_, i):
                    if i not in vs:
                        t = ty[i] if isinstance(ty, dict) and i in ty else (ty if isinstance(ty, str) else ty.get(None, "real"))
                        vs[i] = MK[t](f"i{i}")
                    return vs[i]
            v = V()
            if self.pre is not None:
                cc.assume(self.pre(v))
            return v

        def new(v, cand):
            def invariant(k, mem, entry):
                out = []
                for key, d in cand:
                    if key in entry and not isinstance(entry[key], FP):
                        out.append((("step", key, d), mem[key] == entry[key] + k * self.steps(v)[d]))
                if self.inv is not None:
                    out += [(("inv", n), g) for n, g in self.invs(v, k, Out(r)).items()]
                return out

            def cell(b, i):
                if b == front.IN:
                    return v[i]
                return SReal(sym.fresh(f"cell{b}_{i}_", z3.RealSort()))
            r = sx.CutRun(cfg, cell, rom, fuel=self.fuel, sizes=self.ranges, calls=self.handlers(), header=header, body=body, invariant=invariant)
            return r
        # candidates
        probe = sx.CutRun(cfg, None, rom, header=header, body=body)
        cells, _ = probe.assigned()
        nst = 1
        cc = Ctx(self.name + "/count", max_paths=1)
        cnt = []
        cc.run(lambda: cnt.append(len(self.steps(inputs(cc))) if self.steps else 0))
        nst = cnt[0] if cnt else 0
        cand = {(k, d) for k in cells for d in range(nst)}
        inv_checked = set()
        for _ in range(12):
            failed = set()
            hc = Ctx(self.name + "/houdini", max_paths=400, budget_s=self.budget, prove_ms=3000)

            def path():
                v = inputs(hc)
                r = new(v, cand)
                try:
                    r.run()
                except sx.BackEdge as e:
                    for key, d in list(cand):
                        if key in failed or key not in r.entry_mem:
                            continue
                        g = r.mem[key] == r.entry_mem[key] + (r.k + 1) * self.steps(v)[d]
                        res, _m = hc.check(z3.Not(_b(g)), ms=2000)
                        if res != z3.unsat:
                            failed.add((key, d))
                except (sx.Undefined, sx.Crash):
                    pass
            hc.run(path)
            if any(o.status == "undecided" for o in hc.obls):
                c.obls.append(sym.Obl(self.name + ":loop invariant", "undecided", "engine", 0, detail=hc.obls[-1].detail))
                return c
            if not failed:
                break
            cand -= failed
        kept = cand

        def main():
            v = inputs(c)
            # entry: the extra invariants hold for k = 0
            r = new(v, kept)
            if self.inv is not None:
                def at_entry(r):
                    for n, g in self.invs(v, SInt(z3.IntVal(0)), Out(r)).items():
                        c.prove(f"invariant at entry: {n}", g)
                r.at_entry = at_entry
            try:
                r.run()
            except sx.BackEdge:
                for key, d in sorted(kept, key=str):
                    if key in r.entry_mem:
                        c.prove("inductive: a cell advances by its step", r.mem[key] == r.entry_mem[key] + (r.k + 1) * self.steps(v)[d])
                if r.ill_typed():
                    c.obls.append(sym.Obl(self.name + ":loop cells", "undecided", "engine", 0, detail=f"{r.ill_typed()} do not stay integers"))
                if self.inv is not None:
                    for n, g in self.invs(v, r.k + 1, Out(r)).items():
                        c.prove(f"invariant kept: {n}", g)
                c.cover("iteration")
                if self.body is not None:
                    try:
                        for n, g in self.body(v, Out(r), r.k).items():
                            c.prove(n, g)
                    except sx.Crash as e:
                        c.fail("iteration result", str(e))
                return
            except sx.Undefined as e:
                if self.undefined == "fail":
                    c.fail("defined", str(e))
                return
            except sx.Crash as e:
                c.fail("in bounds", str(e))
                return
            c.cover("end")
            try:
                for n, g in self.post(v, Out(r), r.k if r.k is not None else SInt(z3.IntVal(0))).items():
                    c.prove(n, g)
            except sx.Crash as e:
                c.fail("result", str(e))
        c.run(main)
        return c

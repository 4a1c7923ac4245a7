"""Loops of any length: every loop of the compiled function is cut at its header by an invariant over the source
variables and the content of one array.  The array is a total function of its index; its elements are either
values, or identities (the position an element had at the start) so that "is a rearrangement" becomes "the map
from positions to identities is injective".  Quantified facts are Python functions of index terms: a goal gets
fresh indices, a hypothesis is used at the index terms that occur on the path."""
import inspect
import itertools

import z3

from vp import contract, front, sx, sym
from vp.contract import Contract, Out
from vp.sym import Ctx, SBool, SInt, SReal, Unsupported, fresh

A0 = z3.Function("content", z3.IntSort(), z3.RealSort())      # content of the element with this identity
KEY = z3.Function("key", z3.RealSort(), z3.RealSort())        # an arbitrary key function


def _b(x):
    return x if z3.is_expr(x) else contract._b(x)


class Elem(SReal):
    """an element read from the array, with its identity"""
    __slots__ = ("gid",)

    def __init__(self, t, gid):
        super().__init__(t)
        self.gid = gid


def it(x):
    """the integer term of a value"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SReal):
        return z3.ToInt(x.t)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not an integer: {x!r}")


class St:
    """what invariants talk about: loop variables by name, array content"""

    def __init__(self, run, names):
        self.run, self.names, self.arr = run, names, run.arr

    def __getitem__(self, n):
        if n not in self.names:
            raise Unsupported(f"no loop variable {n}")
        k = self.names[n]
        if k not in self.run.mem:
            raise Unsupported(f"loop variable {n} has no value")
        return it(self.run.mem[k])

    def num(self, n):
        if n not in self.names:
            raise Unsupported(f"no loop variable {n}")
        x = self.run.mem[self.names[n]]
        return sym.lift_real(x).t

    def G(self, i):
        return z3.Select(self.arr, i)

    def val(self, i):
        return A0(z3.Select(self.arr, i)) if self.run.ids else z3.Select(self.arr, i)

    def old(self, i):
        return z3.Select(self.run.arr0, i)

    def key(self, i):
        return KEY(self.val(i))


class HRun(sx.Run):
    def __init__(self, entry, cell, rom, con, v, loops, names):
        super().__init__(entry, cell, rom, fuel=con.fuel, calls=con.handlers())
        self.con, self.v = con, v
        self.ids = con.ids
        self.loops = loops              # header -> (number, body)
        self.names = names              # number -> {name: cell}
        self.hyps = []
        self.images = []                # functions applied to index terms before hypotheses are used
        self.terms = {}
        self.active = {}                # number -> (cells, region written)
        self.types = {}
        self.hidden, self.scope = {}, {}
        if self.ids:
            self.arr = fresh("G", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            self.hyps.append(lambda k: z3.Select(self.arr0, k) == k)
        else:
            self.arr = fresh("A", z3.ArraySort(z3.IntSort(), z3.RealSort()))
        self.arr0 = self.arr
        self.at = None

    # -- array
    def term(self, t):
        t = z3.simplify(t)
        self.terms.setdefault(t.sexpr(), t)

    def key(self, p):
        from sonolus.backend.place import TempBlock
        b = p.block
        if isinstance(b, TempBlock):
            return super().key(p)
        blk = b if isinstance(b, int) else self.eval(b)
        if isinstance(blk, sym.Sym):
            blk = self.pick(blk, 0, 0, hint=True)
        i = p.index if isinstance(p.index, (int, float)) else self.eval(p.index)
        i = i + p.offset
        if int(blk) != front.IN:
            return super().key(p)
        base, length = self.con.region(self.v)
        if not isinstance(i, sym.Sym) and (int(i) < base or isinstance(length, int) and int(i) >= base + length):
            return int(blk), int(i)
        i = z3.simplify(it(i) - base)
        Ctx.cur.prove("access within the array", self.instantiate(z3.And(i >= 0, i < it(length))))
        self.term(i)
        return ("array", i)

    def load(self, k):
        if k[0] == "array" and not isinstance(k[0], tuple):
            e = z3.Select(self.arr, k[1])
            return Elem(A0(e), e) if self.ids else SReal(e)
        return super().load(k)

    def store(self, k, v):
        if k[0] == "array":
            if self.ids:
                if not isinstance(v, Elem):
                    raise Unsupported("stored value is not an element of the array")
                self.arr = z3.Store(self.arr, k[1], v.gid)
            else:
                self.arr = z3.Store(self.arr, k[1], sym.lift_real(v).t)
        else:
            self.mem[k] = v
        for n, (cells, region) in self.active.items():
            if self.at in self.body_of[n] and k not in cells and not (k[0] == "array" and region):
                raise Unsupported(f"store to {k} not foreseen in the loop")

    # -- facts
    def assume(self, facts):
        for g in facts.values():
            if callable(g):
                self.hyps.append(g)
            else:
                Ctx.cur.axiom(_b(g))

    def instantiate(self, goal, extra=()):
        """hypotheses at the known index terms => goal"""
        if not self.hyps:
            return goal
        ts = dict(self.terms)
        for t in extra:
            t = z3.simplify(t)
            ts.setdefault(t.sexpr(), t)
        for t in list(ts.values()):
            for u in self.con.derive(t):
                u = z3.simplify(u)
                ts.setdefault(u.sexpr(), u)
        for f in self.images:
            for t in list(ts.values()):
                u = z3.simplify(f(t))
                ts.setdefault(u.sexpr(), u)
        ts = list(ts.values())
        inst = {}
        for h in self.hyps:
            for c in itertools.product(ts, repeat=len(inspect.signature(h).parameters)):
                f = z3.simplify(_b(h(*c)))
                if not z3.is_true(f):
                    inst[f.sexpr()] = f
        return z3.Implies(z3.And(*inst.values()), goal)

    def check(self, name, g, terms=()):
        extra = list(terms)
        if callable(g):
            sk = [fresh("k", z3.IntSort()) for _ in inspect.signature(g).parameters]
            g = g(*sk)
            extra += sk
        Ctx.cur.prove(name, self.instantiate(_b(g), extra))

    def cover(self, name):
        """the path's hypotheses, as used, do not contradict each other"""
        c = Ctx.cur
        if name not in c.covers and c.check(z3.Not(self.instantiate(z3.BoolVal(False))), ms=3000)[0] != z3.unsat:
            c.covers.add(name)

    def check_all(self, prefix, facts, terms=()):
        for n, g in facts.items():
            self.check(f"{prefix}{n}", g, terms)

    def rearranged(self, old):
        """the array content replaced by an arbitrary one; the old array"""
        self.arr = fresh("G", z3.ArraySort(z3.IntSort(), z3.IntSort() if self.ids else z3.RealSort()))
        return self.arr

    def random(self, op, a, b):
        if self.con.draw is not None:
            r = self.con.draw(self, op, a, b)
            if r is not None:
                self.log.append((op, (a, b, r)))
                return r
        return super().random(op, a, b)

    def matched(self, *g):
        """does the path imply that its scan stopped at a match (rather than at the end)"""
        c = Ctx.cur
        return c.check(z3.Not(z3.And(g[0], g[1] >= 0, g[1] < g[2])), ms=3000)[0] == z3.unsat

    # -- loops
    def assigned(self, body):
        from sonolus.backend import ir
        from sonolus.backend.place import TempBlock
        cells, region = set(), False
        for b in body:
            for s in b.statements:
                if isinstance(s, ir.IRSet):
                    p = s.place
                    if isinstance(p.block, TempBlock) and isinstance(p.index, int):
                        cells.add((("t", p.block.name, p.block.size), p.index + p.offset))
                    elif isinstance(p.block, int) and isinstance(p.index, int) and p.block != front.IN:
                        cells.add((p.block, p.index + p.offset))
                    else:
                        region = True
                elif self.calls and getattr(getattr(s, "op", None), "name", "") == "DebugLog":
                    region = region or int(s.args[0].value) in self.con.writers
        return cells, region

    def arrive(self, h):
        n, body = self.loops[h]
        scope = {}
        for m in self.active:
            scope |= self.names[m]
        scope |= self.names[n]
        if n not in self.active:
            # the state of a for loop has no name
            hidden = [c for c in sorted(self.assigned(body)[0], key=str) if c not in self.names[n].values() and isinstance(self.mem.get(c), (int, SInt)) and isinstance(c[0], tuple)]
            self.hidden[n] = hidden[0] if len(hidden) == 1 else None
        for m, c in self.hidden.items():
            if c is not None and (m == n or m in self.active):
                scope[f"#{m}"] = c
        self.scope = scope
        st = St(self, scope)
        inv = self.con.invs[n]
        if n in self.active:
            for c, ty in self.types[n].items():
                x = self.mem.get(c)
                if ty == "int" and not isinstance(x, (int, SInt)):
                    self.con.reals.add(c)
                    raise Unsupported(f"{c} does not stay an integer")
            self.check_all(f"loop {n} keeps: ", inv(self.v, st), st_terms(st))
            self.cover(f"iteration of loop {n}")
            raise sx.BackEdge(self)
        self.check_all(f"loop {n} starts with: ", inv(self.v, st), st_terms(st))
        cells, region = self.assigned(body)
        self.types[n] = {}
        for c in sorted(cells, key=str):
            x = self.mem.get(c)
            if isinstance(x, (int, SInt)) and not isinstance(x, bool) and c not in self.con.reals:
                self.types[n][c] = "int"
                self.mem[c] = SInt(fresh("h", z3.IntSort()))
            else:
                self.mem[c] = SReal(fresh("h", z3.RealSort()))
        if region:
            self.rearranged(self.arr)
        self.active[n] = (cells, region)
        st = St(self, scope)
        for t in st_terms(st):
            self.term(t)
        self.assume(inv(self.v, st))
        if self.con.entered is not None:
            self.con.entered(self, n, self.v, st)

    @property
    def body_of(self):
        return {n: b for n, b in self.loops.values()}

    def run(self):
        from sonolus.backend import ir
        cur = self.cur
        n = 0
        while True:
            n += 1
            if n > self.fuel:
                raise Unsupported("loop without a bound")
            self.at = cur
            if cur in self.loops:
                self.arrive(cur)
            for s in cur.statements:
                if isinstance(s, ir.IRSet):
                    k = self.key(s.place)
                    self.store(k, self.eval(s.value))
                else:
                    self.eval(s)
                    if self.ret is not None:
                        return self
            cur = sx.CutRun.step(self, cur)
            if cur is None:
                return self



def st_terms(st):
    out = []
    for k in st.names.values():
        x = st.run.mem.get(k)
        if isinstance(x, (int, SInt)) and not isinstance(x, bool):
            out.append(it(x))
    return out


class HoareContract(Contract):
    """invs: one function (v, s) -> {name: condition or function of index terms} per loop, in source order; pre_q the same at
    the start; post(v, o, s); region(v) -> (first cell, number of cells) of the array in block IN; ids: elements are identities;
    derive(t): further index terms to use hypotheses at; calls: {id: f(run, *args)} for callees known by contract"""
    abstract = True
    draw = None                         # draw(run, op, a, b): the result of a random draw, chosen by the contract
    entered = None                      # entered(run, loop, v, s): lemmas after a loop invariant was assumed

    def __init__(self, name, fn, types, post, invs=(), pre_q=None, region=None, ids=True, derive=None, **kw):
        super().__init__(name, fn, types, post, **kw)
        self.invs, self.pre_q, self.ids = list(invs), pre_q, ids
        self.region = region or (lambda v: (8, v[0]))
        self.derive = derive or (lambda t: ())
        self.writers = set(self.calls or ()) - {1}      # callees that may change the array

    def handlers(self):
        if not self.calls:
            return None

        def h(run, cid, *args):
            for j, x in enumerate(self.calls[int(cid)](run, *args) or ()):
                run.mem[front.CALLS, 16 * int(cid) + j] = x
            return 0
        return {"DebugLog": h}

    def compile(self):
        from sonolus.script.internal.context import Context
        from sonolus.backend.place import BlockPlace, TempBlock
        rec = self.rec = []
        orig = Context.prepare_loop_header

        def prepare(ctx, to_merge):
            h = orig(ctx, to_merge)
            names = {}
            for n, b in h.loop_variables.items():
                p = getattr(b.value, "data", None)
                if isinstance(p, BlockPlace) and isinstance(p.block, TempBlock) and isinstance(p.index, int):
                    names[n] = (("t", p.block.name, p.block.size), p.index + p.offset)
            rec.append(names)
            return h
        Context.prepare_loop_header = prepare
        try:
            return super().compile()
        finally:
            Context.prepare_loop_header = orig

    def prove(self):
        self.reals = set()              # cells that hold non-integers at a loop header
        for _ in range(4):
            n = len(self.reals)
            c = self.attempt()
            if len(self.reals) == n:
                break
        return c

    def attempt(self):
        c = Ctx(self.name, max_paths=4000, budget_s=self.budget, prove_ms=self.prove_ms)
        cfg, rom = self.compile()
        found = sx.back_edges(cfg)

        def un(why):
            c.obls.append(sym.Obl(self.name + ":loops", "undecided", "engine", 0, detail=why))
            return c
        if len(found) != len(self.invs) or len(self.rec) != len(found):
            return un(f"{len(found)} loops, {len(self.rec)} headers, {len(self.invs)} invariants")
        loops, names = {}, {}
        cells = {h: HRun.assigned(_Probe(self), b)[0] for h, b in found.items()}
        for n, rec in sorted(enumerate(self.rec), key=lambda t: not t[1]):
            cand = [h for h in found if any(k in cells[h] for k in rec.values()) and h not in loops]
            if not rec:
                # a loop without named variables
                cand = [h for h in found if h not in loops]
                if len(cand) > 1:
                    return un("several loops without variables")
            if not cand:
                return un(f"no loop for {sorted(rec)}")
            # the innermost loop that assigns all of the variables the most loops assign
            h = min(cand, key=lambda h: (-sum(k in cells[h] for k in rec.values()), len(found[h])))
            loops[h] = (n, found[h])
            names[n] = rec
        ty = self.types

        def main():
            vs = {}

            class V:
                def __getitem__(_, i):
                    if i not in vs:
                        t = ty[i] if isinstance(ty, dict) and i in ty else (ty if isinstance(ty, str) else ty.get(None, "real"))
                        if isinstance(t, tuple):
                            vs[i] = t[1]
                        else:
                            from vp.contract import MK
                            vs[i] = MK[t](f"i{i}")
                    return vs[i]

                def t(_, i):
                    x = V()[i]
                    return it(x) if isinstance(x, (int, SInt)) else x.t
            v = V()
            if self.pre is not None:
                c.assume(self.pre(v))

            def cell(b, i):
                if b == front.IN:
                    return v[i]
                return SReal(fresh(f"cell{b}_{i}_", z3.RealSort()))
            r = HRun(cfg, cell, rom, self, v, loops, names)
            if self.pre_q is not None:
                r.assume(self.pre_q(v, St(r, {})))
            try:
                r.run()
            except sx.BackEdge:
                return
            except sx.Undefined as e:
                c.fail("defined", str(e))
                return
            except sx.Crash as e:
                c.fail("in bounds", str(e))
                return
            r.cover("end")
            try:
                r.check_all("", self.post(v, Out(r), St(r, r.scope)))
            except sx.Crash as e:
                c.fail("result", str(e))
        def safe():
            try:
                main()
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (Unsupported, sym.Budget, z3.Z3Exception)):
                    raise
                raise Unsupported(f"{type(e).__name__}: {e}") from e
        c.run(safe)
        if not any(o.status == "undecided" for o in c.obls):
            for want in ["end"] + [f"iteration of loop {n}" for n in range(len(self.invs)) if self.invs[n] is not unreached]:
                c.obls.append(sym.Obl(f"{self.name}:not vacuous: {want}", "proved" if want in c.covers else "undecided", "z3", 0))
        return c


def unreached(v, s):
    """invariant of a loop that is not executed"""
    return {"never entered": z3.BoolVal(False)}


class _Probe:
    def __init__(self, con):
        self.con = con
        self.calls = con.calls

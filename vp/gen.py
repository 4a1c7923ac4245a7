"""Random control flow graphs (independent of the repository's own generator): every place kind,
aliasing, pointers, arrays, loops, switches, selects, merges, random and effectful runtime calls.
``program(seed)`` returns a ``Prog`` whose ``entry`` is a legal input graph; reads of
temporaries that are not definitely assigned get an initialisation at entry."""
import math
import random

CONSTS = [0, 1, 2, 3, -1, -2, 4, 5, 7, 8, 10, 0.5, -0.5, 1.5, 2.5, -1.5, 0.1, 100, 255, 256, 1000, 16777216, 16777217, 1e10, -7.25]
WIDE = CONSTS + [1e300, -1e300, 2.0 ** 53, 2.0 ** 31, -2.0 ** 31, 1e-300, math.inf, -math.inf, math.nan, 0.30000000000000004, 65535, 65536]
UN = ["Abs", "Negate", "Not", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign", "Not", "Negate"]
BIN = ["Add", "Subtract", "Multiply", "Max", "Min", "Add", "Subtract"]
CMP = ["Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr"]
GUARD = ["Divide", "Mod", "Rem"]
PURECALL = ["BeatToTime", "HasSkinSprite", "TimeToScaledTime", "StreamHas", "StreamGetValue"]
PUREARITY = {"BeatToTime": 1, "HasSkinSprite": 1, "TimeToScaledTime": 2, "StreamHas": 2, "StreamGetValue": 2}
EFFECT = [("DebugLog", 1), ("Draw", 3), ("Play", 2), ("Spawn", 2), ("SpawnParticleEffect", 3), ("ExportValue", 2), ("StackPush", 1)]


class Prog:
    pass


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        r = self.r
        from sonolus.backend import ir, mode
        from sonolus.backend.ops import Op
        from sonolus.backend.optimize.flow import BasicBlock
        from sonolus.backend.place import BlockPlace, TempBlock
        self.ir, self.Op, self.BB, self.BP, self.TB = ir, Op, BasicBlock, BlockPlace, TempBlock
        self.n = 0
        self.rid = 0
        self.ns = r.randint(2, 6)
        self.scal = [TempBlock(f"v{i}", 1) for i in range(self.ns)]
        self.arr = [TempBlock(f"a{i}", r.choice([1, 2, 3, 3, 5])) for i in range(r.choice([0, 0, 1, 2, 3]))]
        self.wide = r.random() < 0.15
        # memory: writable and read-only blocks for this mode and callback
        self.mode = self.callback = None
        self.W, self.R = [20, 21], []
        if r.random() < 0.75:
            self.mode = r.choice(list(mode.Mode))
            cbs = sorted(self.mode.callbacks) if hasattr(self.mode, "callbacks") else []
            self.callback = r.choice(cbs)
            bl = [b for b in self.mode.blocks if b.name not in ("TemporaryMemory", "EngineRom")]
            w = [b for b in bl if self.callback in b.writable]
            ro = [b for b in bl if self.callback in b.readable and self.callback not in b.writable]
            if w:
                self.W = [self.enum(b) for b in r.sample(w, min(len(w), 2))]
                if r.random() < 0.3:
                    self.W.append(20)
            self.R = [self.enum(b) for b in r.sample(ro, min(len(ro), 2))]
        ids = {int(b) for b in self.W + self.R}
        self.IDX = next(b for b in (30, 31, 32, 33, 34, 35) if b not in ids)      # slots hold small integers
        self.PTR = next(b for b in (40, 41, 42, 43, 44, 45) if b not in ids)      # slots hold (block, index) pairs
        # feature weights of this program
        feats = ["assign", "mem", "rmw", "arr", "ptr", "call", "rand", "swap", "copy", "sel", "purecall"]
        self.w = {f: r.choice([0, 1, 1, 2, 4]) for f in feats}
        self.w["assign"] = max(1, self.w["assign"])
        if not self.arr:
            self.w["arr"] = 0
        self.shape = {f: r.choice([0, 1, 1, 2, 4]) for f in ["if", "switch", "loop", "chain", "diamond", "exit"]}
        self.shape["if"] += 1
        self.counters = []

    def enum(self, b):
        return b if self.r.random() < 0.6 else int(b)

    # ------------------------------------------------------------ leaves
    def const(self):
        r = self.r
        if self.wide and r.random() < 0.4:
            return self.ir.IRConst(r.choice(WIDE))
        return self.ir.IRConst(r.choice(CONSTS) if r.random() < 0.7 else r.choice([0, 1, 2, 3]))

    def get(self, p):
        return self.ir.IRGet(p)

    def P(self, op, *a):
        return self.ir.IRPureInstr(self.Op[op], list(a))

    def intindex(self, size):
        """an expression that is an integer in [0, size)"""
        r = self.r
        k = r.random()
        if self.counters and k < 0.4:
            c = r.choice(self.counters)
            return self.P("Mod", self.get(c[0]), self.ir.IRConst(size)) if size < 8 or r.random() < 0.3 else self.get(c[0])
        if k < 0.7:
            g = self.get(self.BP(self.IDX, r.randrange(4), 0))
            return self.P("Mod", g, self.ir.IRConst(size)) if size < 4 else g
        if k < 0.85:
            return self.P("Mod", self.P("Floor", self.P("Abs", self.scalar())), self.ir.IRConst(size))
        return self.ir.IRConst(r.randrange(size))

    def scalar(self):
        return self.get(self.r.choice(self.scal)[0])

    def arrplace(self):
        r = self.r
        a = r.choice(self.arr)
        k = r.random()
        if k < 0.6:
            o = r.randrange(a.size)
            return self.BP(a, 0, o) if r.random() < 0.5 else self.BP(a, o, 0)
        if a.size > 1 and k < 0.75:
            o = r.randrange(1, a.size)
            return self.BP(a, self.intindex(a.size - o), o)
        return self.BP(a, self.intindex(a.size), 0)

    def memplace(self, blocks):
        r = self.r
        b = r.choice(blocks)
        k = r.random()
        if k < 0.55:
            return self.BP(b, r.randrange(6), 0) if r.random() < 0.7 else self.BP(b, 0, r.randrange(6))
        if k < 0.7:
            return self.BP(b, self.intindex(4), r.choice([0, 0, 1, 2]))
        st = self.ir.IRConst(r.choice([1, 2, 3])) if r.random() < 0.7 else self.get(self.BP(self.IDX, 5, 0))
        ix = self.P("Multiply", *r.choice([(self.intindex(4), st), (st, self.intindex(4))]))
        if r.random() < 0.3:
            ix = self.P("Add", ix, self.intindex(3))
        return self.BP(b, ix, r.choice([0, 0, 1, 2]))

    def ptrplace(self):
        r = self.r
        c = r.choice([0, 2])
        blk = self.BP(self.PTR, c, 0)
        if r.random() < 0.7:
            ix = self.BP(self.PTR, c + 1, 0)
            if r.random() < 0.5:
                ix = self.get(ix)
        else:
            ix = r.choice([0, 1, 2]) if r.random() < 0.5 else self.intindex(4)
        if r.random() < 0.4:
            blk = self.get(blk)
        return self.BP(blk, ix, r.choice([0, 0, 1, 2]))

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.22:
            return self.const()
        if k < 0.62:
            return self.scalar()
        if k < 0.72 and self.arr:
            return self.get(self.arrplace())
        if k < 0.78 and self.w["ptr"]:
            return self.get(self.ptrplace())
        if k < 0.88 and self.R:
            return self.get(self.memplace(self.R))
        return self.get(self.memplace(self.W + self.R))

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.leaf()
        k = r.random()
        if k < 0.4:
            op = r.choice(BIN)
            n = 2 if r.random() < 0.9 else 3
            if op in ("Max", "Min"):
                n = 2
            return self.P(op, *[self.expr(d - 1) for _ in range(n)])
        if k < 0.55:
            return self.P(r.choice(UN), self.expr(d - 1))
        if k < 0.68:
            return self.P(r.choice(CMP), self.expr(d - 1), self.expr(d - 1))
        if k < 0.76:
            return self.P(r.choice(["And", "Or"]), self.boolean(d - 1), self.boolean(d - 1))
        if k < 0.84:
            return self.P(r.choice(GUARD), self.expr(d - 1), self.nonzero(d - 1))
        if k < 0.88:
            x = self.expr(d - 1)
            return r.choice([
                lambda: self.P("Lerp", self.leaf(), self.leaf(), x), lambda: self.P("LerpClamped", self.leaf(), self.leaf(), x),
                lambda: self.P("Unlerp", self.ir.IRConst(1), self.ir.IRConst(3), x),
                lambda: self.P("RemapClamped", self.ir.IRConst(1), self.ir.IRConst(3), self.leaf(), self.leaf(), x),
                lambda: self.P("Clamp", x, self.ir.IRConst(-2), self.ir.IRConst(5)),
                lambda: self.P("Power", x, self.ir.IRConst(r.choice([2, 3, 1]))),
                lambda: self.P("Sin", x), lambda: self.P("EaseOutQuad", x),
                lambda: self.P("JudgeSimple", x, self.leaf(), self.ir.IRConst(1), self.ir.IRConst(2), self.ir.IRConst(3))])()
        if k < 0.94 and self.w["sel"]:
            return self.select(d - 1)
        if self.w["purecall"]:
            op = r.choice(PURECALL)
            return self.P(op, *[self.expr(d - 1) if j == 0 else self.leaf() for j in range(PUREARITY[op])])
        return self.leaf()

    def select(self, d):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.P("If", self.expr(d), self.const(), self.const())
        if k < 0.8:
            ks = r.sample(range(-2, 8), r.randint(1, 5))
            return self.P("SwitchWithDefault", self.expr(d), *[x for q in ks for x in (self.ir.IRConst(q), self.const())], self.const())
        return self.P("SwitchIntegerWithDefault", self.expr(d), *[self.const() for _ in range(r.randint(1, 5))], self.const())

    def boolean(self, d):
        r = self.r
        k = r.random()
        if k < 0.6:
            return self.P(r.choice(CMP), self.expr(d), self.expr(d))
        if k < 0.75:
            return self.P("Not", self.expr(d))
        if k < 0.85 and d > 0:
            return self.P(r.choice(["And", "Or"]), self.boolean(d - 1), self.boolean(d - 1))
        return self.leaf()

    def nonzero(self, d):
        r = self.r
        if r.random() < 0.7:
            return self.ir.IRConst(r.choice([1, 2, 3, -1, -2, 0.5, 8, 2.5]))
        return self.P("Max", self.P("Abs", self.expr(d)), self.ir.IRConst(0.5))

    # ------------------------------------------------------------ statements
    def store(self, p, v):
        return self.ir.IRSet(p, v)

    def anyplace(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return r.choice(self.scal)[0]
        if k < 0.6 and self.arr:
            return self.arrplace()
        if k < 0.75 and self.w["ptr"]:
            return self.ptrplace()
        return self.memplace(self.W)

    def copyplace(self, p):
        """the same location, as a structurally fresh (or shared) object"""
        return p if self.r.random() < 0.5 else self.BP(p.block, p.index, p.offset)

    def stmt(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        d = r.choice([0, 1, 1, 1, 2, 3])
        if k == "assign":
            return [self.store(r.choice(self.scal)[0], self.expr(d))]
        if k == "mem":
            p = self.memplace(self.W)
            if r.random() < 0.4:
                return [self.store(r.choice(self.scal)[0], self.get(self.memplace(self.W + self.R)))]
            return [self.store(p, self.expr(d))]
        if k == "rmw":
            p = self.anyplace()
            g = self.get(self.copyplace(p))
            op = r.choice(["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power", "Add", "Subtract", "Max"])
            e = self.nonzero(0) if op in GUARD else self.ir.IRConst(r.choice([1, 2])) if op == "Power" else \
                self.ir.IRConst(r.choice([1, 1, -1, 2])) if r.random() < 0.4 else self.expr(d)
            if op == "Multiply" and isinstance(e, self.ir.IRPureInstr):
                e = self.ir.IRConst(r.choice([-1, 0.5, 2]))
            v = self.P(op, g, e) if r.random() < 0.8 or op in GUARD or op == "Power" else self.P(op, e, g)
            if r.random() < 0.5:
                return [self.store(p, v)]
            # three-address form with other statements in between
            t = r.choice(self.scal)[0]
            out = [self.store(t, g)]
            if r.random() < 0.35:
                out += self.simple()
            if r.random() < 0.3:
                t2 = r.choice(self.scal)[0]
                out += [self.store(t2, self.P(op, self.get(t), e)), self.store(p, self.get(t2))]
            else:
                out += [self.store(p, self.P(op, self.get(t), e))]
            if r.random() < 0.2:
                out += [self.ir.IRInstr(self.Op.DebugLog, [self.get(t)])]
            return out
        if k == "arr":
            if r.random() < 0.4:
                return self.arrinit(r.choice(self.arr))
            return [self.store(self.arrplace(), self.expr(d))]
        if k == "ptr":
            if r.random() < 0.15:
                c = r.choice([0, 2])
                b = int(r.choice(self.W))
                return [self.store(self.BP(self.PTR, c, 0), self.ir.IRConst(b))] if r.random() < 0.6 else \
                    [self.store(self.BP(self.PTR, c + 1, 0), self.intindex(4))]
            if r.random() < 0.5:
                return [self.store(r.choice(self.scal)[0], self.get(self.ptrplace()))]
            return [self.store(self.ptrplace(), self.expr(d))]
        if k == "call":
            op, n = r.choice(EFFECT)
            e = self.ir.IRInstr(self.Op[op], [self.expr(r.choice([0, 0, 1])) for _ in range(n)])
            if op != "DebugLog" and r.random() < 0.4:
                return [self.store(r.choice(self.scal)[0], e)]
            return [e]
        if k == "rand":
            self.rid += 1
            lo = self.rid * 1.0
            if r.random() < 0.5:
                e = self.ir.IRInstr(self.Op.Random, [self.ir.IRConst(lo + 0.25), self.ir.IRConst(lo + 3.5)])
            elif r.random() < 0.6:
                e = self.ir.IRInstr(self.Op.RandomInteger, [self.ir.IRConst(self.rid), self.ir.IRConst(self.rid + 6)])
            else:
                e = self.ir.IRInstr(self.Op.StackGet, [self.ir.IRConst(self.rid % 3)])
            return [self.store(r.choice(self.scal)[0], e)]
        if k == "swap":
            xs = r.sample(self.scal, min(len(self.scal), r.choice([2, 2, 3])))
            if len(xs) < 2:
                return self.simple()
            t = self.tmp()
            out = [self.store(t[0], self.get(xs[0][0]))]
            for a, b in zip(xs, xs[1:]):
                out.append(self.store(a[0], self.get(b[0])))
            out.append(self.store(xs[-1][0], self.get(t[0])))
            return out
        if k == "copy":
            return [self.store(r.choice(self.scal)[0], self.get(r.choice(self.scal)[0]))]
        if k == "sel":
            return [self.store(r.choice(self.scal)[0], self.select(1))]
        return [self.store(r.choice(self.scal)[0], self.expr(1))]

    def simple(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return [self.store(r.choice(self.scal)[0], self.expr(1))]
        if k < 0.7:
            return [self.store(self.memplace(self.W), self.leaf())]
        return [self.ir.IRInstr(self.Op.DebugLog, [self.leaf()])]

    def tmp(self):
        self.n += 1
        return self.TB(f"t{self.n}", 1)

    def arrinit(self, a):
        same = self.r.random() < 0.3
        v = self.const()
        return [self.store(self.BP(a, 0, k) if self.r.random() < 0.5 else self.BP(a, k, 0), v if same else self.leaf())
                for k in range(a.size)]

    def stmts(self, n):
        out = []
        for _ in range(n):
            out += self.stmt()
        return out

    # ------------------------------------------------------------ structured control flow
    def seq(self, cur, depth, budget):
        """appends code after block ``cur``; returns the block where control continues"""
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            cur.statements += self.stmts(r.choice([0, 1, 2, 3]))
            if depth <= 0 or self.blocks > 24:
                continue
            k = r.choices(list(self.shape), list(self.shape.values()))[0]
            cur = getattr(self, "s_" + k)(cur, depth)
        return cur

    def bb(self):
        self.blocks += 1
        return self.BB()

    def arm(self, depth):
        b = self.bb()
        return b, self.seq(b, depth - 1, 0)

    def s_if(self, cur, depth):
        r = self.r
        j = self.bb()
        b, e = self.arm(depth)
        cur.test = self.boolean(1)
        neg = r.random() < 0.3
        other = j
        if r.random() < 0.5:
            other, oe = self.arm(depth)
            oe.connect_to(j)
        e.connect_to(j)
        k = r.random()
        if k < 0.7:
            cur.connect_to(other if not neg else b, 0)
            cur.connect_to(b if not neg else other, None)
        elif k < 0.85:
            cur.connect_to(b, 1)
            cur.connect_to(other, None)
        else:
            c = r.choice([2, -1, 0.5, 1, 3])
            cur.test = self.expr(1)
            cur.connect_to(b, c)
            cur.connect_to(other, None)
        return j

    def s_diamond(self, cur, depth):
        """arms that only assign (merged into selects)"""
        r = self.r
        j = self.bb()
        cur.test = self.boolean(1) if r.random() < 0.8 else self.leaf()
        vs = r.sample(self.scal, min(len(self.scal), r.choice([1, 1, 2])))
        ar = []
        for _ in range(r.choice([1, 2])):
            b = self.bb()
            for v in vs:
                if r.random() < 0.85:
                    b.statements.append(self.store(v[0], self.const() if r.random() < 0.75 else self.expr(1)))
            if r.random() < 0.3 and depth > 0:
                b = self.s_diamond_inner(b, vs, j)
            else:
                b.connect_to(j)
            ar.append(b)
        c = r.choice([0, 0, 0, 1, 2])
        cur.connect_to(ar[0], c)
        cur.connect_to(ar[1] if len(ar) > 1 else j, None)
        if r.random() < 0.5:
            j.statements.append(self.store(r.choice(self.scal)[0], self.P(r.choice(["Add", "Multiply", "And", "Or", "Equal", "Subtract"]),
                                                                       self.get(vs[0][0]), self.leaf())))
        return j

    def s_diamond_inner(self, b, vs, j):
        r = self.r
        b.test = self.boolean(1)
        c = self.bb()
        for v in vs:
            if r.random() < 0.8:
                c.statements.append(self.store(v[0], self.const()))
        c.connect_to(j)
        b.connect_to(c, r.choice([0, 1]))
        b.connect_to(j, None)
        return b

    def s_switch(self, cur, depth):
        r = self.r
        j = self.bb()
        n = r.choice([2, 3, 4, 5, 7])
        k = r.random()
        if k < 0.35:
            conds = list(range(n))
        elif k < 0.6:
            st, of = r.choice([2, 3, 5, -2, 0.5, 4]), r.choice([0, 1, -3, 10, 100, 0.5])
            conds = [of + st * i for i in range(n)]
        elif k < 0.8:
            conds = r.sample(list(range(-5, 12)), n)
        else:
            conds = r.sample([0, 1, 2, 3, 0.5, -1, 1.5, 100, 1e10, 16777216, 16777217, -16777216, 1e18, 2.0 ** 31], n)
        if r.random() < 0.3 and len(conds) > 2:
            conds.pop(r.randrange(len(conds)))
        k = r.random()
        base = self.get(self.memplace(self.W + self.R)) if k < 0.6 else self.scalar()
        cur.test = base if k < 0.75 else self.P(r.choice(["Add", "Subtract", "Multiply"]), base, self.const()) if k < 0.9 else self.expr(2)
        shared = None
        vs = r.choice(self.scal)
        kind = r.random()
        for c in conds:
            if shared is not None and r.random() < 0.2:
                cur.connect_to(shared, c)
                continue
            if kind < 0.5:
                b = self.bb()
                b.statements.append(self.store(vs[0], self.const()))
                e = b
            else:
                b, e = self.arm(min(depth, 1))
            e.connect_to(j)
            shared = b
            cur.connect_to(b, int(c) if isinstance(c, float) and c.is_integer() and r.random() < 0.5 else c)
        if r.random() < 0.8:
            if r.random() < 0.5:
                b, e = self.arm(min(depth, 1))
                e.connect_to(j)
                cur.connect_to(b, None)
            else:
                cur.connect_to(j, None)
        return j

    def s_chain(self, cur, depth):
        """if x == a: ... elif x == b: ..."""
        r = self.r
        j = self.bb()
        v = r.choice(self.scal)
        cur.statements.append(self.store(v[0], self.get(self.memplace(self.W + self.R)) if r.random() < 0.7 else self.expr(1)))
        pool = [0, 1, 2, 3, 4, 5, -1, 0.5, 7, 10, 2, 1]
        if self.wide:
            pool += [math.inf, math.nan, 1e18, 16777217, 16777216]
        n = r.randint(2, 6)
        for i in range(n):
            c = r.choice(pool)
            x = [self.get(v[0]), self.ir.IRConst(c)]
            if r.random() < 0.2:
                x.reverse()
            cur.test = self.P("Equal" if r.random() < 0.85 else "NotEqual", *x)
            b, e = self.arm(0) if r.random() < 0.7 else (j, None)
            if e is not None:
                e.connect_to(j)
            nxt = self.bb()
            if cur.test.op.name == "Equal":
                cur.connect_to(nxt, 0)
                cur.connect_to(b, None)
            else:
                cur.connect_to(b, 0)
                cur.connect_to(nxt, None)
            if r.random() < 0.15:
                nxt.statements += self.simple()
            cur = nxt
        cur.statements += self.stmts(1)
        cur.connect_to(j)
        return j

    def s_loop(self, cur, depth):
        r = self.r
        c = self.tmp()
        n = r.choice([1, 2, 3, 4, 5])
        cur.statements.append(self.store(c[0], self.ir.IRConst(0)))
        head, exit_ = self.bb(), self.bb()
        lim = self.ir.IRConst(n) if r.random() < 0.6 else self.get(self.BP(self.IDX, r.randrange(4), 0))
        inc = self.store(c[0], self.P("Add", self.get(c[0]), self.ir.IRConst(1)))
        self.counters.append(c)
        if r.random() < 0.65:
            cur.connect_to(head)
            if r.random() < 0.3:
                head.statements += self.stmts(1)
            head.test = self.P("Less", self.get(c[0]), lim)
            body, e = self.arm(depth)
            head.connect_to(body, None)
            head.connect_to(exit_, 0)
            if r.random() < 0.3:          # break
                e.test = self.boolean(1)
                cont = self.bb()
                e.connect_to(exit_, r.choice([0, 1]))
                e.connect_to(cont, None)
                e = cont
            if r.random() < 0.2:          # continue
                e.test = self.boolean(1)
                e2, latch = self.bb(), self.bb()
                e.connect_to(latch, 0)
                e.connect_to(e2, None)
                e2.statements += self.stmts(1)
                e2.connect_to(latch)
                e = latch
            e.statements.append(inc)
            e.connect_to(head)
        else:
            body, e = self.arm(depth)
            cur.connect_to(body)
            e.statements.append(inc)
            e.test = self.P("Less", self.get(c[0]), lim) if r.random() < 0.7 else self.P("Not", self.P("GreaterOr", self.get(c[0]), lim))
            e.connect_to(body, None)
            e.connect_to(exit_, 0)
        self.counters.pop()
        return exit_

    def s_exit(self, cur, depth):
        """an early exit"""
        r = self.r
        nxt, out = self.bb(), self.bb()
        out.statements += self.stmts(1)
        cur.test = self.boolean(1)
        cur.connect_to(out, 0)
        cur.connect_to(nxt, None)
        return nxt

    # ------------------------------------------------------------ arbitrary graphs
    def graph(self):
        r = self.r
        n = r.randint(2, 8)
        bs = [self.bb() for _ in range(n)]
        fuel = self.TB("fuel", 1)
        for i, b in enumerate(bs):
            b.statements += self.stmts(r.choice([0, 1, 1, 2, 3]))
            k = r.random()

            def to(t, cond, i=i, b=b):
                if t > i:
                    b.connect_to(bs[t], cond)
                else:
                    g = self.bb()
                    g.statements.append(self.store(fuel[0], self.P("Add", self.get(fuel[0]), self.ir.IRConst(1))))
                    g.test = self.P("Less", self.get(fuel[0]), self.ir.IRConst(6))
                    g.connect_to(bs[t], None)
                    b.connect_to(g, cond)
            if k < 0.1:
                continue
            if k < 0.35:
                to(r.randrange(n) if r.random() < 0.4 else min(n - 1, i + 1), None)
            elif k < 0.8:
                b.test = self.boolean(1)
                to(r.randrange(n), r.choice([0, 0, 1]))
                to(r.randrange(n), None)
            else:
                b.test = self.leaf()
                for c in r.sample([0, 1, 2, 3, -1, 0.5, 7], r.randint(1, 4)):
                    to(r.randrange(n), c)
                if r.random() < 0.7:
                    to(r.randrange(n), None)
        return bs[0]

    def observe(self):
        r = self.r
        out = []
        for v in self.scal:
            if r.random() < 0.6:
                out.append(self.ir.IRInstr(self.Op.DebugLog, [self.get(v[0])]))
        for a in self.arr:
            for k in range(a.size):
                if r.random() < 0.3:
                    out.append(self.ir.IRInstr(self.Op.DebugLog, [self.get(self.BP(a, 0, k))]))
        return out

    def build(self):
        r = self.r
        self.blocks = 1
        entry = self.BB()
        if r.random() < 0.3:
            entry.connect_to(self.graph())
        else:
            e = self.seq(entry, r.choice([1, 2, 2, 3]), 0)
            e.statements += self.stmts(r.choice([0, 1]))
        for b in walk(entry):
            if not b.outgoing and r.random() < 0.9:
                b.statements += self.observe()
        self.define(entry)
        return entry

    # ------------------------------------------------------------ definite assignment
    def define(self, entry):
        bs = list(walk(entry))
        allv = {}

        def uses(e, acc):
            if isinstance(e, self.ir.IRGet):
                e = e.place
            if isinstance(e, self.BP):
                if isinstance(e.block, self.TB):
                    acc.append((e.block.name, e.block.size))
                    allv[e.block.name, e.block.size] = e.block
                else:
                    uses(e.block, acc)
                uses(e.index, acc)
            elif hasattr(e, "args"):
                for a in e.args:
                    uses(a, acc)

        info = {}
        for b in bs:
            ev = []           # ("u", var) / ("d", var)
            partial = {}
            for s in b.statements:
                acc = []
                if isinstance(s, self.ir.IRSet):
                    uses(s.value, acc)
                    p = s.place
                    if isinstance(p.block, self.TB):
                        uses(p.index, acc)
                        k = (p.block.name, p.block.size)
                        allv[k] = p.block
                        ev += [("u", v) for v in acc]
                        if isinstance(p.index, int):
                            st = partial.setdefault(k, set())
                            st.add(p.index + p.offset)
                            if len(st) == k[1]:
                                ev.append(("d", k))
                        continue
                    uses(p, acc)
                else:
                    uses(s, acc)
                ev += [("u", v) for v in acc]
            acc = []
            uses(b.test, acc)
            ev += [("u", v) for v in acc]
            info[b] = ev
        full = set(allv)
        IN = {b: (set() if b is entry else set(full)) for b in bs}
        bad = set()

        def flow(b, note):
            cur = set(IN[b])
            for k, v in info[b]:
                if k == "d":
                    cur.add(v)
                elif v not in cur and note:
                    bad.add(v)
            return cur
        ch = True
        while ch:
            ch = False
            for b in bs:
                o = flow(b, False)
                for e in b.outgoing:
                    if not IN[e.dst] <= o:
                        IN[e.dst] &= o
                        ch = True
        for b in bs:
            flow(b, True)
        init = []
        for k in sorted(bad):
            t = allv[k]
            for j in range(t.size):
                init.append(self.store(self.BP(t, 0, j), self.ir.IRConst(0 if t.name.startswith(("t", "fuel")) else self.r.choice(CONSTS))))
        if init:
            if any(e.dst is entry for b in bs for e in b.outgoing):
                raise AssertionError
            entry.statements[:0] = init

    def memory(self, r):
        pool = CONSTS[:14] if r.random() < 0.5 else CONSTS
        if self.wide:
            pool = WIDE if r.random() < 0.6 else CONSTS
        m = {}
        for b in self.W + self.R:
            for i in range(16):
                if r.random() < 0.85:
                    m[int(b), i] = r.choice(pool) if r.random() < 0.7 else r.choice([0, 1, 2, 3, 4, 5, 6, 7])
        for i in range(5):
            m[self.IDX, i] = r.randrange(4)
        m[self.IDX, 5] = r.choice([1, 2, 3])
        blocks = [int(b) for b in self.W]
        for c in (0, 2):
            m[self.PTR, c] = r.choice(blocks)
            m[self.PTR, c + 1] = r.randrange(6)
        return m


def walk(entry):
    seen, st, out = {entry}, [entry], []
    while st:
        b = st.pop()
        out.append(b)
        for e in sorted(b.outgoing, key=lambda e: (e.cond is None, e.cond if e.cond is not None else 0)):
            if e.dst not in seen:
                seen.add(e.dst)
                st.append(e.dst)
    return out


def program(seed):
    g = Gen(seed)
    p = Prog()
    p.entry = g.build()
    p.gen = g
    p.mode, p.callback = g.mode, g.callback
    r = random.Random(seed * 7919 + 13)
    p.mems = [g.memory(r) for _ in range(4)]
    return p

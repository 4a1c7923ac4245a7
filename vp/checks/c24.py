"""C24: declared storage never overlaps and values survive a round trip.

Layout contracts, for all field sizes (the real allocation code runs on types whose size is an arbitrary non-negative integer)
  _create_global, _GlobalField        ensures fields of a class occupy consecutive, disjoint ranges inside the size of the class
  Context.get_global_base             invariant: the ranges handed out for one block are disjoint and inside its capacity; a global keeps its
                                      range; requires nothing of the order of first uses; raises iff the capacity would be exceeded
  _BaseArchetype._init_fields         invariant over the fields: the ranges of fields of one storage are disjoint, in order and within 32 / 32 /
                                      64 cells; raises iff they do not fit; inherited fields keep their range
  _ArchetypeField.__get__, __set__    ensures the place is block of the storage + offset, 32 * index + offset for other entities
  Record.__init_subclass__, _size_, _from_place_, Array._from_place_, __getitem__, set_unchecked    ensures parts occupy disjoint ranges inside the value
Value contracts, per generated layout (records, generic records, arrays, nested; all storage classes and modes), for all contents of memory
  write, @=, zeros, reference, copy, indexed access: every number of the layout reads as before or as written; only cells of the storage are touched
  flattening: _to_list_ / _from_list_ / _flat_keys_ / _to_flat_dict_ are inverse to each other and name every number once
  imports, exports and level data of packaged engines: each number arrives in the cell its field is read from"""
import random
import time

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["globals._create_global", "_GlobalField.__get__", "_GlobalField.__set__", "_GlobalPlaceholder.get", "Context.get_global_base", "_BaseArchetype._init_fields",
                  "_ArchetypeField.__get__", "_ArchetypeField.__set__", "_deref", "Record.__init_subclass__", "Record._size_", "Record._from_place_", "Record._copy_from_", "Record._copy_",
                  "Record._alloc_", "Record._zero_", "_RecordField.__get__", "_RecordField.__set__", "Array._from_place_", "Array.get_unchecked", "Array.set_unchecked",
                  "Array._copy_from_", "Array._copy_", "Array._zero_", "Value._to_flat_dict_", "_to_list_", "_from_list_", "_flat_keys_", "_BaseArchetype._level_data_entries"],
    "trusted": ["sx: symbolic execution of front end graphs", "layout.expect: what a read has to give after each operation"],
    "assumptions": ["entity data of an entity is the 32 cells from 32 * index on, shared memory alike", "indices are inside the array"],
    "rule": "layout: all sizes, 3 fields per storage and class after an arbitrary inherited prefix; values: random layouts, every place of each, all contents of memory",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "contracts of the allocation code with the sizes as unknowns; read-after-write and frame conditions of compiled accesses, by z3",
    "level_note": "allocation: all sizes; compiled accesses: all contents, generated layouts",
}

LIMIT = {"imported": 32, "entity_data": 32, "exported": 32, "shared_memory": 32, "entity_memory": 64}


# ---------------------------------------------------------------- allocation, sizes unknown

_int = []


def integer(t):
    """an unknown integer that passes for an int"""
    from vp.sym import SInt
    if not _int:
        def un(o):
            return SInt(o.t) if isinstance(o, SInt) else o

        class Int(SInt):
            __slots__ = ()
            __class__ = property(lambda self: int)

        for op in ("add", "radd", "sub", "rsub", "mul", "rmul"):
            def f(self, o, g=getattr(SInt, f"__{op}__")):
                r = g(SInt(self.t), un(o))
                return Int(r.t) if type(r) is SInt else r
            setattr(Int, f"__{op}__", f)
        for op in ("lt", "le", "gt", "ge", "eq", "ne"):
            def f(self, o, g=getattr(SInt, f"__{op}__")):
                return g(SInt(self.t), un(o))
            setattr(Int, f"__{op}__", f)
        Int.__hash__ = lambda self: self.t.hash()
        _int.append(Int)
    return _int[0](t.t)


def unknown(name, sz):
    """a concrete value type whose size is ``sz``; its values remember their place"""
    from sonolus.script.internal.value import Value

    class At:
        def __init__(self, t, place):
            self.t, self.place = t, place

        def _get_readonly_(self):
            return self

        _get_ = _get_readonly_

        def _set_(self, v):
            log.append((self.t, self.place, v))

        _copy_from_ = _set_
    log = []
    d = {"_is_concrete_": classmethod(lambda cls: True), "_size_": classmethod(lambda cls: sz), "_is_value_type_": classmethod(lambda cls: False),
         "_from_place_": classmethod(lambda cls, p: At(cls, p)), "_flat_keys_": classmethod(lambda cls, p: [p]), "_accepts_": classmethod(lambda cls, v: True),
         "_accept_": classmethod(lambda cls, v: v), "log": log}
    t = type(name, (Value,), d)
    t.__module__ = __name__
    return t


def sizes(n, c, cap=None):
    from vp.sym import SInt
    r = []
    for i in range(n):
        s = SInt.var(f"s{i}")
        c.assume(s >= 0)
        r.append(integer(s))
    return r


def apart(iv):
    """the non-empty ranges of the list are pairwise disjoint"""
    from vp.contract import conj, disj
    res = []
    for i, (a, s) in enumerate(iv):
        for b, u in iv[i + 1:]:
            res.append(disj(a + s <= b, b + u <= a))
    return conj(*res)


def inside(iv, total):
    from vp.contract import conj
    return conj(*[x for a, s in iv for x in (a >= 0, a + s <= total)])


def prove_paths(name, fn, budget=60):
    from vp.sym import Ctx
    c = Ctx(name, max_paths=3000, budget_s=budget, prove_ms=10000)
    try:
        c.run(lambda: fn(c))
    except Exception as e:  # noqa: BLE001  (the code does something with a size that an unknown size does not support)
        from vp.sym import Obl
        c.obls.append(Obl(f"{name}:supported", "undecided", "", 0, None, repr(e)[:200]))
    return pack(c)


def offs(place):
    """block and cell of a place, the cell as a term"""
    return place.block, place.index + place.offset


def sym_globals(n):
    """a class of n fields"""
    def fn(c):
        from sonolus.backend.blocks import PlayBlock
        from sonolus.backend.mode import Mode
        from sonolus.script.globals import _create_global
        ss = sizes(n, c)
        ts = [unknown(f"T{i}", s) for i, s in enumerate(ss)]
        cls = type("G", (), {"__annotations__": {f"f{i}": t for i, t in enumerate(ts)}, "__module__": __name__})
        _create_global(cls, {Mode.PLAY: PlayBlock.LevelMemory}, None)
        iv = [(cls.__dict__[f"f{i}"].offset, s) for i, s in enumerate(ss)]
        c.cover("end")
        c.prove("fields disjoint", apart(iv))
        c.prove("fields inside the class", inside(iv, cls._global_info_.size))
        tot = 0
        for s in ss:
            tot = tot + s
        c.prove("no waste", cls._global_info_.size == tot)
    return prove_paths(f"global class of {n}", fn)


def sym_bases(order, kinds):
    """globals used for the first time in the given order (with repetitions); kinds[i]: 0 memory, 1 data, 2 fixed offset"""
    def fn(c):
        from sonolus.backend.blocks import PlayBlock
        from sonolus.backend.mode import Mode
        from sonolus.script.globals import _create_global, _GlobalInfo
        from sonolus.script.internal.context import CallbackContextState, Context, ModeContextState, ProjectContextState
        ss = sizes(len(kinds), c)
        ms = ModeContextState(Mode.PLAY)
        bl = [PlayBlock.LevelMemory, PlayBlock.LevelData, PlayBlock.RuntimeUI]
        gs = []
        for i, (k, s) in enumerate(zip(kinds, ss)):
            if i % 2:
                gs.append(_create_global(unknown(f"T{i}", s), {Mode.PLAY: bl[k]}, 0 if k == 2 else None))
            else:
                gs.append(_GlobalInfo(f"g{i}", s, {Mode.PLAY: bl[k]}, 0 if k == 2 else None))
        got, used, full = {}, {0: 0, 1: 0}, False
        ps = ProjectContextState()
        for g in order:
            k = kinds[g]
            try:
                # another callback of the same mode each time
                p = Context(ps, ms, CallbackContextState("preprocess")).get_global_base(gs[g])
            except Exception as e:  # noqa: BLE001
                from sonolus.script.internal.error import CompilationError
                if not isinstance(e, CompilationError):
                    raise
                c.cover("rejected")
                c.prove("rejected only if it does not fit", used[k] + ss[g] > 4096)
                c.prove("not after it was accepted", g not in got)
                full = True
                break
            b, a = offs(p)
            c.prove("block", b == bl[k])
            if g in got:
                c.prove("keeps its range", a == got[g])
            elif k < 2:
                used[k] = used[k] + ss[g]
            got[g] = a
        for k in (0, 1):
            iv = [(got[g], ss[g]) for g in got if kinds[g] == k]
            c.prove("globals disjoint", apart(iv))
            c.prove("inside the block", inside(iv, 4096))
        for g in got:
            if kinds[g] == 2:
                c.prove("fixed offset", got[g] == 0)
        c.cover("end" if not full else "full")
    return prove_paths(f"globals used in order {order}, kinds {kinds}", fn, 90)


def sym_archetype(own, base, mode):
    """own, base: storage of each field"""
    def fn(c):
        from sonolus.script import archetype as ar
        B = {"PLAY": ar.PlayArchetype, "WATCH": ar.WatchArchetype, "PREVIEW": ar.PreviewArchetype}[mode]
        ss = sizes(len(base) + len(own), c)
        ts = [unknown(f"T{i}", s) for i, s in enumerate(ss)]
        spec = [*base, *own]
        from typing import Annotated
        ann = {f"f{i}": Annotated[t, getattr(ar, st)()] for i, (t, st) in enumerate(zip(ts, spec))}
        names = list(ann)
        mk = lambda n, b, xs: type(b)(n, (b,), {"__annotations__": {x: ann[x] for x in xs}, "__module__": __name__})     # noqa: E731
        group = lambda st: "imported" if st == "entity_data" else st          # noqa: E731
        tot, over = {}, []
        for s, st in zip(ss, spec):
            g = group(st)
            tot[g] = tot.get(g, 0) + s
            over.append((tot[g], LIMIT[st]))

        def check(cls, n, ok, before=None):
            from vp.contract import conj, disj, neg
            fit = conj(*[t <= lim for t, lim in over[:n]])
            if not ok:
                c.cover("rejected")
                c.prove("rejected only if a storage does not fit", neg(fit))
                return
            c.prove("accepted only if every storage fits", fit)
            f = {x: getattr(cls, x) for x in names[:n]}
            for g in set(map(group, spec[:n])):
                iv = [(f[x].offset, s) for x, s, st in zip(names, ss, spec[:n]) if group(st) == g]
                c.prove(f"{g} fields disjoint", apart(iv))
                c.prove(f"{g} fields inside the storage", inside(iv, LIMIT[g]))
            if before:
                for x, o in before.items():
                    c.prove("inherited fields keep their range", f[x].offset == o)
            return {x: f[x].offset for x in f}
        b = mk("B", B, names[:len(base)]) if base else B
        before = None
        if base:
            try:
                b._init_fields()
            except ValueError:
                return check(b, len(base), False)
            before = check(b, len(base), True)
        a = mk("A", b, names[len(base):])
        try:
            a._init_fields()
        except ValueError:
            return check(a, len(spec), False)
        check(a, len(spec), True, before)
        if base:
            check(b, len(base), True, before)
        # the places its fields are accessed at
        from sonolus.backend.mode import Mode
        from sonolus.script.internal.context import CallbackContextState, Context, ModeContextState, ProjectContextState, using_ctx
        from sonolus.backend.place import BlockPlace
        from unittest import mock
        cx = Context(ProjectContextState(), ModeContextState(Mode[mode]), CallbackContextState(""))
        blocks = cx.blocks
        # _deref by its contract: the value of the type at block and offset (its own code runs in the compiled accesses)
        with using_ctx(cx), mock.patch.object(ar, "_deref", lambda b, o, t: t._from_place_(BlockPlace(b, 0, o))):
            me = object.__new__(a)
            me._data_ = ar._ArchetypeSelfData()
            for x, t, st in zip(names, ts, spec):
                if st == "exported":
                    continue
                want = {"imported": "EntityData", "shared_memory": "EntitySharedMemory", "entity_memory": "EntityMemory"}[group(st)]
                bk, at = offs(getattr(me, x).place)
                c.prove("reads its own block", bk == getattr(blocks, want))
                c.prove("reads its own range", at == getattr(a, x).offset)
                setattr(me, x, 5)
                _, place, _ = t.log.pop()
                bk, at = offs(place)
                c.prove("writes its own block", bk == getattr(blocks, want))
                c.prove("writes its own range", at == getattr(a, x).offset)
        c.cover("end")
    return prove_paths(f"archetype {mode} {base} + {own}", fn, 90)


def sym_record(n):
    """a record of n fields: the places and the size"""
    def fn(c):
        from sonolus.backend.place import BlockPlace
        from sonolus.script.record import Record
        from vp.sym import SInt
        ss = sizes(n, c)
        ts = [unknown(f"T{i}", s) for i, s in enumerate(ss)]
        rec = type(Record)("Rec", (Record,), {"__annotations__": {f"f{i}": t for i, t in enumerate(ts)}, "__module__": __name__})
        a = integer(SInt.var("at"))
        c.assume(a >= 0)
        v = rec._from_place_(BlockPlace(100, 0, a))
        iv = []
        for i, s in enumerate(ss):
            b, k = offs(v._value_[f"f{i}"].place)
            c.prove("block", b == 100)
            iv.append((k - a, s))
        c.cover("end")
        c.prove("fields disjoint", apart(iv))
        c.prove("fields inside the record", inside(iv, rec._size_()))
    return prove_paths(f"record of {n}", fn)


def sym_generic(binding):
    """a generic record whose fields get types of unknown size"""
    def fn(c):
        from sonolus.backend.place import BlockPlace
        from vp import front
        from vp.sym import SInt
        ss = sizes(2, c)
        ts = [unknown(f"T{i}", s) for i, s in enumerate(ss)]
        ns = {"__name__": "vpgen"}
        front.src_fn("from sonolus.script.record import Record\n\nclass H[T, U](Record):\n" + "".join(f"    f{i}: {x}\n" for i, x in enumerate(binding)) + "\n\ndef f():\n    pass\n", ns)
        iv, tot = [], 0
        rec = ns["H"][ts[0], ts[1]]
        a = integer(SInt.var("at"))
        c.assume(a >= 0)
        v = rec._from_place_(BlockPlace(100, 0, a))
        for i, x in enumerate(binding):
            iv.append((offs(v._value_[f"f{i}"].place)[1] - a, ss["TU".index(x)]))
        c.cover("end")
        c.prove("fields disjoint", apart(iv))
        c.prove("fields inside the record", inside(iv, rec._size_()))
    return prove_paths(f"generic record {binding}", fn)


def sym_array(n):
    """elements of an array of n values of unknown size, constant indices"""
    def fn(c):
        from sonolus.backend.mode import Mode
        from sonolus.backend.place import BlockPlace
        from sonolus.script.array import Array
        from sonolus.script.internal.context import CallbackContextState, Context, ModeContextState, ProjectContextState, using_ctx
        from vp.sym import SInt
        s, = sizes(1, c)
        t = unknown("T", s)
        arr = Array[t, n]
        a = integer(SInt.var("at"))
        c.assume(a >= 0)
        cx = Context(ProjectContextState(), ModeContextState(Mode.PLAY), CallbackContextState(""))
        with using_ctx(cx):
            v = arr._from_place_(BlockPlace(100, 0, a))
            rd, wr = [], []
            for i in range(n):
                rd.append((offs(v.get_unchecked(i).place)[1] - a, s))
                v.set_unchecked(i, 7)
                wr.append((offs(t.log.pop()[1])[1] - a, s))
        c.cover("end")
        c.prove("elements disjoint", apart(rd))
        c.prove("elements inside the array", inside(rd, arr._size_()))
        for (x, _), (y, _) in zip(rd, wr):
            c.prove("written where it is read", x == y)
    return prove_paths(f"array of {n}", fn)


# ---------------------------------------------------------------- compiled accesses

BLOCKS = {("memory", "PLAY"): (2000, 4096), ("memory", "WATCH"): (2000, 4096), ("memory", "TUTORIAL"): (2000, 4096), ("data", "PLAY"): (2001, 4096), ("data", "WATCH"): (2001, 4096),
          ("data", "TUTORIAL"): (2001, 4096), ("data", "PREVIEW"): (2000, 4096)}
OWN = {4000: 64, 4001: 32, 4002: 32}


def namespace():
    from sonolus.script import archetype as ar
    from sonolus.script.array import Array
    from sonolus.script.globals import level_data, level_memory
    from sonolus.script.record import Record
    from sonolus.script.values import copy, zeros
    from vp import front
    A = front.api()
    return {"__name__": "vplayout", "inp": A["inp"], "out": A["out"], "Array": Array, "Record": Record, "copy": copy, "zeros": zeros, "level_memory": level_memory, "level_data": level_data,
            **{n: getattr(ar, n) for n in ("PlayArchetype", "WatchArchetype", "imported", "exported", "entity_data", "entity_memory", "shared_memory")}}


def make(lay, label, stmts, extra, expect):
    from vp import front
    from vp.contract import Contract, conj, imp
    src = lay.program(stmts, extra)
    ns = namespace()
    f = front.src_fn(src, ns)
    n = len(lay.all)
    dyn = label[1] if isinstance(label, tuple) else None

    def post(v, o):
        before = [o[i] for i in range(n)]
        after, ext = expect(v, before)
        res = {"every number as before or as written": conj(*[o[n + i] == a for i, a in enumerate(after)])}
        if ext:
            res["copies and results"] = conj(*[o[2 * n + i] == a for i, a in enumerate(ext)])
        for b, i in o.run.mem:
            if not isinstance(b, int) or b in (front.IN, front.OUT, front.DONE):
                continue
            if lay.kind in ("memory", "data"):
                k, lim = BLOCKS[lay.kind, lay.mode]
                ok = b == k and 0 <= i < lim
            elif lay.kind == "self":
                ok = b in OWN and 0 <= i < OWN[b]
            elif lay.kind == "ref":
                ok = conj(b in (4101, 4102), v[8] == i // 32)
            else:
                ok = False
            res[f"cell {b}[{i}] belongs to the storage"] = ok if not isinstance(ok, bool) else conj(ok)
        return res

    def pre(v):
        cs = []
        if dyn:
            cs += [v[7] >= 0, v[7] < dyn]
        if lay.kind == "ref":
            cs += [v[8] >= 0, v[8] < 3]
        return conj(*cs)
    c = Contract(f"{lay.kind} {lay.seed}: {label if not dyn else label[0]}: {'; '.join(stmts)}"[:150], f, {7: "int", 8: "int", None: "real"}, post, pre, mode=lay.mode, callback="preprocess" if lay.mode != "X" else "",
                 budget=40, prove_ms=5000, ranges={2000: 4096, 2001: 4096, 4000: 64, 4001: 32, 4002: 32, 4101: 96, 4102: 96, 4103: 96}, fuel=600)
    if lay.kind in ("self", "ref"):
        c.archetype = ns["A"]
        c.archetypes = {ns["A"]: 0}
    return c, src


def compiled(c):
    from vp import front
    return front.compile_fn(c.fn, c.mode, c.callback, c.checks, c.archetypes, getattr(c, "archetype", None))


def concrete(lay, c, n_extra, expect, r, dyn):
    """the same obligation on random numbers, at every level; None or what is wrong"""
    from vp import front
    from vp.checks.pipe import Hang, compile_at, limit
    from sonolus.backend.interpret import Interpreter
    from sonolus.backend.mode import Mode
    cfg, rom = compiled(c)
    n = len(lay.all)
    for lev in ("minimal", "standard"):
        node, why = compile_at(cfg, lev, Mode[c.mode], c.callback)
        if node is None:
            return f"{lev}: {why}"
        for _ in range(2):
            it = Interpreter()
            it.blocks[3000] = list(rom)
            for b in (2000, 2001, 4000, 4001, 4002, 4101, 4102):
                it.blocks[b] = [float(r.randrange(-99999, 99999)) for _ in range(128)]
            x = {i: float(r.randrange(100000, 199999)) for i in range(160)}
            x[7], x[8] = float(r.randrange(dyn or 1)), float(r.randrange(3))
            it.blocks[front.IN] = [x[i] for i in range(160)]
            try:
                with limit(20):
                    it.run(node)
            except (Exception, Hang) as e:  # noqa: BLE001
                return f"{lev}: {e!r}"
            o = list(it.blocks.get(front.OUT, []))
            o += [0.0] * (2 * n + n_extra - len(o))
            after, ext = expect(x, o[:n])
            if o[n:2 * n] != [float(a) for a in after] or o[2 * n:2 * n + n_extra] != [float(a) for a in ext]:
                bad = [(lay.all[i], o[n + i], after[i]) for i in range(n) if o[n + i] != after[i]][:3]
                return f"{lev}: (place, read, expected) {bad}, results {o[2 * n:2 * n + n_extra]} expected {ext}"
    return None


def values(seed, i, parts, secs):
    """generated layouts, every operation at every place"""
    from vp.layout import Layout
    t0 = time.time()
    res, viol, ev, n, k, samples = [], [], 0, 0, i, []
    kinds = ["memory", "self", "data", "ref", "local"]
    while time.time() - t0 < secs and not viol:
        lay = Layout(f"{seed}/{k}", kinds[k % 5])
        k += parts
        if not lay.all or len(lay.all) > 90:
            continue
        progs = list(lay.programs())
        lay.r.shuffle(progs)
        for label, stmts, extra, expect in progs[:14]:
            if time.time() - t0 > secs:
                break
            c, src = make(lay, label, stmts, extra, expect)
            c.compile = lambda c=c: compiled(c)
            what = None
            dyn = label[1] if isinstance(label, tuple) else None
            try:
                p = pack(c.prove())
                bad = [o for o in p["obls"] if o["status"] == "refuted"]
            except Exception as e:  # noqa: BLE001
                from vp.checks.c22 import causes
                viol.append({"key": label, "what": f"{c.name} is rejected: {causes(e)[-300:]}", "input": {"program": src}})
                break
            n += 1
            if bad or n % 4 == 0:
                ev += 4
                what = concrete(lay, c, len(extra), expect, lay.r, dyn)
                if what:
                    viol.append({"key": str(label), "what": f"{c.name}: {what}", "input": {"program": src}})
                    p["obls"] = [o for o in p["obls"] if o["status"] != "refuted"]
            res.append(p)
            if viol:
                break
            if len(samples) < 3:
                samples.append("; ".join(stmts))
    out = merge(*res)
    out["violations"] = viol
    out["bounded"] = {"name": "the same programs at every level", "evaluations": ev, "distinct": n, "samples": samples, "bound": f"{secs} s of layouts"}
    return out


# ---------------------------------------------------------------- flattening, imports, exports

def flat(seed, i, n):
    """_to_list_, _from_list_, _flat_keys_ and the constructors"""
    from vp import front
    from vp.layout import Layout, ctor, leaves, name, size
    viol, ev = [], 0
    for k in range(n):
        lay = Layout(f"{seed}/flat/{i}/{k}", "local")
        ns = namespace()
        front.src_fn(lay.ty.src and "\n".join(lay.ty.src) + "\n\ndef f():\n    pass\n", ns)
        for root, t, _ in lay.roots:
            sz = size(t)
            vals = [float(100 + 7 * j) for j in range(sz)]
            T = eval(name(t), ns)
            from sonolus.script.internal.generic import validate_concrete_type
            T = validate_concrete_type(T)
            front._plain[:] = [dict(enumerate(vals)), {}, 0]
            v = eval(ctor(t, 0), ns)
            want = dict(zip(leaves(t), vals))
            ev += 1

            def bad(msg):
                viol.append({"key": msg.split(":")[0], "what": f"{name(t)}: {msg}", "input": {"types": lay.ty.src, "type": name(t)}})

            def read(v):
                return {p: float(eval("v" + p, {"v": v})) for p in leaves(t)}
            if T._size_() != sz:
                bad(f"size: {T._size_()}, expected {sz}")
            if read(v) != want:
                bad(f"construction: reads {read(v)}, expected {want}")
            lst = [float(x) for x in v._to_list_()]
            if sorted(lst) != sorted(vals):
                bad(f"_to_list_: {lst}")
            it = iter([*lst, -1.0])
            w = T._from_list_(it)
            if read(w) != want or next(it) != -1.0:
                bad(f"_from_list_(_to_list_()): {read(w)}, expected {want}")
            keys = T._flat_keys_("k")
            if len(set(keys)) != len(keys) or len(keys) != sz:
                bad(f"_flat_keys_: {keys}")
            if dict(zip(keys, lst)) != {a: float(b) for a, b in v._to_flat_dict_("k").items()}:
                bad(f"_to_flat_dict_: {v._to_flat_dict_('k')}, expected {dict(zip(keys, lst))}")
            # a copy is detached, in both directions
            ls = leaves(t)
            p = lay.r.choice(ls)
            for how in ("+v", "copy(v)"):
                u = eval(how, {"v": v, "copy": ns["copy"]})
                exec(f"u{p} = 5", {"u": u})
                if read(v) != want:
                    bad(f"copy: writing to {how} changes the original")
                exec(f"v{p} = 6", {"v": v})
                if read(u) != {**want, p: 5.0}:
                    bad(f"copy: writing to the original changes {how}")
                exec(f"v{p} = x", {"v": v, "x": want[p]})
            u = T._zero_()
            if any(read(u).values()):
                bad("zeros: not zero")
            exec("u @= v", {"u": u, "v": v})
            exec(f"v{p} = 6", {"v": v})
            if read(u) != want:
                bad("@=: not a copy")
        if viol:
            break
    return {"violations": viol[:3], "bounded": {"name": "flattening", "evaluations": ev, "distinct": ev, "samples": [], "bound": f"{n} generated families of types"}}


def tables(seed, i, n, secs):
    """imports, exports and level data of whole engines"""
    from vp import front, sx
    from vp.engine import Built
    from vp.layout import Layout, ctor, leaves, name, size
    t0 = time.time()
    viol, ev, samples = [], 0, []

    def cells(fn, A, mode):
        """the memory cell each output is read from"""
        cfg, rom = front.compile_fn(fn, mode, "preprocess", "NONE", {A: 0}, A)
        from vp.sym import Ctx
        seen = {}

        def go():
            toks = {}

            def cell(b, k):
                return toks.setdefault((b, k), 1000000.0 * len(toks) + 3)
            r = sx.Run(cfg, cell, rom, fuel=2000)
            r.run()
            back = {x: key for key, x in toks.items()}
            seen.update({k: back.get(x) for (b, k), x in r.mem.items() if b == front.OUT})
        c = Ctx("cells")
        c.run(go)
        return seen
    for k in range(n):
        if time.time() - t0 > secs:
            break
        lay = Layout(f"{seed}/tab/{i}/{k}", "self")
        r = lay.r
        imp_ = [(f, t) for f, s, t in lay.fields if s == "imported" and size(t)]
        dat = [(f, t) for f, s, t in lay.fields if s == "entity_data" and size(t)]
        exp = [(f"e{j}", t) for j, t in enumerate(lay.ty.some(r.choice([6, 20, 32]))) if size(t)]
        dn = {f: r.choice([f, f"#{f.upper()}", f + ".x"]) for f, _ in imp_ + exp}
        df = {f: float(r.randrange(1, 99)) for f, t in imp_ if t[0] == "num" and r.random() < 0.5}
        arg = lambda f: ", ".join(([f"name={dn[f]!r}"] if dn[f] != f else []) + ([f"default={df[f]}"] if f in df else []))       # noqa: E731
        order = imp_ + dat + exp
        r.shuffle(order)
        decls, wdecl = [], []
        for f, t in order:
            if (f, t) in imp_:
                decls.append(f"    {f}: {name(t)} = imported({arg(f)})\n")
            elif (f, t) in dat:
                decls.append(f"    {f}: {name(t)} = entity_data()\n")
            else:
                decls.append(f"    {f}: {name(t)} = exported({arg(f)})\n")
                wdecl.append(f"    {f}: {name(t)} = imported({arg(f)})\n")
        r.shuffle(wdecl)
        cut = r.randrange(len(decls) + 1)
        im = [f"self.{f}{p}" for f, t in imp_ for p in leaves(t)]
        ex = [f"self.{f}{p}" for f, t in exp for p in leaves(t)]
        src = ("\n\n".join(lay.ty.src) + "\n\nclass B(PlayArchetype):\n" + "".join(decls[:cut]) + "    pass\n\n\nclass A(B):\n" + "".join(decls[cut:])
               + "    def preprocess(self):\n" + "".join(f"        out({j}, {x})\n" for j, x in enumerate(im)) + "        pass\n"
               + "    def terminate(self):\n" + "".join(f"        self.{f} = {ctor(t, 10 + 40 * j)}\n" for j, (f, t) in enumerate(exp)) + "        pass\n"
               + "\n\nclass W(WatchArchetype):\n    name = 'A'\n" + "".join(wdecl)
               + "    def preprocess(self):\n" + "".join(f"        out({j}, {x})\n" for j, x in enumerate(ex)) + "        pass\n"
               + "    def spawn_time(self):\n        return 0\n    def despawn_time(self):\n        return 0\n\n\ndef f():\n    pass\n")
        ns = namespace()

        def bad(key, msg):
            viol.append({"key": key, "what": msg, "input": {"program": src}})
        try:
            front.src_fn(src, ns)
            b = Built(play=[ns["A"]], watch=[ns["W"]], level="minimal")
        except Exception as e:  # noqa: BLE001
            from vp.checks.c22 import causes
            bad("rejected", f"the layout is rejected: {causes(e)[-300:]}")
            break
        ev += 1
        pa = next(a for a in b.data["play"]["archetypes"] if a["name"] == "A")
        wa = next(a for a in b.data["watch"]["archetypes"] if a["name"] == "A")
        for what, a in (("play", pa), ("watch", wa)):
            if len({x["name"] for x in a["imports"]}) != len(a["imports"]) or len({x["index"] for x in a["imports"]}) != len(a["imports"]):
                bad("imports", f"{what} imports are not one to one: {a['imports']}")
        # level data -> imports -> the cell the field is read from
        front._plain[:] = [{j: float(1000 + j) for j in range(400)}, {}, 0]
        front.setup()
        kw = {f: eval(ctor(t, 40 * j), ns) for j, (f, t) in enumerate(imp_)}
        given = {e["name"]: e["value"] for e in ns["A"](**kw)._level_data_entries()}
        at = {x["index"]: given.get(x["name"], x.get("def")) for x in pa["imports"]}
        seen = cells(ns["A"].preprocess, ns["A"], "PLAY")
        j = 0
        for q, (f, t) in enumerate(imp_):
            for m, p in enumerate(leaves(t)):
                bl, c = seen[j]
                if bl != 4001 or at.get(c) != 1000.0 + 40 * q + m:
                    bad("level data", f"self.{f}{p} is read from {bl}[{c}], which level data sets to {at.get(c)}, expected {1000.0 + 40 * q + m}")
                j += 1
            if f in df:
                d = next(x for x in pa["imports"] if x["name"] == dn[f])
                if d.get("def") != df[f]:
                    bad("default", f"{f}: default {d.get('def')}, declared {df[f]}")
        # exported -> imported under the same name in watch mode
        from sonolus.backend.interpret import Interpreter
        it = Interpreter()
        sent = {}
        from vp.sym import Ctx

        def go():
            cfg, rom = front.compile_fn(ns["A"].terminate, "PLAY", "terminate", "NONE", {ns["A"]: 0}, ns["A"])
            run = sx.Run(cfg, lambda bb, kk: float(2000 + kk), rom, fuel=2000, calls={"ExportValue": lambda run, ix, v: sent.__setitem__(int(ix), v) or 0})
            run.run()
        Ctx("exports").run(go)
        names = pa["exports"]
        if sorted(sent) != list(range(len(names))) or len(set(names)) != len(names):
            bad("exports", f"exported indices {sorted(sent)} of the names {names}")
        at = {x["index"]: sent.get(names.index(x["name"]) if x["name"] in names else None) for x in wa["imports"]}
        seen = cells(ns["W"].preprocess, ns["W"], "WATCH")
        j = 0
        for q, (f, t) in enumerate(exp):
            for m, p in enumerate(leaves(t)):
                bl, c = seen[j]
                w = 2000.0 + 10 + 40 * q + m
                if bl != 4001 or not isinstance(at.get(c), (int, float)) or at[c] != w:
                    bad("exports", f"self.{f}{p} is read from {bl}[{c}], which the exports set to {at.get(c)}, expected {w}")
                j += 1
        if len(samples) < 2:
            samples.append({"imports": pa["imports"][:4], "exports": names[:4]})
        if viol:
            break
    return {"violations": viol[:3], "bounded": {"name": "imports, exports, level data", "evaluations": ev, "distinct": ev, "samples": samples, "bound": f"{n} generated engines"}}


DUP = {
    "imported": "a: int = imported(name='x')\n    b: int = imported(name='x')", "exported": "a: int = exported(name='x')\n    b: int = exported(name='x')\n    c: int = exported()",
    "imported record": "a: V = imported(name='p')\n    b: int = imported(name='p.x')", "exported record": "a: V = exported(name='p')\n    b: int = exported(name='p.y')\n    c: int = exported()",
    "imported and entity data": "a: int = imported(name='b')\n    b: int = entity_data()",
}


def rejected(_):
    """declarations in which two numbers would share a name or exceed a limit by one"""
    from vp import front
    viol, ev = [], 0

    def attempt(key, src, want):
        nonlocal ev
        ev += 1
        ns = namespace()
        try:
            front.src_fn("class V(Record):\n    x: int\n    y: int\n\n\n" + src + "\n\ndef f():\n    pass\n", ns)
            from vp.engine import Built
            Built(play=[ns["A"]], level="minimal")
            ok = True
        except Exception as e:  # noqa: BLE001
            from vp.checks.c22 import causes
            ok = causes(e)
        if (ok is True) != want:
            viol.append({"key": key, "what": f"{key}: the declaration is {'accepted' if ok is True else 'rejected: ' + ok[-200:]}", "input": {"program": src}})
    for k, s in DUP.items():
        attempt(f"two {k} fields of one name", f"class A(PlayArchetype):\n    {s}\n", False)
    for st, lim in LIMIT.items():
        for n, want in ((lim, True), (lim + 1, False)):
            attempt(f"{st} of {n}", f"class A(PlayArchetype):\n    a: Array[int, {n - 1}] = {st}()\n    b: int = {st}()\n", want)
            attempt(f"{st} of {n} with a base", f"class B(PlayArchetype):\n    a: Array[int, {n - 2}] = {st}()\n\n\nclass A(B):\n    b: V = {st}()\n", want)
    for st in ("level_memory", "level_data"):
        for n, want in ((4096, True), (4097, False)):
            attempt(f"{st} of {n}", f"@{st}\nclass G:\n    a: Array[int, {n - 3}]\n    b: V\n\n\ng = {st}(Array[int, 1])\n\n\nclass A(PlayArchetype):\n    def preprocess(self):\n        G.b.x = 1\n        g[0] = 2\n", want)
    return {"violations": viol[:5], "bounded": {"name": "limits and names", "evaluations": ev, "distinct": ev, "samples": [], "bound": "the listed declarations"}}


def replay(o):
    """an allocation obligation: look for sizes and declarations that show it in a build"""
    for f, a in ((tables, (1, 77, 60, 60)), (flat, (1, 77, 60))):
        try:
            v = f(*a)["violations"]
        except Exception:  # noqa: BLE001
            v = []
        if v:
            return {"violations": v[:1]}
    v = rejected(0)["violations"]
    if v:
        return {"violations": v[:1]}
    for i in range(4):
        v = values(1, 7000 + i, 4, 25)["violations"]
        if v:
            return {"violations": v[:1]}
    return None


def tasks(tier, seed):
    q = tier == "quick"
    ts = []
    for n in (1, 2, 3, 4):
        ts.append(Task("sym", "sym_globals", n, timeout=100))
    for order, kinds in (((0, 1, 0), (0, 0)), ((1, 0, 1, 2), (0, 0, 0)), ((0, 1, 2, 3, 0), (0, 1, 0, 1)), ((2, 0, 1, 2), (0, 2, 0)), ((1, 2, 0, 3), (1, 1, 1, 0))):
        ts.append(Task("sym", "sym_bases", order, kinds, timeout=150))
    for mode in ("PLAY", "WATCH", "PREVIEW"):
        ok = ["imported", "entity_data", "shared_memory"] + (["entity_memory"] if mode != "PREVIEW" else []) + (["exported"] if mode == "PLAY" else [])
        for s in ok:
            ts.append(Task("sym", "sym_archetype", (s, s), (s,), mode, timeout=150))
            if not q or s in ("imported", "exported"):
                ts.append(Task("sym", "sym_archetype", (s, s, s), (), mode, timeout=150))
        ts.append(Task("sym", "sym_archetype", tuple(ok), ("imported", "shared_memory"), mode, timeout=150))
    for n in (1, 2, 3, 4):
        ts.append(Task("sym", "sym_record", n, timeout=100))
        ts.append(Task("sym", "sym_array", n, timeout=100))
    for b in ("TU", "UT", "TUT", "UTTU"):
        ts.append(Task("sym", "sym_generic", b, timeout=100))
    for i in range(8):
        ts.append(Task("sym", "values", seed, i, 8, 28 if q else 500, timeout=100 if q else 700))
        ts.append(Task("sym", "flat", seed, i, 12 if q else 200, timeout=300))
        ts.append(Task("sym", "tables", seed, i, 14 if q else 300, 25 if q else 300, timeout=500))
    ts.append(Task("sym", "rejected", 0, timeout=200))
    return ts

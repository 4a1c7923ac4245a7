"""C13: callbacks only touch memory their mode allows.

Specification: PERM below, transcribed from the Sonolus engine documentation (which callback may read and write which block).
Contracts (domain: every mode, every block of the mode, every callback; finite, so each obligation is decided by evaluation)
  Context.check_readable / check_writable   ensures raises iff the callback may not read / write the place's block
  Num._get_, _get_readonly_, _set_          ensures the access is accepted iff allowed; a read of a block the callback may write is
                                            snapshot (copied), so it may be aliased only where nothing can change it
  ir._writable_for_block, ir._intern_place  ensures PLACE_WRITABLE set on every place of a block the callback may write, in the enum and the
                                            raw form, and on every place whose block is only known at run time; PLACE_RUNTIME_CONST only if not writable
  driver.compile_mode, build_*_mode         ensures each callback is compiled under its own name and mode (accepts and rejects per PERM)
  optimized code                            ensures reads in a loop see the writes of the same loop"""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["Context.check_readable", "Context.check_writable", "Context.is_writable", "Context._is_block_accessible", "Num._get_", "Num._get_readonly_", "Num._set_",
                  "ir._writable_for_block", "ir._intern_place", "driver.compile_mode", "build.compile.callback_to_cfg", "backend.blocks", "script.internal.callbacks",
                  "_ArchetypeField.__get__", "_ArchetypeField.__set__", "_GlobalField.__get__", "_GlobalField.__set__", "_deref"],
    "trusted": ["PERM: the permissions as transcribed here", "pyx2py for the sym part"],
    "assumptions": ["accesses through a block number only known at run time are outside the static checks", "the check is off without a callback name and under enable_debug"],
    "rule": "every mode x callback x block x access form (number, record field, array element with constant and computed index, whole record and array, container methods), declared storage of every kind, whole builds; non-trivial always",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "contracts over a finite domain discharged by evaluating the real functions on all of it; marshalled place flags on the mechanically translated optimizer",
    "level_note": "complete over modes, callbacks and blocks; access forms sampled by a fixed list",
}

P8 = "preprocess spawnOrder shouldSpawn initialize updateSequential touch updateParallel terminate"
WA = "preprocess spawnTime despawnTime initialize updateSequential updateParallel terminate"
W8 = WA + " updateSpawn"
PV = "preprocess render"
TU = "preprocess navigate update"
PRE, NONE = "preprocess", ""
PS, WS = "preprocess updateSequential touch", "preprocess updateSequential"
# mode: {block: (id, readable in, writable in)}
PERM = {
    "PLAY": {
        "RuntimeEnvironment": (1000, P8, PRE), "RuntimeUpdate": (1001, P8, NONE), "RuntimeTouchArray": (1002, P8, NONE), "RuntimeSkinTransform": (1003, P8, PS),
        "RuntimeParticleTransform": (1004, P8, PS), "RuntimeBackground": (1005, P8, PS), "RuntimeUI": (1006, P8, PRE), "RuntimeUIConfiguration": (1007, P8, PRE),
        "LevelMemory": (2000, P8, PS), "LevelData": (2001, P8, PRE), "LevelOption": (2002, P8, NONE), "LevelBucket": (2003, P8, PRE), "LevelScore": (2004, P8, PRE),
        "LevelLife": (2005, P8, PRE), "EngineRom": (3000, P8, NONE), "EntityMemory": (4000, P8, P8), "EntityData": (4001, P8, PRE), "EntitySharedMemory": (4002, P8, PS),
        "EntityInfo": (4003, P8, NONE), "EntityDespawn": (4004, P8, P8), "EntityInput": (4005, P8, P8), "EntityScore": (4006, P8, PRE), "EntityLife": (4007, P8, PRE),
        "EntityDataArray": (4101, P8, PRE), "EntitySharedMemoryArray": (4102, P8, PS), "EntityInfoArray": (4103, P8, NONE), "EntityScoreArray": (4106, P8, PRE),
        "EntityLifeArray": (4107, P8, PRE), "ArchetypeLife": (5000, P8, PRE), "ArchetypeScore": (5001, P8, PRE), "TemporaryMemory": (10000, P8, P8)},
    "WATCH": {
        "RuntimeEnvironment": (1000, W8, PRE), "RuntimeUpdate": (1001, W8, NONE), "RuntimeSkinTransform": (1002, W8, WS), "RuntimeParticleTransform": (1003, W8, WS),
        "RuntimeBackground": (1004, W8, WS), "RuntimeUI": (1005, W8, PRE), "RuntimeUIConfiguration": (1006, W8, PRE), "LevelMemory": (2000, W8, WS), "LevelData": (2001, W8, PRE),
        "LevelOption": (2002, W8, NONE), "LevelBucket": (2003, W8, PRE), "LevelScore": (2004, W8, PRE), "LevelLife": (2005, W8, PRE), "EngineRom": (3000, W8, NONE),
        "EntityMemory": (4000, WA, WA), "EntityData": (4001, WA, PRE), "EntitySharedMemory": (4002, WA, WS), "EntityInfo": (4003, WA, NONE), "EntityInput": (4004, WA, WA),
        "EntityScore": (4005, W8, PRE), "EntityLife": (4006, W8, PRE), "EntityDataArray": (4101, W8, PRE), "EntitySharedMemoryArray": (4102, W8, WS),
        "EntityInfoArray": (4103, W8, NONE), "EntityScoreArray": (4105, W8, PRE), "EntityLifeArray": (4106, W8, PRE), "ArchetypeLife": (5000, W8, PRE),
        "ArchetypeScore": (5001, W8, PRE), "TemporaryMemory": (10000, W8, W8)},
    "PREVIEW": {
        "RuntimeEnvironment": (1000, PV, PRE), "RuntimeCanvas": (1001, PV, PRE), "RuntimeSkinTransform": (1002, PV, PRE), "RuntimeUI": (1003, PV, PRE),
        "RuntimeUIConfiguration": (1004, PV, PRE), "PreviewData": (2000, PV, PRE), "PreviewOption": (2001, PV, NONE), "EngineRom": (3000, PV, NONE), "EntityData": (4000, PV, PRE),
        "EntitySharedMemory": (4001, PV, PRE), "EntityInfo": (4002, PV, NONE), "EntityDataArray": (4100, PV, PRE), "EntitySharedMemoryArray": (4101, PV, PRE),
        "EntityInfoArray": (4102, PV, NONE), "TemporaryMemory": (10000, PV, PV)},
    "TUTORIAL": {
        "RuntimeEnvironment": (1000, TU, PRE), "RuntimeUpdate": (1001, TU, NONE), "RuntimeSkinTransform": (1002, TU, TU), "RuntimeParticleTransform": (1003, TU, TU),
        "RuntimeBackground": (1004, TU, TU), "RuntimeUI": (1005, TU, PRE), "RuntimeUIConfiguration": (1006, TU, PRE), "TutorialMemory": (2000, TU, TU), "TutorialData": (2001, TU, PRE),
        "TutorialInstruction": (2002, TU, TU), "EngineRom": (3000, TU, NONE), "TemporaryMemory": (10000, TU, TU)},
}
CB = {"PLAY": P8.split(), "WATCH": W8.split(), "PREVIEW": PV.split(), "TUTORIAL": TU.split()}


def may(mode, block, cb, write):
    return cb in PERM[mode][block][2 if write else 1].split()


def domain():
    for m, bs in PERM.items():
        for b in bs:
            for cb in CB[m]:
                yield m, b, cb


def _o(name, ok, detail=""):
    return {"name": name, "status": "proved" if ok else "refuted", "backend": "evaluation", "secs": 0, "model": None, "detail": detail}


# ------------------------------------------------------------------ marshalled flags (translated optimizer)
def flags():
    from sonolus.backend import ir
    from sonolus.backend._opt import ir as oir
    from sonolus.backend.mode import Mode
    from sonolus.backend.optimize.flow import BasicBlock
    from sonolus.backend.place import BlockPlace, TempBlock
    obls = []
    seen = {m: {b.name for b in Mode[m].blocks} for m in PERM}
    for m in PERM:
        obls.append(_o(f"blocks:{m}", True))
    t = BlockPlace(TempBlock("i", 1), 0)
    for m, b, cb in domain():
        if b not in seen[m]:
            continue
        mb = Mode[m].blocks[b]
        bad = []
        for form, blk in (("enum", mb), ("raw", int(mb))):
            for idx in (0, 3, t):
                e = BasicBlock(statements=[ir.IRSet(t, ir.IRConst(1)), ir.IRSet(BlockPlace(TempBlock("x", 1), 0), ir.IRGet(BlockPlace(blk, idx, 2)))], test=ir.IRConst(0))
                f = oir.marshal_in(e, Mode[m], cb)
                for k in range(f.n_places):
                    p = f.places[k]
                    if p.kind != oir.PLACE_REAL_BLOCK:
                        continue
                    w = bool(p.flags & oir.PLACE_WRITABLE)
                    if may(m, b, cb, True) and not w:
                        bad.append(f"{form} place not marked writable")
                    if may(m, b, cb, True) and p.flags & oir.PLACE_RUNTIME_CONST:
                        bad.append(f"{form} place marked constant")
        obls.append(_o(f"flags:{m} {cb} {b}", not bad, "; ".join(sorted(set(bad)))))
    # a block known only at run time, through each kind of expression
    for m in PERM:
        for nm, blk in (("place", t), ("pure", ir.IRPureInstr(_op("Add"), [ir.IRGet(t), ir.IRConst(1)])), ("get", ir.IRGet(t))):
            e = BasicBlock(statements=[ir.IRSet(t, ir.IRConst(1)), ir.IRSet(BlockPlace(TempBlock("x", 1), 0), ir.IRGet(BlockPlace(blk, 0, 0)))], test=ir.IRConst(0))
            f = oir.marshal_in(e, Mode[m], CB[m][0])
            ps = [f.places[k] for k in range(f.n_places)]
            d = [p for p in ps if p.kind == oir.PLACE_DYNAMIC_BLOCK]
            obls.append(_o(f"flags:{m} dynamic {nm}", bool(d) and all(p.flags & oir.PLACE_WRITABLE and not p.flags & oir.PLACE_RUNTIME_CONST for p in d)))
    return {"obls": obls, "covers": ["flags"]}


def _op(n):
    from sonolus.backend.ops import Op
    return Op[n]


# ------------------------------------------------------------------ the front end's checks
def _ctx(m, cb):
    from sonolus.backend.mode import Mode
    from sonolus.script.internal.context import CallbackContextState, Context, ModeContextState, ProjectContextState
    return Context(ProjectContextState(), ModeContextState(Mode[m]), CallbackContextState(cb))


def checks():
    """check_readable, check_writable and the accessors of Num on every mode, callback and block"""
    from sonolus.backend.mode import Mode
    from sonolus.backend.place import BlockPlace, TempBlock
    from sonolus.backend.ir import IRSet
    from sonolus.script.internal.context import using_ctx
    from sonolus.script.num import Num
    obls, viol = [], []
    for m, b, cb in domain():
        try:
            mb = Mode[m].blocks[b]
        except KeyError:
            viol.append({"key": f"{m} {b}", "what": f"{m} has no block {b}", "input": {"mode": m, "block": b}})
            continue
        if int(mb) != PERM[m][b][0]:
            viol.append({"key": f"id {m} {b}", "what": f"{m} {b} is block {int(mb)}, not {PERM[m][b][0]}", "input": {"mode": m, "block": b}})
        for pl in (BlockPlace(mb, 0), BlockPlace(mb, 7, 3), BlockPlace(mb, BlockPlace(TempBlock("i", 1), 0), 1)):
            c = _ctx(m, cb)
            with using_ctx(c):
                for w, f, nm in ((False, c.check_readable, "check_readable"), (True, c.check_writable, "check_writable"),
                                 (False, lambda p: Num._from_place_(p)._get_(), "_get_"), (False, lambda p: Num._from_place_(p)._get_readonly_(), "_get_readonly_"),
                                 (True, lambda p: Num._from_place_(p)._set_(Num(1)), "_set_")):
                    try:
                        f(pl)
                        got = True
                    except Exception:  # noqa: BLE001
                        got = False
                    want = may(m, b, cb, w)
                    nmo = f"{nm}:{m} {cb} {b}"
                    obls.append(_o(nmo, got == want))
                    if got != want:
                        viol.append({"key": nmo, "what": f"{nm} of {b} in {m} {cb} is {'accepted' if got else 'rejected'}", "input": {"mode": m, "block": b, "callback": cb}})
        # a read is copied unless nothing can change the place
        if may(m, b, cb, False):
            c = _ctx(m, cb)
            with using_ctx(c):
                pl = BlockPlace(mb, 0)
                r = Num._from_place_(pl)._get_readonly_()
                alias = isinstance(r.data, BlockPlace) and r.data.block == mb
                ok = not (alias and may(m, b, cb, True))
                g = Num._from_place_(pl)._get_()
                ok2 = not (isinstance(g.data, BlockPlace) and g.data.block == mb) and any(isinstance(s, IRSet) for s in c.statements)
            obls.append(_o(f"snapshot:{m} {cb} {b}", ok and ok2))
            if not (ok and ok2):
                viol.append({"key": f"snapshot {m} {cb} {b}", "what": f"a value read from {b} in {m} {cb} changes when the block is written", "input": {"mode": m, "block": b, "callback": cb}})
    return {"obls": obls, "covers": ["checks"], "violations": viol}


# ------------------------------------------------------------------ compiled programs
def forms():
    """{name: (writes, function of the block number and a meta dereference)}"""
    from typing import Literal  # noqa: F401
    from sonolus.script.array import Array
    from sonolus.script.containers import VarArray
    from sonolus.script.internal.impl import validate_value  # noqa: F401
    from sonolus.script.internal.meta_fn import meta_fn
    from sonolus.script.num import Num  # noqa: F401
    from sonolus.script.pointer import _deref
    from sonolus.script.record import Record
    from vp import front
    A = front.api()
    inp, out = A["inp"], A["out"]

    class Pair(Record):
        x: int
        y: int

    class Nest(Record):
        n: int
        p: Pair
        a: Array[int, 3]

    def make(b):
        @meta_fn
        def at(t, i):
            return _deref(b, i, t)

        def r_field():
            out(0, at(Nest, 0).n)

        def r_nested():
            out(0, at(Nest, 2).p.y)

        def r_elem():
            out(0, at(Nest, 0).a[1])

        def r_dyn():
            out(0, at(Array[int, 4], 1)[inp(0)])

        def r_copy():
            x = +at(Pair, 0)
            out(0, x.x)

        def r_iter():
            t = 0
            for v in at(Array[int, 3], 0):
                t += v
            out(0, t)

        def r_cond():
            out(0, 0)
            if at(Pair, 0).x:
                out(0, 1)

        def r_expr():
            out(0, at(Pair, inp(0)).x + at(Pair, 4).y * 2)

        def w_field():
            at(Nest, 0).n = 1

        def w_nested():
            at(Nest, 0).p.y = inp(0)

        def w_elem():
            at(Nest, 0).a[1] = 2

        def w_dyn():
            at(Array[int, 4], 1)[inp(0)] = 3

        def w_copy():
            x = at(Pair, 0)
            x @= Pair(1, 2)

        def w_set():
            at(Nest, 0).p = Pair(3, 4)

        def w_array():
            x = at(Array[int, 3], 0)
            x @= Array(1, 2, 3)

        def w_aug():
            at(Pair, 0).x += 1

        def w_fill():
            x = at(Array[int, 3], 0)
            for i in range(3):
                x[i] = i

        def w_append():
            at(VarArray[int, 4], 0).append(1)

        def w_clear():
            at(VarArray[int, 4], 0).clear()

        def w_sort():
            at(Array[int, 4], 0).sort()

        def w_swap():
            at(Array[int, 4], 0).swap(0, 1)

        def w_off():
            at(Pair, inp(0)).x = 1
        return {n: f for n, f in locals().items() if n[:2] in ("r_", "w_")}
    return make


def accepted(fn, m, cb):
    from vp import front
    try:
        front.compile_fn(fn, m, cb)
        return True, ""
    except Exception as e:  # noqa: BLE001
        while e.__cause__ is not None:
            e = e.__cause__
        return False, repr(e)


def programs(i, parts):
    make = forms()
    viol, n, samples = [], 0, []
    cells = [(m, b) for m in PERM for b in PERM[m]]
    for k, (m, b) in enumerate(cells):
        if k % parts != i:
            continue
        fs = make(PERM[m][b][0])
        for cb in CB[m]:
            for nm, f in fs.items():
                want = may(m, b, cb, False) and (nm[0] == "r" or may(m, b, cb, True))
                if nm in ("w_field", "w_nested", "w_elem", "w_dyn", "w_copy", "w_set", "w_array", "w_fill", "w_off"):
                    want = may(m, b, cb, True)
                if b == "EngineRom" and nm in ("w_append", "r_expr"):
                    continue  # read at compile time: out of bounds, or code after it unreachable
                got, why = accepted(f, m, cb)
                n += 1
                if got != want:
                    viol.append({"key": f"{m} {b} {cb} {nm}", "what": f"{nm} on {b} in {m} {cb}: {'accepted' if got else 'rejected ' + why}, should be {'accepted' if want else 'rejected'}",
                                 "input": {"mode": m, "block": b, "callback": cb, "form": nm}})
        samples.append(f"{m} {b}")
    return {"violations": viol, "bounded": {"name": "programs accepted or rejected", "evaluations": n, "distinct": n, "samples": samples[:3], "bound": "every mode, block and callback with 22 access forms"}}


def declared():
    """storage declared through archetypes, globals and runtime accessors"""
    from sonolus.script.archetype import EntityRef, PlayArchetype, PreviewArchetype, WatchArchetype, entity_data, entity_memory, imported, shared_memory
    from sonolus.script.array import Array
    from sonolus.script.containers import VarArray
    from sonolus.script.globals import level_data, level_memory
    from sonolus.script.record import Record
    from vp import front
    A = front.api()
    out = A["out"]
    viol, n = [], 0

    class Pt(Record):
        x: int
        y: int

    @level_memory
    class LM:
        a: int
        p: Pt

    @level_data
    class LD:
        a: int
        p: Pt
    gm = level_memory(Array[int, 4])
    gd = level_data(VarArray[int, 4])

    def g_r_lm():
        out(0, LM.a)
        out(0, LM.p.x)

    def g_w_lm():
        LM.a = 1

    def g_w_lmp():
        LM.p.y += 1

    def g_r_ld():
        out(0, LD.a)
        out(0, LD.p.y)

    def g_w_ld():
        LD.a = 1

    def g_w_ldp():
        LD.p = Pt(1, 2)

    def g_w_gm():
        gm[2] = 1

    def g_r_gm():
        out(0, gm[1])

    def g_w_gd():
        gd.append(1)

    def g_r_gd():
        out(0, len(gd))
    gl = {"PLAY": ("LevelMemory", "LevelData"), "WATCH": ("LevelMemory", "LevelData"), "PREVIEW": (None, "PreviewData"), "TUTORIAL": ("TutorialMemory", "TutorialData")}
    for m in PERM:
        for cb in CB[m]:
            for nm, f in list(locals().items()):
                if not nm.startswith(("g_r", "g_w")):
                    continue
                blk = gl[m][0 if nm[4:6] in ("lm", "gm") else 1]
                want = blk is not None and may(m, blk, cb, nm[2] == "w")
                got, why = accepted(f, m, cb)
                n += 1
                if got != want:
                    viol.append({"key": f"global {m} {cb} {nm}", "what": f"{nm} in {m} {cb}: {'accepted' if got else 'rejected ' + why}", "input": {"mode": m, "callback": cb, "program": nm}})

    def bodies(has_mem, has_input, despawn):
        """{name: (block, write, body)}"""
        d = {}

        def r_imp(self):
            out(0, self.imp)
            out(0, self.impp.x)

        def w_imp(self):
            self.imp = 1

        def w_impp(self):
            self.impp.x += 1

        def r_sh(self):
            out(0, self.sh)
            out(0, self.sha[1])

        def w_sh(self):
            self.sh = 1

        def w_sha(self):
            self.sha[2] = 1

        def w_dat(self):
            self.dat = Pt(1, 2)

        def r_oimp(self):
            out(0, self.other.get().imp)

        def w_oimp(self):
            self.other.get().imp = 2

        def w_osh(self):
            self.other.get().sha[0] = 3

        def r_osh(self):
            out(0, self.other.get().sh)

        def r_info(self):
            out(0, self.index)
        d = {"r_imp": ("EntityData", 0, r_imp), "w_imp": ("EntityData", 1, w_imp), "w_impp": ("EntityData", 1, w_impp), "r_sh": ("EntitySharedMemory", 0, r_sh), "w_sh": ("EntitySharedMemory", 1, w_sh),
             "w_sha": ("EntitySharedMemory", 1, w_sha), "w_dat": ("EntityData", 1, w_dat), "r_oimp": ("EntityDataArray", 0, r_oimp), "w_oimp": ("EntityDataArray", 1, w_oimp),
             "w_osh": ("EntitySharedMemoryArray", 1, w_osh), "r_osh": ("EntitySharedMemoryArray", 0, r_osh), "r_info": ("EntityInfo", 0, r_info)}
        if has_mem:
            def r_mem(self):
                out(0, self.mem)
                out(0, self.memp.y)

            def w_mem(self):
                self.mem = 1

            def w_memp(self):
                self.memp.y = 2
            d |= {"r_mem": ("EntityMemory", 0, r_mem), "w_mem": ("EntityMemory", 1, w_mem), "w_memp": ("EntityMemory", 1, w_memp)}

            def r_es(self):
                out(0, self.entity_score_multiplier)

            def w_es(self):
                self.entity_score_multiplier = 2

            def w_as(self):
                self.archetype_score_multiplier = 2

            def r_as(self):
                out(0, self.archetype_score_multiplier)

            def w_el(self):
                self.entity_life.perfect_increment = 1

            def r_al(self):
                out(0, self.life.miss_increment)

            def w_al(self):
                self.life.miss_increment = 1

            def w_oes(self):
                self.other.get().entity_score_multiplier = 1

            def w_oel(self):
                self.other.get().entity_life.good_increment = 1
            d |= {"r_es": ("EntityScore", 0, r_es), "w_es": ("EntityScore", 1, w_es), "w_as": ("ArchetypeScore", 1, w_as), "r_as": ("ArchetypeScore", 0, r_as), "w_el": ("EntityLife", 1, w_el),
                  "r_al": ("ArchetypeLife", 0, r_al), "w_al": ("ArchetypeLife", 1, w_al), "w_oes": ("EntityScoreArray", 1, w_oes), "w_oel": ("EntityLifeArray", 1, w_oel)}
        if has_input:
            def w_inp(self):
                self.result.bucket_value = 1

            def r_inp(self):
                out(0, self.result.bucket_value)
            d |= {"w_inp": ("EntityInput", 1, w_inp), "r_inp": ("EntityInput", 0, r_inp)}
        if despawn:
            def w_des(self):
                self.despawn = True

            def r_des(self):
                out(0, self.despawn)
            d |= {"w_des": ("EntityDespawn", 1, w_des), "r_des": ("EntityDespawn", 0, r_des)}
        return d

    class PB(PlayArchetype):
        is_scored = True
        imp: int = imported()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()

    class PA(PlayArchetype):
        is_scored = True
        imp: int = imported()
        impp: Pt = imported()
        dat: Pt = entity_data()
        mem: int = entity_memory()
        memp: Pt = entity_memory()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()
        other: EntityRef[PB] = imported()

    class WB(WatchArchetype):
        is_scored = True
        imp: int = imported()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()

    class WAr(WatchArchetype):
        is_scored = True
        imp: int = imported()
        impp: Pt = imported()
        dat: Pt = entity_data()
        mem: int = entity_memory()
        memp: Pt = entity_memory()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()
        other: EntityRef[WB] = imported()

    class VB(PreviewArchetype):
        imp: int = imported()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()

    class VA(PreviewArchetype):
        imp: int = imported()
        impp: Pt = imported()
        dat: Pt = entity_data()
        sh: int = shared_memory()
        sha: Array[int, 3] = shared_memory()
        other: EntityRef[VB] = imported()
    for m, ar, bd in (("PLAY", (PA, PB), bodies(True, True, True)), ("WATCH", (WAr, WB), bodies(True, True, False)), ("PREVIEW", (VA, VB), bodies(False, False, False))):
        for cb in CB[m]:
            if cb == "updateSpawn":
                continue
            for nm, (blk, w, f) in bd.items():
                want = may(m, blk, cb, bool(w))
                try:
                    front.compile_fn(f, m, cb, archetypes=[*ar], archetype=ar[0])
                    got, why = True, ""
                except Exception as e:  # noqa: BLE001
                    while e.__cause__ is not None:
                        e = e.__cause__
                    got, why = False, repr(e)
                n += 1
                if got != want:
                    viol.append({"key": f"archetype {m} {cb} {nm}", "what": f"{nm} ({blk}) in {m} {cb}: {'accepted' if got else 'rejected ' + why}", "input": {"mode": m, "callback": cb, "program": nm}})
    return {"violations": viol, "bounded": {"name": "declared storage", "evaluations": n, "distinct": n, "samples": ["entity_memory write in PLAY touch"], "bound": "every mode and callback with the declared storage kinds"}}


# ------------------------------------------------------------------ whole builds: names, modes, and what the optimizer may assume
PY = {"spawnOrder": "spawn_order", "shouldSpawn": "should_spawn", "updateSequential": "update_sequential", "updateParallel": "update_parallel",
      "spawnTime": "spawn_time", "despawnTime": "despawn_time", "updateSpawn": "update_spawn"}


def _engine(m, bodies, **kw):
    """a build whose callbacks of mode m are the given functions {callback: function taking nothing}"""
    from sonolus.script.archetype import PlayArchetype, PreviewArchetype, WatchArchetype
    from vp.engine import Built

    def d():
        return 0
    if m == "TUTORIAL":
        return Built(tutorial=tuple(bodies.get(c, d) for c in TU.split()), **kw), None
    base = {"PLAY": PlayArchetype, "WATCH": WatchArchetype, "PREVIEW": PreviewArchetype}[m]

    def meth(f):
        def callback(self):
            return f()
        return callback
    ns = {PY.get(c, c): meth(f) for c, f in bodies.items() if c != "updateSpawn"}
    A = type("Arch", (base,), {"__module__": __name__, **ns})
    key = {"PLAY": "play", "WATCH": "watch", "PREVIEW": "preview"}[m]
    return Built(**{key: [A]}, update_spawn=bodies.get("updateSpawn"), **kw), "Arch"


def builds(i, parts, level):
    from sonolus.script.internal.meta_fn import meta_fn
    from sonolus.script.pointer import _deref
    from sonolus.script.record import Record
    from vp import front
    out = front.api()["out"]

    class Cell(Record):
        v: int
    viol, n, samples = [], 0, []
    cells = [(m, b) for m in PERM for b in PERM[m]]
    for k, (m, b) in enumerate(cells):
        if k % parts != i:
            continue
        bid = PERM[m][b][0]

        @meta_fn
        def at(j, bid=bid):
            return _deref(bid, j, Cell)

        def write():
            at(0).v = 1

        def loop():
            t = 0
            j = 0
            while j < 3:
                t += at(1).v
                at(1).v = t + j
                t += at(1).v
                j += 1
            out(0, t)
            out(1, at(1).v)

        def read():
            t = 0
            j = 0
            while j < 3:
                t += at(1).v * (j + 1)
                j += 1
            out(0, t)
        # every callback on its own: rejected iff not writable
        for cb in CB[m]:
            try:
                _engine(m, {cb: write}, validate=True)
                got, why = True, ""
            except Exception as e:  # noqa: BLE001
                got, why = False, repr(e)
            n += 1
            if got != may(m, b, cb, True):
                viol.append({"key": f"build {m} {b} {cb}", "what": f"a build writing {b} in {m} {cb} is {'accepted' if got else 'rejected ' + why}", "input": {"mode": m, "block": b, "callback": cb}})
        bod = {cb: loop if may(m, b, cb, True) else read for cb in CB[m] if may(m, b, cb, False)}
        if b == "TemporaryMemory" or b == "EngineRom":
            continue
        try:
            e, arch = _engine(m, bod, level=level)
        except Exception as ex:  # noqa: BLE001
            viol.append({"key": f"build {m} {b}", "what": f"a build using {b} in {m} fails: {ex!r}", "input": {"mode": m, "block": b}})
            continue
        for cb, f in bod.items():
            v0 = 5.0
            a = None if m == "TUTORIAL" or cb == "updateSpawn" else arch
            ret, it = e.run(m.lower(), a, cb, {bid: [9.0, v0, 9.0]})
            if f is loop:
                t, x = 0, v0
                for j in range(3):
                    t += x
                    x = t + j
                    t += x
                want = [t, x]
            else:
                want = [v0 * 6]
            n += 1
            got = list(it.blocks.get(front.OUT, []))[:len(want)]
            if got != want:
                viol.append({"key": f"run {m} {b} {cb} {level}", "what": f"{cb} of {m} reading and writing {b}[1] = 5 ({level}): {got}, expected {want}", "input": {"mode": m, "block": b, "callback": cb}})
        samples.append(f"{m} {b} {level}")
    return {"violations": viol, "bounded": {"name": "whole builds", "evaluations": n, "distinct": n, "samples": samples[:3], "bound": "every mode, block and callback; one write, one read/write loop"}}


def tasks(tier, seed):
    q = tier == "quick"
    return ([Task("sym", "flags", timeout=200), Task("real", "checks", timeout=100), Task("real", "declared", timeout=200)] +
            [Task("real", "programs", i, 8, timeout=300) for i in range(8)] +
            [Task("real", "builds", i, 4, lv, timeout=300) for lv in (("standard",) if q else ("minimal", "fast", "standard")) for i in range(4)])


def replay(o):
    """a refuted obligation of the marshalled flags: the same program on the compiled optimizer"""
    nm = o["name"]
    if nm.startswith("flags:"):
        # the flag alone is not observable: the loops of builds() on that mode decide
        vs = []
        m = nm.split(":")[1].split()[0]
        for lv in ("standard", "fast"):
            for i in range(4):
                r = builds(i, 4, lv)
                vs += [v for v in r["violations"] if v["input"].get("mode") == m]
        return {"violations": vs} if vs else {}
    return {"violations": [v for v in checks()["violations"]]}

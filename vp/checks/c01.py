"""C01: optimization never changes what a program does.

Per program and level the emitted tree is validated against the input graph: the ordered effects of both
are equal (i) for every contents of memory, by symbolic execution of graph and tree (vp.tv) with one obligation
per path, and (ii) on concrete memories by the compiled code's output run with the independent executors."""
from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "translation_validation",
    "functions": ["optimize.optimize_and_finalize (every pass, minimal/fast/standard)", "ir.decode_cfg", "midend.run_midend", "midend.build_ssa", "lower", "emit"],
    "trusted": ["z3", "vp/exe.py + vp/rtspec.py: source semantics of graphs and runtime semantics of node trees", "vp/gen.py covers the input language"],
    "assumptions": ["programs that perform an undefined operation (a read of an unassigned temporary, an address that is not an integer in range, 0 * inf, an operation the reference runtime raises on) are outside the property",
                    "the sign of zero is not observable", "a graph left without any exit block is rejected by the optimizer (\"Infinite loop detected\"); accepted unless a run reaches an explicit exit"],
    "rule": "random graphs (all place kinds, pointers, arrays, aliasing, loops, switches, selects, effectful and pure runtime calls, every mode and callback), 4 memories each; non-trivial when the reference run has an effect",
    "hang_is_violation": False,
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "symbolic execution of graph and emitted tree with SMT-discharged equality of effects per path, plus differential runs of the compiled optimizer",
    "level_note": "each compiled program is validated for every memory contents on the paths explored; programs themselves are sampled",
}


def tasks(tier, seed):
    q = tier == "quick"
    base = seed * 1000003
    return [Task("real", "sweep", base + i, 40 if q else 330, timeout=700) for i in range(8)] + [
        Task("real", "tv", base + i, 30 if q else 200, timeout=600) for i in range(8)] + [
        Task("real", "front_programs", seed, i, 4, 20 if q else 150, timeout=400) for i in range(4)] + [
        Task("real", "project", i, 4, c, 30 if q else 200, 1.5 if q else 15, timeout=400) for c in (("TERMINATE",) if q else ("NONE", "TERMINATE")) for i in range(4)]


def sweep(lo, secs):
    return pipe.random_sweep("C01", lo, secs)


def tv(lo, secs):
    return pipe.symbolic("C01", lo, secs, levels=("standard", "fast"))


def replay(o):
    if o["name"].split(":")[0] in ("front", "project"):
        return _replay_front(o)
    return pipe.replay_tv(o)


# ---- graphs made by the front end: generated callbacks, and the callbacks of the example project
def _blocks(entry):
    """the memory blocks a graph names, and its temporaries' absence"""
    from sonolus.backend.place import BlockPlace
    bs, seen = set(), set()

    def visit(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, BlockPlace):
            if isinstance(x.block, int):
                bs.add(int(x.block))
            else:
                visit(x.block)
            visit(x.index)
            return
        for a in ("place", "value", "args"):
            y = getattr(x, a, None)
            if isinstance(y, (list, tuple)):
                for z in y:
                    visit(z)
            elif y is not None and not isinstance(y, (int, float)):
                visit(y)
    from vp.gen import walk
    for b in walk(entry):
        for s in b.statements:
            visit(s)
        visit(b.test)
    return bs


class _P:
    def __init__(self, entry, rom, mode, callback, name, seed):
        import random
        self.entry, self.mode, self.callback, self.name = entry, mode, callback, name
        self.mem0 = {(3000, i): float(x) for i, x in enumerate(rom)}
        self.blocks = sorted(_blocks(entry) - {3000})
        r = random.Random(f"mem/{seed}")
        self.mems = []
        for k in range(10):
            pool = [[0, 1], [0, 1, 2, 3], [0, 1, -1, 0.5, 2, 7], [r.uniform(-3, 3) for _ in range(9)] + [0, 1], [0, 1, 1, 1, 2]][k % 5]
            self.mems.append({**{(b, i): float(r.choice(pool)) for b in self.blocks for i in range(96)}, **self.mem0})


def _front_program(seed, k):
    import random
    from sonolus.backend.mode import Mode
    from vp import front, pygen
    r = random.Random(f"c01front/{seed}/{k}")
    src = pygen.Gen(r, size=r.choice([8, 12, 16, 20]), wild=False).program()
    fn = front.src_fn(src, dict(pygen.sonolus_namespace()))
    try:
        cfg, rom = front.compile_fn(fn)
    except Exception:  # noqa: BLE001
        return None
    p = _P(cfg, rom, None, None, f"{seed}/{k}", f"{seed}/{k}")
    for m in p.mems:
        m[front.IN, 6], m[front.IN, 7] = float(r.randrange(3)), float(r.randrange(3))
        for i in range(6):
            m[front.IN, i] = float(r.choice([0, 1, 2, 3, -1, -2, 0.5, 5]))
    p.src = src
    return p


def _project(checks):
    """the callbacks of the example project as traced by the front end"""
    import os
    import sys
    import sonolus
    from sonolus.build import compile as bc
    from sonolus.build.engine import package_engine
    from sonolus.script.internal.context import ProjectContextState, RuntimeChecks
    from sonolus.script.project import BuildConfig
    from vp.checks.pipe import level
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(sonolus.__file__))), "test_projects")
    if root not in sys.path:
        sys.path.insert(0, root)
    try:
        from pydori.project import project
    except ImportError:
        return []
    got = []
    orig = bc.callback_to_cfg

    def capture(project_state, mode_state, callback, name, archetype=None):
        cfg = orig(project_state, mode_state, callback, name, archetype)
        got.append((orig(project_state, mode_state, callback, name, archetype), mode_state.mode, name, getattr(archetype, "__name__", "")))
        return cfg
    bc.callback_to_cfg = capture
    try:
        cfg = BuildConfig(passes=level("minimal"), runtime_checks=RuntimeChecks[checks])
        ps = ProjectContextState.from_build_config(cfg)
        package_engine(project.engine.data, cfg, ps)
    finally:
        bc.callback_to_cfg = orig
    rom = list(ps.rom.values)
    return [_P(c, rom, m, n, f"{m.name} {a} {n}", k) for k, (c, m, n, a) in enumerate(got)]


def _check(p, st, obls, viol, samples, levels, budget, kind, key):
    from vp import exe, tv as _tv
    rs = pipe.refs(p.entry, p.mems, stats=st)
    st["programs"] += 1
    if rs:
        st["runs"] += len(rs) * len(pipe.LEVELS)
        st["nontrivial"] += any(w.log or w.result is not None for _, w in rs)
        bad = pipe.compare(p.entry, rs, pipe.LEVELS, p.mode, p.callback)
        if bad:
            lev, what = bad[0]
            viol.append({"key": f"{kind}:{lev}", "what": f"{kind} {p.name} at level {lev}: {what}"[:900],
                         "input": {"program": getattr(p, "src", p.name), "level": lev, "mode": str(p.mode), "callback": p.callback, "graph": pipe.text(p.entry)[:6000]}})
            return
        if not samples and rs[0][1].log:
            samples.append(f"{kind} {p.name}: {len(rs[0][1].log)} effects")
    for lev in levels:
        node, _ = pipe.compile_at(p.entry, lev, p.mode, p.callback)
        if node is None:
            continue
        c = _tv.equal(f"{kind}:{lev}:{key}", p.entry, node, p.mem0, sorted(set(p.blocks) | {exe.TEMP}), budget=budget, steps=150)
        st["tv"] += 1
        for o in c.obls:
            if o.status == "undecided":
                st["undecided"] += 1
            else:
                obls.append({"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 4), "detail": o.detail,
                             "model": {a: ("hex", v.hex()) if isinstance(v, float) else v for a, v in (o.model or {}).items()}})


def _result(st, obls, viol, samples, what):
    return {"obls": obls, "violations": viol, "bounded": {"name": what, "evaluations": st["runs"], "distinct": st["nontrivial"], "programs": st["programs"], "programs_tv": st["tv"],
                                                          "undecided": st["undecided"], "samples": samples, "bound": "10 memories each at every level; symbolic memory on paths up to 150 blocks"}}


def front_programs(seed, i, parts, secs):
    import collections
    import time
    t0, st, obls, viol, samples, k = time.time(), collections.Counter(), [], [], [], i
    while time.time() - t0 < secs and not viol:
        p = _front_program(seed, k)
        if p is not None:
            _check(p, st, obls, viol, samples, ("standard",) if k // parts % 3 == 0 else (), 2.0, "front", f"{seed}/{k}")
        k += parts
    return _result(st, obls, viol, samples, "generated callbacks through the front end")


def project(i, parts, checks, secs, budget):
    import collections
    import time
    t0, st, obls, viol, samples = time.time(), collections.Counter(), [], [], []
    for k, p in enumerate(_project(checks)):
        if k % parts == i and time.time() - t0 < secs and not viol:
            _check(p, st, obls, viol, samples, ("standard",), budget, "project", f"{checks}/{k}")
    return _result(st, obls, viol, samples, "callbacks of the example project")


def _replay_front(o):
    import random
    from vp.checks.common import unmodel
    kind, lev, key = o["name"].split(":")[:3]
    key = key.split("#")[0]
    a, b = key.rsplit("/", 1)
    p = _front_program(int(a), int(b)) if kind == "front" else _project(a)[int(b)]
    m = dict(p.mems[0])
    for x, v in unmodel(o.get("model") or {}).items():
        if x.startswith("m") and "_" in x:
            bl, i = x[1:].split("_")
            m[int(bl), int(i)] = float(v)
    r = random.Random(1)
    mems = [m] + [{q: (r.choice([v, 0.0, 1.0, 2.0, -1.0, 0.5]) if q[0] != 3000 else v) for q, v in m.items()} for _ in range(60)]
    bad = pipe.compare(p.entry, pipe.refs(p.entry, mems), (lev,), p.mode, p.callback)
    if bad:
        return {"violations": [{"key": f"{kind}:{lev}", "what": f"{kind} {p.name}: {bad[0][1]}", "input": {"program": getattr(p, "src", p.name), "level": lev}}]}
    return {}

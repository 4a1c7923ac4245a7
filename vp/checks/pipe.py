"""Shared by the optimizer checks: compile a graph at every level with the compiled optimizer, run graph
and emitted tree with the executors of vp.exe, compare effects; and the same over a symbolic memory (vp.tv)."""
import collections
import contextlib
import signal
import time

LEVELS = ("minimal", "fast", "standard")


def level(name):
    from sonolus.backend import optimize as o
    return {"minimal": o.MINIMAL_PASSES, "fast": o.FAST_PASSES, "standard": o.STANDARD_PASSES}[name]


class Hang(Exception):
    pass


@contextlib.contextmanager
def limit(secs):
    def h(*_):
        raise Hang
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def compile_at(entry, lev, mode=None, callback=None):
    """(node, None) or (None, reason)"""
    from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes
    try:
        with limit(40):
            if lev == "emit":               # no passes at all
                return cfg_to_engine_node(entry), None
            if lev.startswith("passes-"):   # optimize, export, import again, emit
                return cfg_to_engine_node(run_passes(entry, level(lev[7:]), OptimizerConfig(mode, callback))), None
            if lev.startswith("alloc-"):
                from sonolus.backend._opt import lower
                return cfg_to_engine_node(lower.run_allocate(entry, mode, callback, strategy=lev[6:])), None
            if lev == "lower":              # into SSA and straight back out
                from sonolus.backend._opt import lower
                return cfg_to_engine_node(lower.run_lower(entry, mode, callback)), None
            if lev == "midend-lower":
                from sonolus.backend._opt import lower
                return cfg_to_engine_node(lower.run_lower(entry, mode, callback, midend=True)), None
            return optimize_and_finalize(entry, level(lev), OptimizerConfig(mode, callback)), None
    except Hang:
        return None, "hang"
    except Exception as e:  # noqa: BLE001
        return None, repr(e)


def text(entry):
    from sonolus.backend.optimize.flow import cfg_to_text
    try:
        return cfg_to_text(entry)
    except Exception as e:  # noqa: BLE001
        return repr(e)


def refs(entry, mems, fuel=3000, stats=None):
    from vp import exe
    stats = stats if stats is not None else collections.Counter()
    cr = exe.CfgRun(entry)
    out = []
    for m in mems:
        try:
            out.append((m, cr.run(m, fuel)))
        except exe.Reject:
            stats["rejected"] += 1
        except exe.OutOfFuel:
            stats["fuel"] += 1
    return out


def compare(entry, rs, levels=LEVELS, mode=None, callback=None):
    """list of (level, what); rs from refs()"""
    from vp import exe
    out = []
    for lev in levels:
        node, err = compile_at(entry, lev, mode, callback)
        if node is None:
            if "Infinite loop detected" in err and not any(w.exited for _, w in rs):
                continue        # documented policy rejection: no exit block is left
            out.append((lev, "the optimizer does not finish" if err == "hang" else f"the optimizer fails: {err}"))
            continue
        nr = exe.NodeRun(node)
        if nr.bad:
            out.append((lev, f"constant without a literal form: {nr.bad[:2]}"))
            continue
        for m, w in rs:
            try:
                w2, r2 = nr.run(m, w.steps * 6 + 200)
                d = exe.difference(w.log, w2.log)
                if not d and w.result is not None and exe.difference([("result", w.result)], [("result", r2)]):
                    d = f"the result is {r2!r} instead of {w.result!r}"
            except exe.OutOfFuel:
                d = "the emitted program does not end"
            except Exception as e:  # noqa: BLE001
                d = f"the emitted program fails: {e!r}"
            if d:
                out.append((lev, f"{d}; memory {dict(list(m.items())[:30])}"))
                break
    return out


def random_sweep(prop, lo, secs, levels=LEVELS, step=8, gen_kw=None, cap=10 ** 9):
    """programs lo, lo+step, ... until the time is used"""
    from vp import gen
    t0 = time.time()
    st = collections.Counter()
    viol, samples, k = [], [], lo
    while time.time() - t0 < secs and st["programs"] < cap and len(viol) < 3:
        p = gen.program(k, **(gen_kw or {}))
        rs = refs(p.entry, p.mems, stats=st)
        st["programs"] += 1
        if rs:
            if any(w.log for _, w in rs):
                st["nontrivial"] += 1
            st["runs"] += len(rs) * len(levels)
            for lev, what in compare(p.entry, rs, levels, p.mode, p.callback)[:1]:
                viol.append({"key": f"random:{lev}", "what": f"program {k} at level {lev}: {what}"[:900],
                             "input": {"seed": k, "level": lev, "mode": str(p.mode), "callback": p.callback, "graph": text(p.entry)[:6000]}})
            if len(samples) < 1 and rs[0][1].log:
                samples.append(f"program {k}: {len(rs[0][1].log)} effects, first {rs[0][1].log[0]}")
        k += step
    return {"violations": viol, "bounded": {"name": "random programs", "evaluations": st["runs"], "distinct": st["nontrivial"], "programs": st["programs"],
                                            "samples": samples, "bound": f"programs with up to 3000 block steps, 4 memories each, levels {', '.join(levels)}"}}


def symbolic(prop, lo, secs, levels=("standard",), step=8, budget=2.5, gen_kw=None):
    """graphs against trees for every finite memory contents (paths within the bounds)"""
    from vp import exe, gen, tv
    t0 = time.time()
    k = lo
    obls, partial, programs, cover = [], 0, 0, 0
    import time as _t
    while _t.time() - t0 < secs:
        p = gen.program(k, **(gen_kw or {}))
        g = p.gen
        for lev in levels:
            node, err = compile_at(p.entry, lev, p.mode, p.callback)
            if node is None:
                continue
            mem0 = {a: v for a, v in p.mems[0].items() if a[0] in (g.IDX, g.PTR)}
            c = tv.equal(f"tv:{lev}:{k}", p.entry, node, mem0, sorted({int(x) for x in g.W + g.R} | {g.IDX, g.PTR, exe.TEMP}), budget=budget)
            programs += 1
            for o in c.obls:
                if o.status == "undecided":
                    partial += 1
                else:
                    obls.append({"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 4),
                                 "model": {a: ("hex", v.hex()) if isinstance(v, float) else v for a, v in (o.model or {}).items()}, "detail": o.detail})
                    cover += 1
        k += step
    return {"obls": obls, "bounded": {"name": "symbolic memory: paths left undecided", "evaluations": 0, "distinct": 0, "undecided": partial, "programs_tv": programs,
                                      "bound": "up to 30 blocks per path, 40 paths and %.1f s per program" % budget}}


def replay_tv(o):
    """a refuted tv obligation: run the program concretely from the model's memory and from random ones"""
    import random
    from vp import gen
    from vp.checks.common import unmodel
    _, lev, k = o["name"].split(":")[:3]
    p = gen.program(int(k))
    m0 = {a: v for a, v in p.mems[0].items() if a[0] in (p.gen.IDX, p.gen.PTR)}
    model = unmodel(o.get("model") or {})
    m = dict(m0)
    for a, v in model.items():
        if a.startswith("m") and "_" in a:
            b, i = a[1:].split("_")
            m[int(b), int(i)] = v
    r = random.Random(int(k))
    mems = [m] + [p.gen.memory(r) for _ in range(200)]
    bad = compare(p.entry, refs(p.entry, mems), (lev,), p.mode, p.callback)
    if bad:
        return {"violations": [{"key": f"random:{lev}", "what": f"program {k}: {bad[0][1]}", "input": {"seed": int(k), "level": lev, "graph": text(p.entry)[:6000]}}]}
    return {}


# ---------------------------------------------------------------- templates
class Spec:
    """one template instance: a graph, concrete memories to run it on, and the symbolic run's options"""

    def __init__(self, entry, mems=(), blocks=(20,), mem0=None, mode=None, callback=None, label="", **kw):
        self.entry, self.mems, self.blocks, self.mem0 = entry, list(mems), list(blocks), dict(mem0 or {})
        self.mode, self.callback, self.label, self.kw = mode, callback, label, kw


class Build:
    """small graph builder"""

    def __init__(self):
        from sonolus.backend import ir
        from sonolus.backend.ops import Op
        from sonolus.backend.optimize.flow import BasicBlock
        from sonolus.backend.place import BlockPlace, TempBlock
        self.ir, self.Op, self.BB, self.BP, self.TB = ir, Op, BasicBlock, BlockPlace, TempBlock

    def c(self, v):
        return self.ir.IRConst(v)

    def t(self, name, size=1):
        return self.TB(name, size)

    def at(self, b, i=0, o=0):
        """a place; temp blocks of size 1 are indexed by 0"""
        return self.BP(b, i, o)

    def get(self, b, i=0, o=0):
        return self.ir.IRGet(self.BP(b, i, o))

    def set(self, place, v):
        return self.ir.IRSet(place, v)

    def P(self, op, *a):
        return self.ir.IRPureInstr(self.Op[op], [self.c(x) if isinstance(x, (int, float)) else x for x in a])

    def I(self, op, *a):
        return self.ir.IRInstr(self.Op[op], [self.c(x) if isinstance(x, (int, float)) else x for x in a])

    def block(self, *st, test=None):
        return self.BB(statements=list(st), test=test if test is not None else self.c(0))


def run_templates(mod, kind, fn, lo, n, secs, levels=("standard",), step=1, symbolic_share=0.75, budget=3.0, conc_levels=LEVELS):
    """instances lo, lo+step, ... (n of them, or while time remains): concretely on spec.mems at every
    level, then symbolically.  ``fn(k)`` -> Spec or None"""
    from vp import exe, tv
    t0 = time.time()
    obls, viol, samples, covers = [], [], [], set()
    st = collections.Counter()
    und = 0
    for j in range(n):
        if time.time() - t0 > secs or len(viol) >= 3:
            break
        k = lo + j * step
        sp = fn(k)
        if sp is None:
            continue
        st["programs"] += 1
        rs = refs(sp.entry, sp.mems, stats=st)
        if rs:
            st["runs"] += len(rs) * len(conc_levels)
            st["nontrivial"] += 1
            bad = compare(sp.entry, rs, conc_levels, sp.mode, sp.callback)
            if bad:
                viol.append(_tv_violation(kind, k, sp, bad[0]))
                continue
            if not samples:
                samples.append(f"{kind} {k}: {sp.label} {rs[0][1].log[:2]}"[:200])
        for lev in levels:
            node, err = compile_at(sp.entry, lev, sp.mode, sp.callback)
            if node is None:
                continue
            c = tv.equal(f"{kind}:{lev}:{k}", sp.entry, node, sp.mem0, sorted(set(sp.blocks) | {exe.TEMP}), budget=budget, **sp.kw)
            st["tv"] += 1
            st["queries"] += c.queries
            st["solver_ms"] += int(c.solver_s * 1000)
            if "path" in c.covers:
                covers.add(f"{kind}:path")
            for o in c.obls:
                if o.status == "undecided":
                    und += 1
                    st["undecided"] += 1
                else:
                    obls.append({"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 4), "detail": o.detail,
                                 "model": {a: ("hex", v.hex()) if isinstance(v, float) else v for a, v in (o.model or {}).items()}})
    return {"obls": obls, "covers": sorted(covers), "violations": viol,
            "bounded": {"name": kind, "evaluations": st["runs"], "distinct": st["nontrivial"], "programs": st["programs"], "programs_tv": st["tv"],
                        "undecided": und, "solver_queries": st["queries"], "solver_ms": st["solver_ms"], "samples": samples, "bound": "concrete runs of the templates at every level"}}


def _tv_violation(kind, k, sp, bad):
    return {"key": f"{kind}:{bad[0]}", "what": f"{kind} template {k} ({sp.label}) at level {bad[0]}: {bad[1]}"[:900],
            "input": {"template": kind, "instance": k, "level": bad[0], "mode": str(sp.mode), "callback": sp.callback, "graph": text(sp.entry)[:6000]}}


def replay_templates(o, table):
    """replays a refuted template obligation concretely"""
    import random
    from vp.checks.common import draw, unmodel
    kind, lev, k = o["name"].split(":")[:3]
    if kind not in table:
        return {}
    k = int(k)
    sp = table[kind](k)
    m = dict(sp.mem0)
    cells = [dict(x) for x in sp.mems[:1]]
    for a, v in unmodel(o.get("model") or {}).items():
        if a.startswith("m") and "_" in a:
            try:
                b, i = a[1:].split("_")
                m[int(b), int(i)] = float(v)
            except ValueError:
                pass
    r = random.Random(k)
    mems = [m] + cells
    for _ in range(300):
        q = dict(m)
        for a in list(q):
            if a not in sp.mem0 and r.random() < 0.6:
                q[a] = draw(r)
        mems.append(q)
    rs = refs(sp.entry, mems)
    bad = compare(sp.entry, rs, (lev,), sp.mode, sp.callback)
    if bad:
        return {"violations": [_tv_violation(kind, k, sp, bad[0])]}
    return {}

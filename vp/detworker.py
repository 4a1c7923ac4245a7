"""One process of the determinism check: performs the jobs given on standard input in the given order and prints, per job, digests
of everything it produced.  Started by vp.checks.c26 with different hash seeds, clocks, memory layouts and orders of jobs."""
import hashlib
import json
import random
import sys
import time


def sha(x):
    if not isinstance(x, bytes):
        x = x.encode()
    return hashlib.sha1(x).hexdigest()


def table(trees):
    from sonolus.build.node import OutputNodeGenerator
    g = OutputNodeGenerator()
    idx = [g.add(t) for t in trees]
    return json.dumps([idx, g.get()], default=repr)


def graph_text(entry):
    """the graph as the front end or the generator made it, blocks numbered in order of first visit"""
    num, todo, lines = {entry: 0}, [entry], []
    for b in todo:
        es = sorted(b.outgoing, key=lambda e: (e.cond is not None, repr(e.cond)))
        for e in es:
            if e.dst not in num:
                num[e.dst] = len(num)
                todo.append(e.dst)
        lines.append(f"{[repr(s) for s in b.statements]} | {b.test!r} | {[(repr(e.cond), num[e.dst]) for e in es]}")
    return "\n".join(lines)


def trees(entry, mode, callback):
    from vp.checks.pipe import LEVELS, compile_at
    res = {}
    for lev in ("emit", "lower", *LEVELS):
        node, why = compile_at(entry, lev, mode, callback)
        res[lev] = sha(table([node])) if why is None else "rejected"
    return res


def job_graph(seed):
    from vp import gen
    p = gen.program(seed)
    return {"graph": sha(graph_text(p.entry)), **trees(p.entry, p.mode, p.callback)}


def job_prog(src):
    from sonolus.backend.mode import Mode
    from sonolus.build.compile import callback_to_cfg
    from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks
    from vp import front, pygen
    fn = front.src_fn(src, dict(pygen.sonolus_namespace()))
    ps = ProjectContextState(runtime_checks=RuntimeChecks.NONE)
    try:
        cfg = callback_to_cfg(ps, ModeContextState(Mode.PLAY, None), fn, "")
    except Exception as e:  # noqa: BLE001
        return {"rejected": type(e).__name__}
    return {"rom": repr(list(ps.rom.values)), **trees(cfg, None, None)}


def pack(data, checks, level):
    from sonolus.build.engine import package_engine
    from sonolus.script.internal.context import RuntimeChecks
    from sonolus.script.project import BuildConfig
    from vp.checks.pipe import level as passes
    p = package_engine(data, BuildConfig(runtime_checks=RuntimeChecks[checks], passes=passes(level)))
    return {k: sha(v) for k, v in vars(p).items() if isinstance(v, bytes)}


_engines = {}


def job_engine(src, checks, level):
    from sonolus.script import engine as se
    from vp import front
    from vp.checks import c24
    if src not in _engines:
        from sonolus.script.debug import debug_log
        ns = {**c24.namespace(), "debug_log": debug_log}
        try:
            front.src_fn(src, ns)
        except Exception as e:  # noqa: BLE001
            return {"rejected": type(e).__name__}
        _engines[src] = ns
    ns = _engines[src]
    d = se.EngineData(play=se.PlayMode(archetypes=ns["PLAY"]), watch=se.WatchMode(archetypes=ns["WATCH"], update_spawn=se.default_callback))
    try:
        return pack(d, checks, level)
    except Exception as e:  # noqa: BLE001
        return {"rejected": type(e).__name__}


def job_pydori(checks, level):
    try:
        from pydori.level import demo_level
        from pydori.project import project
    except ImportError:
        return {"absent": ""}
    from sonolus.build.level import package_level_data
    return {**pack(project.engine.data, checks, level), "level": sha(package_level_data(demo_level().data))}


def main():
    spec = json.load(sys.stdin)
    sys.path[:0] = spec["path"]
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if spec["clock"]:
        real = time.time
        time.time = lambda: real() + spec["clock"]
    r = random.Random(spec["noise"])
    junk = [bytearray(r.randrange(16, 5000)) for _ in range(spec["noise"] * 2000)]
    del junk[:: 1 + spec["noise"]]
    from vp import load, shim  # noqa: F401
    load.use_repo(spec["repo"])
    res = []
    t0 = time.perf_counter()
    for name, args in spec["jobs"]:
        if time.perf_counter() - t0 > spec["secs"]:
            break
        res.append([name, args, globals()["job_" + name](*args)])
    sys.stdout.write("\n" + json.dumps(res) + "\n")
    sys.stdout.flush()


if __name__ == "__main__":
    main()

"""C26: building is deterministic.

A relation between runs: build(project) in any process, with any hash seed, at any time and after any other builds gives the same bytes.
Contracts over single runs cannot state it, and CPython's hash randomisation is outside every verifier at hand, so this is
bounded exploration: the same jobs are performed by several processes that differ in hash seed, clock, memory layout and order of jobs,
and repeatedly in one process; all results of a job must be equal.
"""
import json
import random
import subprocess

META = {
    "level": "exploration",
    "functions": ["build.engine.package_engine", "build.engine.package_data", "build.level.package_level_data", "build.compile.callback_to_cfg",
                  "driver.compile_mode", "optimize.optimize_and_finalize", "node.OutputNodeGenerator.add", "Context.prepare_loop_header"],
    "trusted": ["the processes started differ in everything a build may not depend on"],
    "assumptions": ["projects that depend on the hash seed themselves (iterating a set of strings at import) are outside the property"],
    "rule": "jobs: the whole example project of the repository, generated engines, generated callbacks and generated graphs; each performed by 5 or more "
            "processes (hash seeds, clocks, allocation patterns, orders of jobs) and twice in one process; non-trivial when the build is accepted",
    "technique": "bounded: differential builds across processes and histories (a relational property of two runs; no deductive step)",
    "level_note": "bounded stand-in: nothing is proved; the property relates two runs of a whole build",
    "deadline": {"quick": 250, "thorough": 850},
}
VARIANTS = [("0", 0, 0, "fwd"), ("1", 1e6, 1, "rev"), ("2", 0, 2, "shuffle"), ("3", 5e7, 3, "fwd"), ("4", 0, 4, "twice")]


def start(jobs, hashseed, clock, noise, order, secs):
    from vp.check import ROOT
    import os
    import sys
    import sonolus
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sonolus.__file__)))
    jobs = list(jobs)
    r = random.Random(noise)
    if order == "rev":
        jobs = jobs[::-1]
    elif order == "shuffle":
        r.shuffle(jobs)
    elif order == "twice":
        jobs = jobs + jobs[::-1]
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT)
    spec = {"path": [ROOT, repo, f"{repo}/test_projects"], "repo": repo, "clock": clock, "noise": noise, "jobs": jobs, "secs": secs}
    p = subprocess.Popen([sys.executable, "-m", "vp.detworker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd="/")
    p.spec = json.dumps(spec)
    return p


def performed(jobs, variants, secs):
    """[(variant, [(job, result)])] or an error text"""
    from concurrent.futures import ThreadPoolExecutor
    ps = [start(jobs, *v, secs) for v in variants]
    try:
        with ThreadPoolExecutor(len(ps)) as ex:
            outs = list(ex.map(lambda p: p.communicate(p.spec, timeout=secs * 3 + 60), ps))
    finally:
        for p in ps:
            p.kill()
    res = []
    for v, p, (o, e) in zip(variants, ps, outs):
        if p.returncode:
            raise RuntimeError(f"worker {v}: {e[-1500:]}")
        res.append((v, json.loads(o.strip().splitlines()[-1])))
    return res


def compare(jobs, variants, secs, what):
    res = performed(jobs, variants, secs)
    first, viol, n, nt = {}, [], 0, set()
    for v, rs in res:
        for pos, (name, args, got) in enumerate(rs):
            key = json.dumps([name, args])
            n += 1
            if "rejected" not in got and "absent" not in got:
                nt.add(key)
            if key not in first:
                first[key] = (v, pos, got)
                continue
            v0, p0, g0 = first[key]
            if name == "graph" and g0["graph"] != got["graph"]:
                continue                # the generator itself differs
            if got != g0 and not viol:
                d = sorted(k for k in {*g0, *got} if g0.get(k) != got.get(k))
                viol.append({"key": f"differs:{name}", "what": f"{name} {str(args)[:60]!r}: {', '.join(d)} differ between (hash seed {v0[0]}, {v0[3]}, job {p0}) and (hash seed {v[0]}, {v[3]}, job {pos})",
                             "input": {"job": [name, args], "first": [*v0, p0], "second": [*v, pos], "results": [g0, got], "jobs": jobs if len(jobs) < 20 else len(jobs)}})
    return {"violations": viol, "bounded": {"name": what, "evaluations": n, "distinct": len(nt), "samples": [str(j)[:300] for j in jobs[:1]],
                                            "bound": f"{len(variants)} processes"}}


def pydori(levels, secs):
    jobs = [["pydori", [c, l]] for l in levels for c in ("NONE", "TERMINATE")]
    return compare(jobs, VARIANTS[:4], secs, "the example project")


def graphs(seed, i, n, secs):
    return compare([["graph", [seed * 1000003 + i * 10007 + k]] for k in range(n)], VARIANTS, secs, "generated graphs")


LOOPS = """
def f():
    st = S(1)
    alpha = inp(0)
    beta = 1
    gamma = inp(1)
    delta = 2
    epsilon = inp(2)
    zeta = 0
    for i in range(int_(inp(3))):
        alpha, beta = beta, alpha
        gamma += alpha * 2
        if gamma > 3:
            delta, epsilon = epsilon, delta + 1
            continue
        for j in range(3):
            zeta, gamma = gamma + j, zeta
            if zeta == delta:
                break
        else:
            beta += 1
    while delta < 40:
        delta += epsilon * epsilon + 1
        alpha, gamma, zeta = zeta, alpha, gamma
    out(0, (alpha, beta, gamma, delta, epsilon, zeta))
""".replace("int_(inp(3))", "inp(3)")


def progs(seed, i, n, secs):
    from vp import pygen
    jobs = [["prog", [pygen.PRELUDE + LOOPS]]]
    for k in range(n):
        r = random.Random(f"det/{seed}/{i}/{k}")
        jobs.append(["prog", [pygen.Gen(r, size=r.choice([8, 12, 16, 20]), wild=False).program()]])
    return compare(jobs, VARIANTS, secs, "generated callbacks")


def engine_src(seed):
    from vp.layout import Layout, ctor, leaves, name, size
    r = random.Random(f"detengine/{seed}")
    lay = Layout(f"{seed}/det", "self")
    out, play, watch = [], [], []
    types = [t for t in lay.ty.some(20) if size(t)] or [("num",)]
    for a in range(r.randint(1, 4)):
        fs, body = [], []
        base = r.choice(["PlayArchetype", "PlayArchetype", *play])
        for k in range(r.randint(1, 4)):
            t, s = r.choice(types + [("num",)] * 3), r.choice(["imported", "entity_data", "shared_memory", "entity_memory"])
            if size(t) <= 6:
                fs.append((f"x{a}{k}", t, s))
        d = "".join(f"    {f}: {name(t)} = {s}()\n" for f, t, s in fs)
        lv = [f"self.{f}{p}" for f, t, s in fs if s in ("entity_memory", "shared_memory") for p in leaves(t)]
        rd = [f"self.{f}{p}" for f, t, s in fs for p in leaves(t)] or ["1"]
        for q in range(r.randint(2, 6)):
            e = f"{r.choice(rd)} {r.choice(['+', '-', '*'])} {r.choice([*rd, '2.5', '-1', '1e300', '0.1'])}"
            if lv and r.random() < 0.6:
                body.append(f"        {r.choice(lv)} = {e}\n")
            else:
                body.append(f"        for i in range(3):\n            if {e} > i:\n                debug_log({e} + i)\n")
        out.append(f"class A{a}({base}):\n{d}    def update_sequential(self):\n{''.join(body)}        pass\n")
        play.append(f"A{a}")
        if r.random() < 0.6:
            out.append(f"class W{a}(WatchArchetype):\n    name = 'A{a}'\n    y: float = imported()\n    z: float = imported(name='z{r.randrange(9)}')\n"
                       f"    def spawn_time(self):\n        return self.y + {r.random()}\n    def despawn_time(self):\n        return self.z\n")
            watch.append(f"W{a}")
    return "\n\n".join(lay.ty.src) + "\n\n" + "\n\n".join(out) + f"\n\nPLAY = [{', '.join(play)}]\nWATCH = [{', '.join(watch)}]\n\n\ndef f():\n    pass\n"


def engines(seed, i, n, secs):
    jobs = []
    for k in range(n):
        src = engine_src(f"{seed}/{i}/{k}")
        jobs += [["engine", [src, "NONE", "standard"]], ["engine", [src, "TERMINATE", "minimal"]]]
    return compare(jobs, VARIANTS, secs, "generated engines")


def tasks(tier, seed):
    from vp.check import Task
    q = tier == "quick"
    T = []
    T.append(Task("real", "pydori", ["standard", "minimal"] if q else ["standard", "fast", "minimal"], 100, timeout=400))
    for i in range(2 if q else 12):
        T.append(Task("real", "graphs", seed, i, 60 if q else 150, 40, timeout=250))
        T.append(Task("real", "progs", seed, i, 40 if q else 100, 40, timeout=250))
        T.append(Task("real", "engines", seed, i, 10 if q else 40, 40, timeout=250))
    return T

"""Runs one property's check:  python3-vt -m vp.check C02 [quick|thorough]

A check module (vp/checks/cNN.py) lists tasks.  ``sym`` tasks run in a process where the
optimizer modules are the mechanical translation of the current .pyx sources (vp.load), ``real``
tasks in one that imports the compiled extensions built from a scratch copy of the tree.
Each task runs in its own forked process and returns a dict with any of
  obls        [{name,status,backend,secs,model,detail}]  obligations generated and their outcome
  covers      [name]                                       paths shown reachable
  bounded     {name,evaluations,distinct,samples,bound}   stand-in results (never counted as proved)
  violations  [{key,what,input}]                           property failures seen on the real code
"""
import importlib
import json
import multiprocessing
import os
import re
import select
import signal
import sys
import tempfile
import time
import traceback
import collections

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
JOBS = int(os.environ.get("VP_JOBS", "8"))


class Task:
    def __init__(self, kind, fn, *args, timeout=120, name=None):
        self.kind, self.fn, self.args, self.timeout = kind, fn, list(args), timeout
        self.name = name or f"{fn}({', '.join(map(str, args))})"[:160]


def _setup(kind, repo):
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    from vp import shim, load  # noqa: F401
    if kind == "sym":
        load.install(repo)
    else:
        load.use_repo(repo)


def _child(mod, t, path):
    try:
        t0 = time.time()
        r = getattr(mod, t.fn)(*t.args) or {}
        r["wall"] = time.time() - t0
    except BaseException as e:  # noqa: BLE001
        r = {"error": "".join(traceback.format_exception(e))[-3000:]}
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=_js)
    os.rename(path + ".tmp", path)


def _js(o):
    return repr(o)


def _master(kind, modname, repo, tasks, sem, outdir, deadline):
    os.setpgid(0, 0)
    if os.environ.get("VP_QUIET", "1") == "1":
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)          # z3 reports its own assertion failures there
    try:
        _setup(kind, repo)
        mod = importlib.import_module(modname)
    except BaseException as e:  # noqa: BLE001
        with open(os.path.join(outdir, f"{kind}.setup"), "w") as f:
            f.write("".join(traceback.format_exception(e)))
        os._exit(3)
    import gc
    gc.freeze()
    todo = collections.deque(tasks)
    live = {}
    while todo or live:
        now = time.time()
        if todo and now < deadline and sem.acquire(block=False):
            i, t = todo.popleft()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    _child(mod, t, os.path.join(outdir, f"{i}.json"))
                finally:
                    os._exit(0)
            live[pid] = (i, t, now)
            continue
        if now >= deadline:
            todo.clear()
        if not live:
            time.sleep(0.01)
            continue
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in live:
            i, t, _ = live.pop(pid)
            sem.release()
            if st != 0:
                with open(os.path.join(outdir, f"{i}.dead"), "w") as f:
                    f.write(str(os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)))
            continue
        for p, (i, t, s) in list(live.items()):
            if now - s > t.timeout or now > deadline:
                with open(os.path.join(outdir, f"{i}.timeout"), "w") as f:
                    f.write("")
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.01)
    os._exit(0)


def run_tasks(modname, tasks, repos, deadline):
    """results aligned with tasks; repos: {kind: path}"""
    import shutil
    outdir = tempfile.mkdtemp(prefix="vp-out-")
    sem = multiprocessing.get_context("fork").Semaphore(JOBS)
    pids = []
    kinds = []
    for kind in ("sym", "real"):
        ts = [(i, t) for i, t in enumerate(tasks) if t.kind == kind]
        if not ts:
            continue
        kinds.append(kind)
        pid = os.fork()
        if pid == 0:
            try:
                _master(kind, modname, repos[kind](), ts, sem, outdir, deadline)
            except BaseException as e:  # noqa: BLE001
                with open(os.path.join(outdir, f"{kind}.setup"), "w") as f:
                    f.write("".join(traceback.format_exception(e)))
            finally:
                os._exit(4)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    out = []
    for i, t in enumerate(tasks):
        b = os.path.join(outdir, str(i))
        setup = os.path.join(outdir, f"{t.kind}.setup")
        if os.path.exists(b + ".json"):
            out.append(json.load(open(b + ".json")))
        elif os.path.exists(setup):
            out.append({"setup_error": open(setup).read()})
        elif os.path.exists(b + ".timeout"):
            out.append({"timeout": True})
        elif os.path.exists(b + ".dead"):
            out.append({"dead": int(open(b + ".dead").read())})
        else:
            out.append({"notrun": True})
    shutil.rmtree(outdir, ignore_errors=True)
    return out


def known_findings(prop):
    """{key: text} of the findings recorded (not repaired)"""
    r = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"known: property={prop} key="):
                rest = l.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                r[key] = text
    return r


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    modname = f"vp.checks.{prop.lower()}"
    src = importlib.util.find_spec(modname)
    meta = _meta(src.origin)
    from vp import env
    root = None
    buildlog = [None]
    state = {}

    def real_repo():
        return state["dst"]

    try:
        # the scratch copy gives a consistent snapshot and a place to build
        root, dst = env.scratch(REPO)
        state["dst"] = dst
        deadline = t0 + meta.get("deadline", {}).get(tier, 400 if tier == "quick" else 840)
        mt = _tasks(modname, tier, seed)
        err = env.build(dst) if any(t.kind == "real" for t in mt) or meta.get("build") else None
        if err:
            print(f"{prop}: the extensions do not build; nothing to check\n{err}", file=sys.stderr)
            return 2
        repos = {"sym": lambda: dst, "real": lambda: dst}
        res = run_tasks(modname, mt, repos, deadline)
        return report(prop, tier, seed, meta, mt, res, repos, modname, t0)
    finally:
        if root:
            env.remove(root)


def _meta(path):
    """the literal META dict of the check module, without importing the repository"""
    import ast
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "META" if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    raise SystemExit("no META in " + path)


def _tasks(modname, tier, seed):
    """the check module's task list: computed from its TASKS function in a subprocess-free way
    (a check module imports the repository lazily, inside its task functions)"""
    m = importlib.import_module(modname)
    return m.tasks(tier, seed)


def report(prop, tier, seed, meta, tasks, res, repos, modname, t0):
    obls, covers, bounded, viol, notes, recs = [], set(), [], [], [], {}
    for t, r in zip(tasks, res):
        for o in r.get("obls", ()):
            o["task"] = t.name
            obls.append(o)
        covers.update(r.get("covers", ()))
        if r.get("bounded"):
            bs = r["bounded"] if isinstance(r["bounded"], list) else [r["bounded"]]
            bounded += bs
        viol += r.get("violations", ())
        for k, v in r.get("facts", {}).items():
            recs[k] = v
        if "error" in r:
            notes.append(f"task {t.name}: {r['error'][-600:]}")
            obls.append({"name": t.name + ":ran", "status": "undecided", "backend": "engine", "secs": 0, "model": None,
                         "detail": r["error"][-600:], "task": t.name})
        elif "setup_error" in r:
            notes.append(f"task {t.name}: setup: {r['setup_error'][-600:]}")
        elif "timeout" in r or "notrun" in r:
            notes.append(f"task {t.name}: out of time")
            if t.kind == "sym":
                obls.append({"name": t.name + ":ran", "status": "undecided", "backend": "engine", "secs": 0, "model": None,
                             "detail": "out of time", "task": t.name})
            elif "timeout" in r and meta.get("hang_is_violation"):
                viol.append({"key": "hang:" + t.name, "what": f"{t.name} did not finish within {t.timeout} s", "input": t.args})
        elif "dead" in r:
            again = run_tasks(modname, [t], repos, time.time() + min(t.timeout or 300, 300)) if t.kind == "real" else [r]
            # a process that died once for a reason of the machine (memory, the solver) is no finding
            if t.kind == "real" and again[0].get("dead") == r["dead"] and r["dead"] in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                viol.append({"key": "crash:" + t.name, "what": f"{t.name}: the process died with signal {r['dead']}", "input": t.args})
            else:
                notes.append(f"task {t.name}: died ({r['dead']})")
    setup_errs = sum("setup_error" in r for r in res)
    # replay refuted obligations on the compiled code
    refuted = [o for o in obls if o["status"] == "refuted"]
    if refuted:
        first = {}
        for o in refuted:
            first.setdefault(o["name"], o)
        refuted = list(first.values())
        rt = [Task("real", "replay", o, timeout=100) for o in refuted[:16]]
        rr = run_tasks(modname, rt, repos, time.time() + 180)
        for o, r in zip(refuted, rr):
            vs = r.get("violations") or []
            if vs:
                viol += vs
            elif r.get("undecided"):
                for o2 in obls:
                    if o2["name"] == o["name"] and o2["status"] == "refuted":
                        o2["status"] = "undecided"
                        o2["detail"] = "not reproduced: " + (o2.get("detail") or "")
            else:
                viol.append({"key": "obligation:" + o["name"], "what": f"obligation {o['name']} fails: {o.get('detail') or ''}",
                             "input": o.get("model"), "nofail": True, "obligation": o, "replayed": r})
    # one violation per key; concrete ones first
    seen, uniq = set(), []
    for v in sorted(viol, key=lambda v: bool(v.get("nofail"))):
        if v["key"] not in seen:
            seen.add(v["key"])
            uniq.append(v)
    known = known_findings(prop)
    new = [v for v in uniq if v["key"] not in known]
    for v in uniq:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[v['key']]}")
    cnt = collections.Counter(o["status"] for o in obls)
    back = collections.Counter(o["backend"] for o in obls if o["status"] == "proved")
    evals = sum(b.get("evaluations", 0) for b in bounded)
    distinct = sum(b.get("distinct", 0) for b in bounded)
    samples = [s for b in bounded for s in b.get("samples", [])][:12]
    cov = {
        "functions_under_contract": meta.get("functions", []),
        "obligations": len(obls) , "discharged": cnt["proved"],
        "undecided": cnt["undecided"], "refuted": cnt["refuted"],
        "undecided_names": [o["name"] + ": " + (o.get("detail") or "")[:160] for o in obls if o["status"] == "undecided"][:20],
        "by_backend": dict(back),
        "solver_seconds": round(sum(o.get("secs") or 0 for o in obls) + sum(b.get("solver_ms", 0) for b in bounded) / 1000, 2),
        "obligation_names": sorted({re.sub(r":\d+:", ":*:", o["name"].split("#")[0]) for o in obls})[:400],
        "covered_paths": sorted(covers)[:100],
        "checker_cmd": f"python3-vt -m vp.check {prop} {tier}",
        "trusted_base": meta.get("trusted", []),
        "bounded": [{k: v for k, v in b.items() if k != "samples"} for b in _merge(bounded)],
        "programs": sum(b.get("programs", 0) + b.get("programs_tv", 0) for b in bounded), "disagreements_checked": evals + len(obls),
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": meta.get("rule", "see bounded"), "samples": samples,
        "facts": recs, "notes": notes[:20],
        "explanation": meta.get("explanation", ""),
    }
    lev = meta["level"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lev, "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    rc = 0
    for n, v in enumerate(new[:8]):
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{prop}-{n}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=_js)
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if v.get("nofail") else ""))
        print(f"  {v['what']}"[:600], file=sys.stderr)
        rc = 1
    print(f"{prop} {tier}: {len(obls)} obligations, {cnt['proved']} discharged, {cnt['undecided']} undecided, "
          f"{cnt['refuted']} refuted; bounded evaluations {evals}; {len(new)} violation(s), {len(uniq) - len(new)} known; {time.time() - t0:.1f}s")
    for n in notes[:6]:
        print("  note:", n[-500:], file=sys.stderr)
    if rc == 0 and (setup_errs or (not cnt["proved"] and not evals)):
        print(f"{prop}: nothing could be checked", file=sys.stderr)
        return 3
    return rc


def _merge(bounded):
    m = {}
    for b in bounded:
        k = b.get("name", "")
        if k not in m:
            m[k] = dict(b)
        else:
            for f in ("evaluations", "distinct", "programs", "programs_tv", "undecided", "solver_queries", "solver_ms"):
                if f not in b:
                    continue
                m[k][f] = m[k].get(f, 0) + b.get(f, 0)
    return list(m.values())


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)

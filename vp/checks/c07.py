"""C07: merging values at joins behaves as one simultaneous assignment.

Contracts
  _seq_parallel_copies(copies, make_fresh)   ensures  executing the result in order leaves every destination with the value its
                                             source had before, and writes nothing but destinations and fresh temporaries
  out of SSA (lower)                         ensures  for every memory the lowered graph has the effects of the graph, over loops and
                                             joins whose variables are permuted, rotated, duplicated and overwritten on every edge"""
import itertools

from vp.check import Task
from vp.checks import pipe
from vp.checks.common import *  # noqa: F403

META = {
    "level": "translation_validation",
    "functions": ["midend._seq_parallel_copies", "midend._UnSSA", "lower._Lower._emit_copies", "lower._Lower._plan_splits", "lower._coalesce",
                  "midend.build_ssa (phi placement and renaming)", "lower._normalize_switch"],
    "trusted": ["z3", "vp/exe.py, vp/rtspec.py: semantics of graphs and trees"],
    "assumptions": ["values over the mathematical reals in the proofs (they are only moved and added)", "loops up to the path bound"],
    "rule": "copy sets enumerated completely up to five destinations; loops and joins over 2-6 variables with permuting, rotating, duplicating edges, self-loops, critical edges, values used after the loop and in tests; non-trivial when a reference run exists",
    "deadline": {"quick": 300, "thorough": 850},
    "technique": "contract of the copy sequentialisation over enumerated copy sets with symbolic values; symbolic execution of graph and lowered program, equality discharged by z3",
    "level_note": "each lowered program is validated for every memory on the explored paths; copy sets complete up to five destinations",
}


def _check_seq(copies, f):
    n = itertools.count(1000)
    fresh = set()

    def mk():
        x = next(n)
        fresh.add(x)
        return x
    seq = f(list(copies), mk)
    env = {}
    val = lambda x: env.get(x, ("init", x))
    for d, s in seq:
        if isinstance(d, tuple):
            return f"writes the constant {d}", seq
        env[d] = val(s)
    dst = {d for d, _ in copies}
    for d, s in copies:
        if val(d) != ("init", s):
            return f"{d} should be {s} but is {val(d)}", seq
    for d in env:
        if d not in dst and d not in fresh:
            return f"{d} is overwritten", seq
    return None, seq


def seqs(n, orders, part, parts):
    """all copy sets with n destinations; sources among the destinations, one other temporary, a constant"""
    from sonolus.backend._opt.midend import _seq_parallel_copies as f
    bad, cnt = [], 0
    srcs = list(range(n)) + [n, ("const", 1.0)]
    for k, asg in enumerate(itertools.product(srcs, repeat=n)):
        if k % parts != part:
            continue
        ps = itertools.permutations(range(n)) if orders else [tuple(range(n)), tuple(reversed(range(n)))]
        for p in ps:
            cp = [(i, asg[i]) for i in p]
            cnt += 1
            try:
                w, seq = _check_seq(cp, f)
            except Exception as e:  # noqa: BLE001
                w, seq = repr(e), None
            if w:
                bad.append({"key": "sequence", "what": f"copies {cp} become {seq}: {w}", "input": [list(x) for x in cp]})
                return {"violations": bad, "bounded": {"name": "copy sets", "evaluations": cnt, "distinct": cnt, "samples": [], "bound": ""}}
    return {"violations": bad, "bounded": {"name": f"copy sets of {n} destinations", "evaluations": cnt, "distinct": cnt, "samples": [f"{cp}"],
                                           "bound": f"all maps from {n} destinations, {'all' if orders else 'two'} orders"}}


def _vals(b, r, vs, cur):
    """right-hand side for one variable"""
    k = r.random()
    if k < 0.68:
        return b.get(r.choice(vs))
    if k < 0.78:
        return b.c(r.randint(0, 5))
    if k < 0.92:
        return b.P(r.choice(["Add", "Subtract"]), b.get(r.choice(vs)), b.get(r.choice(vs)))
    return b.get(20, r.randrange(6))


def assign(b, r, vs):
    """a simultaneous assignment spelled out through copies (so every edge merges the values together)"""
    m = r.random()
    k = len(vs)
    if m < 0.35:
        p = list(range(k))
        r.shuffle(p)
        src = [b.get(vs[i]) for i in p]
    elif m < 0.5:
        s = r.randrange(1, k) if k > 1 else 0
        src = [b.get(vs[(i + s) % k]) for i in range(k)]
    elif m < 0.6:
        src = [b.get(vs[r.randrange(k)]) for i in range(k)]
    else:
        src = [_vals(b, r, vs, i) if r.random() < 0.8 else b.get(vs[i]) for i in range(k)]
    b.n = getattr(b, "n", 0) + 1
    tmp = [b.t(f"t{b.n}_{i}") for i in range(k)]
    todo = [i for i in range(k) if r.random() < 0.9]
    st = [b.set(b.at(tmp[i]), src[i]) for i in todo] + [b.set(b.at(vs[i]), b.get(tmp[i])) for i in todo]
    if r.random() < 0.25:       # plain sequential instead
        st = [b.set(b.at(vs[i]), src[i]) for i in todo]
    if r.random() < 0.2:
        st.insert(r.randrange(len(st) + 1), b.set(b.at(21, 20 + r.randrange(3)), b.get(r.choice(vs))))
    return st


def test(b, r, vs, i=None):
    k = r.random()
    if i is not None and k < 0.5:
        return b.P("Less", b.get(i), b.get(20, 7) if r.random() < 0.5 else 2)
    if k < 0.8:
        return b.P("Less", b.get(r.choice(vs)), b.get(r.choice(vs)))
    return b.P("Less", b.get(20, r.randrange(6)), b.get(r.choice(vs)))


def t_loop(seed):
    r = random.Random(seed * 103 + 1)
    b = pipe.Build()
    k = r.randint(2, 6)
    vs = [b.t(f"v{i}") for i in range(k)]
    i = b.t("i")
    pre = b.block(*[b.set(b.at(v), b.get(20, q) if r.random() < 0.85 else b.c(q)) for q, v in enumerate(vs)], b.set(b.at(i), b.c(0)))
    inc = b.set(b.at(i), b.P("Add", b.get(i), 1))
    after = b.block(*[b.set(b.at(21, q), b.get(v)) for q, v in enumerate(vs) if r.random() < 0.9])
    lim = b.P("Less", b.get(i), r.randint(1, 3))
    shape = r.random()
    if shape < 0.3:             # self-loop
        body = b.block(*assign(b, r, vs), inc, test=lim)
        pre.connect_to(body)
        body.connect_to(body, None)
        body.connect_to(after, 0)
    elif shape < 0.55:          # header and body
        head = b.block(*(assign(b, r, vs) if r.random() < 0.3 else []), test=lim)
        body = b.block(*assign(b, r, vs), inc)
        pre.connect_to(head)
        head.connect_to(body, None)
        head.connect_to(after, 0)
        body.connect_to(head)
    elif shape < 0.8:           # two back edges, early exit
        head = b.block(test=lim)
        b1 = b.block(*assign(b, r, vs), inc, test=test(b, r, vs))
        b2 = b.block(*assign(b, r, vs))
        pre.connect_to(head)
        head.connect_to(b1, None)
        head.connect_to(after, 0)
        b1.connect_to(head, 0)
        b1.connect_to(b2, None)
        if r.random() < 0.5:
            b2.test = test(b, r, vs)
            b2.connect_to(after, 0)
            b2.connect_to(head, None)
        else:
            b2.connect_to(head)
    else:                       # nested
        j = b.t("j")
        head = b.block(b.set(b.at(j), b.c(0)), test=lim)
        inner = b.block(test=b.P("Less", b.get(j), 2))
        ib = b.block(*assign(b, r, vs), b.set(b.at(j), b.P("Add", b.get(j), 1)))
        latch = b.block(*assign(b, r, vs), inc)
        pre.connect_to(head)
        head.connect_to(inner, None)
        head.connect_to(after, 0)
        inner.connect_to(ib, None)
        inner.connect_to(latch, 0)
        ib.connect_to(inner)
        latch.connect_to(head)
    ms = [{(20, q): float(r.randint(-9, 9)) if r.random() < 0.6 else r.uniform(-5, 5) for q in range(8)} | {(20, 7): float(r.randint(0, 3))} for _ in range(8)]
    return pipe.Spec(pre, ms, [20, 21], label=f"loop over {k} variables", real=True, steps=16, max_paths=24)


def t_join(seed):
    r = random.Random(seed * 107 + 1)
    b = pipe.Build()
    k = r.randint(2, 6)
    vs = [b.t(f"v{i}") for i in range(k)]
    e = b.block(*[b.set(b.at(v), b.get(20, q) if r.random() < 0.85 else b.c(q)) for q, v in enumerate(vs)])
    cur = e
    for _ in range(r.randint(1, 4)):
        nxt = b.block()
        m = r.choice([2, 2, 3, 4])
        cur.test = test(b, r, vs) if m == 2 else b.get(20, 6)
        cases = [None] + list(range(m - 1))
        for c in cases:
            if r.random() < 0.25:
                if nxt not in [x.dst for x in cur.outgoing] or r.random() < 0.5:
                    cur.connect_to(nxt, c)      # critical edge
                    continue
            q = b.block(*assign(b, r, vs))
            if r.random() < 0.2:
                q.test = test(b, r, vs)
                q2 = b.block(*assign(b, r, vs))
                q.connect_to(nxt, 0)
                q.connect_to(q2, None)
                q2.connect_to(nxt)
            else:
                q.connect_to(nxt)
            cur.connect_to(q, c)
        cur = nxt
        if r.random() < 0.4:
            cur.statements += assign(b, r, vs)
        if r.random() < 0.4:
            cur.statements.append(b.set(b.at(21, 10 + r.randrange(3)), b.get(r.choice(vs))))
    cur.statements += [b.set(b.at(21, q), b.get(v)) for q, v in enumerate(vs) if r.random() < 0.85]
    ms = [{(20, q): float(r.randint(-9, 9)) if r.random() < 0.6 else r.uniform(-5, 5) for q in range(8)} | {(20, 6): float(r.randint(-1, 4))} for _ in range(12)]
    return pipe.Spec(e, ms, [20, 21], label=f"joins over {k} variables", real=True, steps=20, max_paths=24)


T = {"loop": t_loop, "join": t_join}
LEV = ("lower", "midend-lower", "fast", "standard")


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("real", "seqs", n, True, 0, 1, timeout=200) for n in range(1, 5)] + [Task("real", "seqs", 5, not q, i, 4, timeout=600) for i in range(4)]
    if not q:
        ts += [Task("real", "seqs", 6, False, i, 8, timeout=700) for i in range(8)]
    for kind in T:
        for i in range(4):
            ts.append(Task("real", "run", kind, seed * 100000 + i, 4, 32 if q else 400, timeout=700))
            ts.append(Task("real", "conc", kind, seed * 100000 + 50000000 + i, 4, 14 if q else 200, timeout=700))
    return ts


def run(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=("lower", "standard"), step=step, budget=2.0, conc_levels=LEV)


def conc(kind, lo, step, secs):
    return pipe.run_templates(None, kind, T[kind], lo, 10**6, secs, levels=(), step=step, conc_levels=LEV)


def replay(o):
    return pipe.replay_templates(o, T)

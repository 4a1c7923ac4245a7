"""C12: control-flow analyses describe every possible execution.

Contracts (checked against their definitions, computed independently from the graph)
  compute_dominators   ensures  a dominates b  <=>  removing a leaves b unreachable from the entry; idom = the closest strict dominator
  compute_loops        ensures  the loops are the natural loops of the edges u -> h with h dominating u, merged by header;
                                depth, innermost loop, parent accordingly
  compute_liveness     ensures  live after a statement  <=>  least solution of the path definition (a use by a statement that is itself
                                kept, reached before an overwrite); arrays: at least the cells some path reads, never before any write
  traversals           ensures  every reachable block exactly once; reverse postorder lists u before v on every edge u -> v unless v reaches u"""
import itertools

from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "exploration",
    "functions": ["analysis.compute_dominators", "analysis._dom_intersect", "analysis.compute_loops", "analysis.compute_liveness", "analysis._gen_value",
                  "analysis._gen_place_write", "flow.traverse_cfg_preorder", "flow.traverse_cfg_postorder", "flow.traverse_cfg_reverse_postorder"],
    "trusted": ["the definitions transcribed in vp/checks/c12.py"],
    "assumptions": ["bounded: every graph on up to four blocks, sampled graphs up to 150 blocks", "a store without effect whose target is dead does not keep its operands live (as documented)"],
    "rule": "graphs enumerated by successor sets (both labelings of the edges for dominators), random and structured larger ones; programs of reads and writes over scalars and arrays; non-trivial when at least two blocks are reachable",
    "deadline": {"quick": 200, "thorough": 850},
    "technique": "postconditions of the analyses evaluated on enumerated and random graphs against the path definitions",
    "level_note": "bounded: complete for all graphs up to four blocks; the fixpoint algorithms themselves are beyond the prover used",
}


def graph(n, succ):
    """blocks 0..n-1 with ordered successor lists; the last successor is the default edge"""
    from sonolus.backend.optimize.flow import BasicBlock
    bs = [BasicBlock() for _ in range(n)]
    for u, ss in enumerate(succ):
        for i, v in enumerate(ss):
            bs[u].connect_to(bs[v], None if i == len(ss) - 1 else i)
    return bs


def reach(succ, start, gone=None):
    seen = set()
    todo = [start] if start != gone else []
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        todo += [v for v in succ[u] if v != gone and v not in seen]
    return seen


def check_graph(succ, deep=True):
    """None or what is wrong"""
    from sonolus.backend._opt import analysis
    from sonolus.backend.optimize import flow
    n = len(succ)
    bs = graph(n, succ)
    pos = {b: i for i, b in enumerate(bs)}
    R = reach(succ, 0)
    # traversals
    pre = [pos[b] for b in flow.traverse_cfg_preorder(bs[0])]
    post = [pos[b] for b in flow.traverse_cfg_postorder(bs[0])]
    rpo = [pos[b] for b in flow.traverse_cfg_reverse_postorder(bs[0])]
    for nm, t in (("preorder", pre), ("postorder", post), ("reverse postorder", rpo)):
        if sorted(t) != sorted(R):
            return f"{nm} visits {t}, reachable are {sorted(R)}"
    if pre[0] != 0 or rpo[0] != 0 or post[-1] != 0:
        return "the entry is not first"
    rk = {u: i for i, u in enumerate(rpo)}
    RE = {u: reach(succ, u) for u in R}
    for u in R:
        for v in succ[u]:
            if rk[u] >= rk[v] and u not in RE[v]:
                return f"reverse postorder lists {v} before {u} although it cannot reach it"
    if not deep:
        return None
    # dominators
    d = analysis.dominators_debug(bs[0])
    if d["n_blocks"] != len(R):
        return f"{d['n_blocks']} blocks analysed, {len(R)} reachable"
    cut = {a: R - reach(succ, 0, a) for a in R}      # blocks a dominates
    for a in R:
        for b in R:
            if d["dominates"](rk[a], rk[b]) != (b in cut[a]):
                return f"dominates({a}, {b}) is {not (b in cut[a])}"
    for b in R:
        strict = [a for a in R if a != b and b in cut[a]]
        want = next((a for a in strict if all(a in cut[c] for c in strict)), None)
        got = d["idom"][rk[b]]
        if b == 0:
            continue
        if want is None or got != rk[want]:
            return f"idom({b}) is block {rpo[got]}, expected {want}"
    for b in R:
        if {rpo[c] for c in d["children"][rk[b]]} != {c for c in R if c != 0 and rpo[d["idom"][rk[c]]] == b}:
            return f"dominator tree children of {b}"
    # loops
    l = analysis.loops_debug(bs[0])
    pred = {u: [p for p in R if u in succ[p]] for u in R}
    want = {}
    for u in R:
        for h in succ[u]:
            if u in cut[h]:
                body = want.setdefault(h, {h})
                todo = [u]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += pred[x]
    got = {rpo[h]: {rpo[m] for m in ms} for h, _, _, ms in l["loops"]}
    if got != want or len(l["loops"]) != len(want):
        return f"loops {got}, expected {want}"
    hs = [rpo[x[0]] for x in l["loops"]]
    for b in R:
        inl = [h for h in want if b in want[h]]
        if l["depth"][rk[b]] != len(inl):
            return f"loop depth of {b} is {l['depth'][rk[b]]}, expected {len(inl)}"
        inner = l["innermost"][rk[b]]
        if (inner < 0) != (not inl):
            return f"innermost loop of {b}"
        if inl:
            h = hs[inner]
            if h not in inl or any(want[h] > want[x] for x in inl):
                return f"innermost loop of {b} is {h}"
        for c in R:
            if l["crosses"](rk[b], rk[c]) != bool(l["innermost"][rk[c]] >= 0 and b not in want[hs[l["innermost"][rk[c]]]]):
                return f"crosses_loop({b}, {c})"
    for i, (h, par, dep, _) in enumerate(l["loops"]):
        outer = [x for x in want if x != rpo[h] and rpo[h] in want[x]]
        if (par < 0) != (not outer) or dep != len(outer) + 1:
            return f"parent or depth of the loop at {rpo[h]}"
        if outer and hs[par] not in outer:
            return f"parent of the loop at {rpo[h]} is {hs[par]}"
    return None


def _bad(succ, why, kind):
    return {"key": kind, "what": f"graph {succ}: {why}", "input": {"successors": succ}}


def small(n, part, parts, orders):
    bad, cnt, nt = [], 0, 0
    subs = []
    for k in range(n + 1):
        for c in itertools.combinations(range(n), k):
            subs += [c] if not orders or k < 2 else [c, tuple(reversed(c))]
    for k, succ in enumerate(itertools.product(subs, repeat=n)):
        if k % parts != part:
            continue
        if len(reach(succ, 0)) < n:
            continue            # smaller graphs are enumerated on their own
        cnt += 1
        try:
            w = check_graph(succ)
        except Exception as e:  # noqa: BLE001
            w = repr(e)
        nt += 1
        if w:
            bad.append(_bad(succ, w, "graph"))
            break
    return {"violations": bad, "bounded": {"name": f"all graphs on {n} blocks", "evaluations": cnt, "distinct": nt, "samples": [str(succ)], "bound": f"{n} blocks" + (", both edge orders" if orders else "")}}


def random_succ(r):
    k = r.random()
    n = r.choice([5, 6, 7, 8, 10, 14, 20, 66, 70, 130, 150]) if k < 0.3 else r.randint(5, 12)
    p = r.random()
    succ = []
    for u in range(n):
        m = r.choice([0, 1, 1, 2, 2, 2, 3, 4])
        if u < n - 1 and m == 0 and r.random() < 0.8:
            m = 1
        c = []
        for _ in range(m):
            v = u + 1 if r.random() < 0.35 and u + 1 < n else (r.randrange(max(0, u - 4), u + 1) if r.random() < p * 0.5 else r.randrange(u, min(n, u + 6)) if r.random() < 0.8 else r.randrange(n))
            if v not in c:
                c.append(v)
        succ.append(tuple(c))
    return tuple(succ)


def larger(lo, secs):
    import time
    t0 = time.time()
    bad, cnt, nt, k = [], 0, 0, lo
    while time.time() - t0 < secs and not bad:
        succ = random_succ(random.Random(k))
        cnt += 1
        nt += len(reach(succ, 0)) > 2
        try:
            w = check_graph(succ)
        except Exception as e:  # noqa: BLE001
            w = repr(e)
        if w:
            bad.append(_bad(succ, w, "graph"))
        k += 1
    return {"violations": bad, "bounded": {"name": "larger graphs", "evaluations": cnt, "distinct": nt, "samples": [str(succ)[:200]], "bound": "5-150 blocks, sampled"}}


# ---------------------------------------------------------------- liveness
def program(k, n_blocks=None):
    """a graph of reads and writes: per block a list of (kind, target, reads, effect)"""
    from sonolus.backend import ir
    from sonolus.backend.ops import Op
    from sonolus.backend.optimize.flow import BasicBlock
    from sonolus.backend.place import BlockPlace, TempBlock
    r = random.Random(k * 131 + 7)
    n = n_blocks or r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    ns = r.randint(1, 4) if r.random() < 0.93 else 66
    na = r.randint(0, 2)
    sc = [TempBlock(f"s{i}", 1) for i in range(ns)]
    ar = [TempBlock(f"a{i}", r.randint(2, 4)) for i in range(na)]

    def read():
        t = r.choice(sc + ar)
        if t.size > 1:
            if r.random() < 0.3:
                s = r.choice(sc)
                return ir.IRGet(BlockPlace(t, ir.IRGet(BlockPlace(s, 0, 0)), 0)), {t.name, s.name}
            return ir.IRGet(BlockPlace(t, r.randrange(t.size), 0)), {t.name}
        return ir.IRGet(BlockPlace(t, 0, 0)), {t.name}

    def value(d=2):
        m = r.random()
        if m < 0.2:
            return ir.IRConst(r.randint(0, 3)), set(), False
        if m < 0.65 or d == 0:
            g, u = read()
            if r.random() < 0.15:
                return ir.IRGet(BlockPlace(20, g, r.randint(0, 2))), u, False
            if r.random() < 0.1:
                return ir.IRGet(BlockPlace(g, r.randint(0, 2), 0)), u, False
            return g, u, False
        a, u1, e1 = value(d - 1)
        b, u2, e2 = value(d - 1)
        if m < 0.9:
            if e1 or e2:
                return a, u1, e1
            return ir.IRPureInstr(Op.Add, [a, b]), u1 | u2, False
        if e1:
            return a, u1, e1
        return ir.IRInstr(Op.Spawn, [ir.IRConst(1), a]), u1, True

    blocks, info = [], []
    for _ in range(n):
        st, inf = [], []
        for _ in range(r.randint(0, 4)):
            m = r.random()
            if m < 0.55:
                t = r.choice(sc)
                v, u, e = value()
                st.append(ir.IRSet(BlockPlace(t, 0, 0), v))
                inf.append(("s", t.name, u, e))
            elif m < 0.75 and ar:
                t = r.choice(ar)
                v, u, e = value()
                if r.random() < 0.3:
                    s = r.choice(sc)
                    st.append(ir.IRSet(BlockPlace(t, ir.IRGet(BlockPlace(s, 0, 0)), 0), v))
                    u = u | {s.name}
                else:
                    st.append(ir.IRSet(BlockPlace(t, r.randrange(t.size), 0), v))
                inf.append(("a", t.name, u, e))
            elif m < 0.9:
                v, u, e = value()
                pl = BlockPlace(21, r.randrange(3), 0)
                if r.random() < 0.4:
                    g, u2 = read()
                    pl = BlockPlace(21, g, 0) if r.random() < 0.6 else BlockPlace(g, 1, 0)
                    u = u | u2
                st.append(ir.IRSet(pl, v))
                inf.append(("w", None, u, True))
            else:
                v, u, _ = value(1)
                st.append(ir.IRInstr(Op.Spawn, [ir.IRConst(0), v]))
                inf.append(("w", None, u, True))
        tv, tu, te = value(1)
        if te:
            tv, tu = ir.IRConst(1), set()
        blocks.append(BasicBlock(statements=st, test=tv))
        info.append((inf, tu))
    succ = []
    for u in range(n):
        m = r.choice([0, 1, 1, 2, 2, 3])
        c = []
        for _ in range(m):
            v = u + 1 if r.random() < 0.5 and u + 1 < n else r.randrange(n)
            if v not in c:
                c.append(v)
        succ.append(tuple(c))
    if all(succ):
        succ[-1] = ()
    for u, ss in enumerate(succ):
        for i, v in enumerate(ss):
            blocks[u].connect_to(blocks[v], None if i == len(ss) - 1 else i)
    return blocks, info, succ, {t.name for t in ar}


def live_spec(info, succ, arrays):
    """per block: (live in, live out, live after each statement) for scalars exactly; for arrays the pair of a lower bound
    (cells some path reads after a write on some path before) and an upper bound (some path reads)"""
    n = len(succ)
    R = sorted(reach(succ, 0))
    # arrays written on some path before a point
    win = {b: set() for b in R}
    changed = True
    while changed:
        changed = False
        for b in R:
            o = win[b] | {t for k, t, _, _ in info[b][0] if k == "a"}
            for v in succ[b]:
                if not o <= win[v]:
                    win[v] |= o
                    changed = True
    wany = {t for b in R for k, t, _, _ in info[b][0] if k == "a"}
    # statement-level least fixpoint: points (b, i), i = len(statements) is the test
    live = {(b, i): set() for b in R for i in range(len(info[b][0]) + 1)}       # before point
    changed = True
    while changed:
        changed = False
        for b in reversed(R):
            st, tu = info[b]
            w = [set(win[b])]
            for k, t, _, _ in st:
                w.append(w[-1] | ({t} if k == "a" else set()))
            for i in range(len(st), -1, -1):
                if i == len(st):
                    out = set()
                    for v in succ[b]:
                        out |= live[v, 0]
                    # an array nothing has written yet holds no value
                    out = {x for x in out if x not in arrays or x in w[i] or x not in wany}
                    new = out | tu
                else:
                    k, t, u, e = st[i]
                    out = live[b, i + 1]
                    new = set(out)
                    if e or k == "w" or t in out:
                        if k == "s":
                            new.discard(t)
                        elif k == "a" and t not in w[i]:
                            new.discard(t)      # the first write on every path
                        new |= u
                if not new <= live[b, i]:
                    live[b, i] |= new
                    changed = True
    return R, live, win


def check_liveness(k):
    from sonolus.backend._opt import analysis
    from sonolus.backend.optimize import flow
    blocks, info, succ, arrays = program(k)
    R0 = reach(succ, 0)
    exits = any(not succ[b] for b in R0)
    try:
        d = analysis.liveness_debug(blocks[0])
    except ValueError as e:
        return None if not exits and "Infinite loop" in str(e) else f"rejected: {e}", 0
    pos = {b: i for i, b in enumerate(blocks)}
    rpo = [pos[b] for b in flow.traverse_cfg_reverse_postorder(blocks[0])]
    R, live, win = live_spec(info, succ, arrays)
    roots = sorted(d["stmt_live"])
    if len(roots) != sum(len(info[b][0]) for b in rpo):
        return f"{len(roots)} statements analysed", 0
    q = iter(roots)
    for i, b in enumerate(rpo):
        st, tu = info[b]
        if d["live_in"][i] != live[b, 0]:
            return f"live into block {b}: {sorted(d['live_in'][i])}, expected {sorted(live[b, 0])}", 1
        out = set()
        for v in succ[b]:
            out |= live[v, 0]
        if d["live_out"][i] != out:
            return f"live out of block {b}: {sorted(d['live_out'][i])}, expected {sorted(out)}", 1
        for j in range(len(st)):
            idx = next(q)
            if d["stmt_live"][idx] != live[b, j + 1]:
                return f"live after statement {j} of block {b}: {sorted(d['stmt_live'][idx])}, expected {sorted(live[b, j + 1])}", 1
            if st[j][0] == "a":
                w = set(win[b]) | {t for kk, t, _, _ in st[:j] if kk == "a"}
                if d["is_array_init"][idx] != (st[j][1] not in w):
                    return f"first-write flag of statement {j} of block {b}", 1
    return None, 1


def liveness(lo, secs):
    import time
    t0 = time.time()
    bad, cnt, nt, k = [], 0, 0, lo
    while time.time() - t0 < secs and not bad:
        try:
            w, ok = check_liveness(k)
        except Exception as e:  # noqa: BLE001
            w, ok = repr(e), 0
        cnt += 1
        nt += ok
        if w:
            from sonolus.backend.optimize.flow import cfg_to_text
            blocks = program(k)[0]
            bad.append({"key": "liveness", "what": f"program {k}: {w}", "input": {"instance": k, "graph": cfg_to_text(blocks[0])}})
        k += 1
    return {"violations": bad, "bounded": {"name": "liveness", "evaluations": cnt, "distinct": nt, "samples": [f"program {k}"], "bound": "1-8 blocks, up to 66 scalars and 2 arrays"}}


def tasks(tier, seed):
    q = tier == "quick"
    ts = [Task("real", "small", n, 0, 1, True, timeout=200) for n in (1, 2, 3)]
    ts += [Task("real", "small", 4, i, 8, not q, timeout=700) for i in range(8)]
    ts += [Task("real", "larger", seed * 10**6 + i * 10**4, 12 if q else 200, timeout=400) for i in range(4)]
    ts += [Task("real", "liveness", seed * 10**7 + i * 10**6, 12 if q else 200, timeout=400) for i in range(4)]
    return ts


def replay(o):
    return {}

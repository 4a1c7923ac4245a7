"""C05: the node table decodes to exactly the trees put in.

Invariant Inv(nodes, indexes): every argument index of an entry is below the entry's own index, and
indexes[t] = i implies decode(nodes, i) = t.
Contract of OutputNodeGenerator.add(t): requires Inv; ensures Inv, decode(nodes, result) = t, nodes' extends nodes
(entries already there unchanged), and indexes[t] = result.
``add`` is executed with its recursive calls replaced by that contract (an arbitrary extension of the
table), and with ``indexes`` an arbitrary mapping satisfying Inv."""
from vp.check import Task
from vp.checks.common import *  # noqa: F403

META = {
    "level": "proof",
    "functions": ["OutputNodeGenerator.add", "OutputNodeGenerator.get", "OutputNodeGenerator.__init__", "build.node._OP_VALUE"],
    "trusted": ["z3", "Python dict: get/[]= by equality", "induction on tree height (recursive calls replaced by the contract)"],
    "assumptions": ["argument lists are checked to length 4 (the comprehension is uniform in the length)",
                    "trees equal under Python == (1 and 1.0, 0.0 and -0.0) are the same tree; NaN never reaches the table (C04)"],
    "rule": "bounded part: random forests with shared subtrees added to one table, decoded from the final table; non-trivial when a tree has depth >= 2",
}


def tasks(tier, seed):
    return [Task("real", "prove", timeout=200), Task("real", "prove_ops", timeout=60)] + [
        Task("real", "sweep", seed * 10 + i, 1500 if tier == "quick" else 40000, timeout=600) for i in range(2 if tier == "quick" else 8)]


def prove():
    import z3
    from vp.sym import Ctx, SBool
    from sonolus.build.node import OutputNodeGenerator
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    res = []
    for n in list(range(5)) + ["value"]:
        c = Ctx(f"add/{n}", budget_s=60)

        def run(n=n):
            pick = lambda s: bool(SBool(z3.Bool(s)))

            class Sub:
                """an arbitrary tree"""

                def __init__(self, k):
                    self.k = k

            class Entry(dict):
                """an entry of the table with the tree it decodes to (Inv)"""

                def __init__(self, tree):
                    super().__init__(opaque=True)
                    self.tree = tree

            old = [Entry(Sub(("old", i))) for i in range(2)]
            tree = 0.25 if n == "value" else FunctionNode(Op.Add, tuple(Sub(i) for i in range(n)))
            # two arguments may be the same tree
            if n not in ("value", 0, 1) and pick("same_args"):
                a = list(tree.args)
                a[1] = a[0]
                tree = FunctionNode(Op.Add, tuple(a))
            present = pick("present")

            class Indexes:
                def __init__(self):
                    self.new = []

                def get(self, k, d=None):
                    for kk, v in self.new:
                        if kk is k or kk == k:
                            return v
                    if isinstance(k, Sub):
                        raise LookupError("lookup of an arbitrary subtree outside the recursive call")
                    if present and k == tree:
                        return 1
                    return d

                def __contains__(self, k):
                    return self.get(k) is not None

                def __getitem__(self, k):
                    r = self.get(k)
                    if r is None:
                        raise KeyError
                    return r

                def __setitem__(self, k, v):
                    c.prove("index-entry-decodes-to-key", eq(decode(g.nodes, v), k))
                    self.new.append((k, v))

            def decode(nodes, i):
                e = nodes[i]
                if isinstance(e, Entry):
                    return e.tree
                if "value" in e:
                    return e["value"]
                return FunctionNode(Op(e["func"]), tuple(decode(nodes, k) for k in e["args"]))

            def eq(a, b):
                if isinstance(a, FunctionNode) and isinstance(b, FunctionNode):
                    return a.func is b.func and len(a.args) == len(b.args) and all(eq(x, y) for x, y in zip(a.args, b.args))
                if isinstance(a, Sub) or isinstance(b, Sub):
                    return a is b
                return type(a) is not FunctionNode and type(b) is not FunctionNode and a == b

            class G(OutputNodeGenerator):
                def add(self, node):
                    if isinstance(node, Sub):
                        # the contract: an arbitrary extension of the table, then an entry decoding to node
                        for k, e in enumerate(self.nodes):
                            if isinstance(e, Entry) and e.tree is node:
                                return k
                        if pick(f"extends{node.k}"):
                            self.nodes.append(Entry(Sub(("mid", node.k))))
                        if present_before(node.k):
                            self.nodes[0].tree = node
                            return 0
                        self.nodes.append(Entry(node))
                        return len(self.nodes) - 1
                    return super().add(node)

            used = []

            def present_before(k):
                """the subtree may already be in the table"""
                if used and used[0] != k:
                    return False
                if pick(f"shared{k}"):
                    used.append(k)
                    return True
                return False

            g = G()
            if present:
                old[1].tree = tree
            g.nodes = list(old)
            g.indexes = Indexes()
            before = list(g.nodes)
            r = g.add(tree)
            c.cover("path")
            c.prove("result-is-an-index", isinstance(r, int) and not isinstance(r, bool) and 0 <= r < len(g.nodes))
            c.prove("decodes-to-tree", eq(decode(g.nodes, r), tree))
            c.prove("extends-table", all(x is y for x, y in zip(before, g.nodes)) and len(g.nodes) >= len(before))
            c.prove("arguments-precede", all(all(0 <= k < i for k in e["args"]) for i, e in enumerate(g.nodes) if not isinstance(e, Entry) and "args" in e))
            c.prove("equal-trees-share", g.add(tree) == r)
            c.prove("get-returns-table", g.get() is g.nodes or list(g.get()) == list(g.nodes))
        c.run(run)
        res.append(pack(c))
    # initial state
    c = Ctx("init", budget_s=10)

    def init():
        g = OutputNodeGenerator()
        c.prove("empty", len(g.nodes) == 0 and len(g.indexes) == 0)
        g2 = OutputNodeGenerator()
        g2.add(1)
        c.prove("tables-independent", len(OutputNodeGenerator().nodes) == 0 and len(g.nodes) == 0 and len(g.indexes) == 0)
    c.run(init)
    return merge(*res, pack(c))


def prove_ops():
    """function names: a finite table, checked completely"""
    from vp.sym import Ctx
    from sonolus.build.node import OutputNodeGenerator
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    c = Ctx("op-names")

    def run():
        names = set()
        for op in Op:
            g = OutputNodeGenerator()
            i = g.add(FunctionNode(op, ()))
            f = g.get()[i]["func"]
            c.prove(f"{op.name}", f == op.value and f not in names and type(f) is str or f == str(op))
            names.add(f)
    c.run(run)
    return pack(c)


def _tree(r, d, pool):
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    if pool and r.random() < 0.3:
        return r.choice(pool)
    if d == 0 or r.random() < 0.2:
        return r.choice([0, 1, 2, -1, 0.5, 1e300, 3, 1.0, 10**20, -7.25, 255, 65535, -2, -1.0, -2.0, 2**61 - 1, 2**61, 1 - 2**61, 314159, 0.1, 0.1 + 2**-56])
    ops = [Op.Add, Op.Execute, Op.Get, Op.Set, Op.Block, Op.JumpLoop, Op.If]
    t = FunctionNode(r.choice(ops), tuple(_tree(r, d - 1, pool) for _ in range(r.randint(0, 4))))
    pool.append(t)
    return t


def _decode(nodes, i, lim):
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    e = nodes[i]
    if "value" in e:
        return e["value"]
    for k in e["args"]:
        if not 0 <= k < i:
            raise ValueError(f"entry {i} refers to {k}")
    return FunctionNode(Op(e["func"]), tuple(_decode(nodes, k, i) for k in e["args"]))


def sweep(seed, n):
    import json
    from sonolus.build.node import OutputNodeGenerator
    r = random.Random(seed)
    ev, nt, viol, samples = 0, set(), [], []
    for _ in range(n):
        g = OutputNodeGenerator()
        pool, items = [], []
        for _ in range(r.randint(1, 8)):
            t = _tree(r, r.randint(0, 4), pool)
            # an equal but distinct tree
            if r.random() < 0.3 and items:
                t = _copy(r.choice(items)[0])
            items.append((t, g.add(t)))
            ev += 1
            if str(t).count("(") > 2:
                nt.add(str(t))
        nodes = json.loads(json.dumps(g.get()))
        what = None
        for t, i in items:
            try:
                d = _decode(nodes, i, len(nodes))
            except (ValueError, IndexError) as e:
                what = repr(e)
                break
            if d != t:
                what = f"index {i} decodes to {d}, not {t}"
                break
        if not what:
            seen = {}
            for t, i in items:
                if seen.setdefault(t, i) != i:
                    what = f"{t} has two indices"
            fl = [json.dumps(e, sort_keys=True) for e in nodes]
            if len(set(fl)) != len(fl):
                what = "two entries are equal"
        if what:
            viol.append({"key": "table", "what": what, "input": repr([t for t, _ in items])})
            break
        if len(samples) < 2:
            samples.append(str(items[0])[:300])
    return {"violations": viol, "bounded": {"name": "random forests", "evaluations": ev, "distinct": len(nt), "samples": samples,
                                            "bound": "depth <= 4, up to 8 trees"}}


def _copy(t):
    from sonolus.backend.node import FunctionNode
    return FunctionNode(t.func, tuple(_copy(a) for a in t.args)) if isinstance(t, FunctionNode) else t


def replay(o):
    for s in range(20):
        v = sweep(s, 500)
        if v["violations"]:
            return v
    return {}

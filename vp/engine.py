"""Whole engines built from archetypes and callbacks as ``sonolus build`` does; a packaged callback is decoded and run."""
import gzip
import json
import struct

from vp import front


def node_of(nodes, i):
    """the node tree of a packaged callback"""
    from sonolus.backend.node import FunctionNode
    from sonolus.backend.ops import Op
    ops = {op.value: op for op in Op}
    memo = {}
    for k in range(len(nodes)):
        n = nodes[k]
        if "func" in n:
            if any(a >= k for a in n["args"]):
                raise ValueError(f"node {k} refers to a later node")
            memo[k] = FunctionNode(ops[n["func"]], tuple(memo[a] for a in n["args"]))
        else:
            memo[k] = n["value"]
    return memo[i]


class Built:
    def __init__(self, play=(), watch=(), preview=(), update_spawn=None, tutorial=None, level="standard", checks="none", options=None, validate=False):
        from sonolus.build import engine as be
        from sonolus.script import engine as se
        from sonolus.script.project import BuildConfig
        from sonolus.script.internal.context import RuntimeChecks
        front.setup()
        passes = None
        cfgkw = {}
        import sonolus.backend.optimize as opt
        passes = {"minimal": opt.MINIMAL_PASSES, "fast": opt.FAST_PASSES, "standard": opt.STANDARD_PASSES}[level]
        cfgkw["passes"] = passes
        cfg = BuildConfig(runtime_checks=RuntimeChecks(checks), **cfgkw)
        d = se.default_callback
        tut = tutorial or (d, d, d)
        kw = {} if options is None else {"options": options}
        data = se.EngineData(play=se.PlayMode(archetypes=list(play)), watch=se.WatchMode(archetypes=list(watch), update_spawn=update_spawn or d),
                             preview=se.PreviewMode(archetypes=list(preview)), tutorial=se.TutorialMode(preprocess=tut[0], navigate=tut[1], update=tut[2]), **kw)
        if validate:
            be.validate_engine(data, cfg)
            return
        self.packaged = p = be.package_engine(data, cfg)
        self.data = {m: json.loads(gzip.decompress(getattr(p, m + "_data"))) for m in ("play", "watch", "preview", "tutorial")}
        raw = gzip.decompress(p.rom)
        self.rom = list(struct.unpack(f"<{len(raw) // 4}f", raw))

    def callback(self, mode, archetype, name):
        d = self.data[mode]
        if archetype is None:
            i = d[name]
        else:
            i = next(a for a in d["archetypes"] if a["name"] == archetype)[name]["index"]
        return node_of(d["nodes"], i)

    def run(self, mode, archetype, name, blocks, fuel=20):
        from sonolus.backend.interpret import Interpreter
        from vp.checks.pipe import limit
        it = Interpreter()
        it.blocks[3000] = list(self.rom)
        for b, v in blocks.items():
            it.blocks[b] = list(v)
        with limit(fuel):
            ret = it.run(self.callback(mode, archetype, name))
        return ret, it

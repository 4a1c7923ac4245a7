"""Shared by demos: compile functions with the front end, run them at every level. Import before sonolus.script."""
import inspect
_orig = inspect.get_annotations


def _get_annotations(obj, *, globals=None, locals=None, eval_str=False):
    # Python 3.12 does not resolve a class's own type parameters here
    if eval_str and (isinstance(obj, type) or callable(obj)) and getattr(obj, "__type_params__", ()):
        loc = {p.__name__: p for p in obj.__type_params__}
        if locals is None and isinstance(obj, type):
            loc.update(vars(obj))
        elif locals is not None:
            loc.update(locals)
        locals = loc
    return _orig(obj, globals=globals, locals=locals, eval_str=eval_str)


inspect.get_annotations = _get_annotations
from sonolus.backend.interpret import Interpreter
from sonolus.backend.mode import Mode
from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize
from sonolus.backend.place import BlockPlace
from sonolus.build.compile import callback_to_cfg
from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks
from sonolus.script.internal.impl import validate_value
from sonolus.script.internal.meta_fn import meta_fn
from sonolus.script.num import Num


@meta_fn
def inp(i):
    return Num._from_place_(BlockPlace(100, int(validate_value(i)._as_py_()), 0))


@meta_fn
def out(i, v):
    Num._from_place_(BlockPlace(200, int(validate_value(i)._as_py_()), 0))._set_(validate_value(v))


def run(fn, inputs=(), checks="NONE", mode="PLAY", callback="", fuel=None):
    """{level: (outputs, log)}"""
    res = {}
    for name, lev in (("minimal", MINIMAL_PASSES), ("fast", FAST_PASSES), ("standard", STANDARD_PASSES)):
        ps = ProjectContextState(runtime_checks=RuntimeChecks[checks])
        cfg = callback_to_cfg(ps, ModeContextState(Mode[mode]), fn, callback)
        node = optimize_and_finalize(cfg, lev, OptimizerConfig(mode=Mode[mode], callback=callback))
        it = Interpreter()
        it.blocks[3000] = list(ps.rom.values)
        it.blocks[100] = list(inputs)
        it.run(node)
        res[name] = (list(it.blocks.get(200, [])), list(it.log))
    return res

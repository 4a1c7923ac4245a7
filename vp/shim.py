import inspect, sys, types, functools
_orig = inspect.get_annotations
def get_annotations(obj, *, globals=None, locals=None, eval_str=False):
    if eval_str and (isinstance(obj, type) or callable(obj)) :
        tp = getattr(obj, "__type_params__", ())
        if tp:
            loc = {p.__name__: p for p in tp}
            if locals is None and isinstance(obj, type): loc.update(vars(obj))
            elif locals is not None: loc.update(locals)
            locals = loc
    return _orig(obj, globals=globals, locals=locals, eval_str=eval_str)
inspect.get_annotations = get_annotations

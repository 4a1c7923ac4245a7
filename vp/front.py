"""Compiles Python functions with the repository's own front end (as ``sonolus.build`` does) so that
their control flow graphs can be executed: inputs are read from block IN, results written to block OUT."""
from vp import shim  # noqa: F401

IN, OUT, DONE = 100, 200, 300


def setup():
    from sonolus.script.internal.visitor import clear_frontend_caches
    clear_frontend_caches()


def compile_fn(fn, mode="PLAY", callback="", checks="NONE", archetypes=None, archetype=None):
    """(cfg entry, rom values)"""
    from sonolus.backend.mode import Mode
    from sonolus.build.compile import callback_to_cfg
    from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks
    setup()
    ps = ProjectContextState(runtime_checks=RuntimeChecks[checks])
    ms = ModeContextState(Mode[mode], archetypes)
    cfg = callback_to_cfg(ps, ms, fn, callback, archetype) if archetype is not None else callback_to_cfg(ps, ms, fn, callback)
    return cfg, list(ps.rom.values)


_api = None


def api():
    """functions usable inside compiled code: inp(i), inps(T, i), out(i, v), done()"""
    global _api
    if _api is not None:
        return _api
    from sonolus.backend.place import BlockPlace
    from sonolus.script.internal.impl import validate_value
    from sonolus.script.internal.meta_fn import meta_fn
    from sonolus.script.num import Num

    from sonolus.script.internal.context import ctx

    @meta_fn
    def inp(i):
        """the number in input cell i"""
        if not ctx():
            return _plain[0].get(int(i), -1.0)
        return Num._from_place_(BlockPlace(IN, int(validate_value(i)._as_py_()), 0))

    @meta_fn
    def inps(t, i):
        """the value of type t stored from input cell i on"""
        if not ctx():
            k = int(i)
            t = validate_concrete_type_(t)
            return t._from_list_(iter([_plain[0].get(k + j, -1.0) for j in range(t._size_())]))
        from sonolus.script.internal.generic import validate_concrete_type
        t = t._as_py_() if hasattr(t, "_as_py_") else t
        return validate_concrete_type(t)._from_place_(BlockPlace(IN, int(validate_value(i)._as_py_()), 0))

    @meta_fn
    def out(i, v):
        """writes a number, record, array or tuple to output cells from i on; returns the next free cell"""
        if not ctx():
            return _put_plain(int(i), v)
        v = validate_value(v)
        k = int(validate_value(i)._as_py_())
        return _put(k, v)

    def validate_concrete_type_(t):
        from sonolus.script.internal.generic import validate_concrete_type
        return validate_concrete_type(t)

    def _put_plain(k, v):
        if isinstance(v, (tuple, list)):
            for x in v:
                k = _put_plain(k, x)
            return k
        if isinstance(v, (int, float)):
            _plain[1][k] = float(v)
            return k + 1
        for x in v._to_list_():
            _plain[1][k] = float(x)
            k += 1
        return k

    def _put(k, v):
        from sonolus.script.internal.tuple_impl import TupleImpl
        if isinstance(v, TupleImpl):
            for x in v.value:
                k = int(_put(k, x)._as_py_())
            return Num(k)
        t = type(v)
        tgt = t._from_place_(BlockPlace(OUT, k, 0))
        if t._is_value_type_():
            tgt._set_(v)
        else:
            tgt._copy_from_(v)
        return Num(k + t._size_())

    @meta_fn
    def done(k):
        if not ctx():
            _plain[2] = 1
            return
        Num._from_place_(BlockPlace(DONE, 0, 0))._set_(Num(int(validate_value(k)._as_py_())))

    _api = dict(inp=inp, inps=inps, out=out, done=done)
    return _api


_plain = [{}, {}, 0]


def plain(fn, inputs):
    """{output cell: number} of running the function as ordinary Python"""
    _plain[:] = [dict(inputs), {}, 0]
    fn()
    return dict(_plain[1])


CALLS = 500


def call(cid, args, n):
    """inside a meta function: a call known by its contract only; the handler registered under ``cid`` gets the argument
    values when it is executed and provides the n results"""
    from sonolus.backend.ir import IRInstr
    from sonolus.backend.ops import Op
    from sonolus.script.internal.context import ctx
    from sonolus.script.num import Num
    ctx().add_statements(IRInstr(Op.DebugLog, [Num(cid).ir(), *[a.ir() for a in args]]))
    from sonolus.backend.place import BlockPlace
    return [Num._from_place_(BlockPlace(CALLS, 16 * cid + j, 0))._get_() for j in range(n)]


_src_dir = None
_src_count = 0


def src_fn(code, ns, name="f"):
    """a function defined from source text (the front end re-reads the file a function was defined in)"""
    global _src_dir, _src_count
    if _src_dir is None:
        import atexit
        import shutil
        import tempfile
        _src_dir = tempfile.mkdtemp(prefix="vpsrc")
        atexit.register(shutil.rmtree, _src_dir, True)
    _src_count += 1
    fn = f"{_src_dir}/s{_src_count}.py"
    with open(fn, "w") as f:
        f.write(code)
    exec(compile(code, fn, "exec"), ns)
    return ns[name]

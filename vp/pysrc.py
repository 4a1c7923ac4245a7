"""Loads a Python module of the repository so that symbolic values can flow through it.

The module's own source is parsed on every run and executed unchanged except that calls to
the builtins int/float/isinstance/type and the ``math`` module are bound to versions that also
accept symbolic values, and a membership test against a literal set is read as one against
the tuple of its elements (same result, no hashing).
"""
import ast
import importlib
import importlib.util
import sys
import types

from vp import sym


class _T(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords:
            n.func.id = "_vp_type"
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.Set):
            s = n.comparators[0]
            n.comparators[0] = ast.copy_location(ast.Tuple(s.elts, ast.Load()), s)
        return n


def load(modname, extra=None, as_name=None):
    """a fresh symbolic-capable instance of the module"""
    spec = importlib.util.find_spec(modname)
    src = open(spec.origin).read()
    tree = _T().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    m = types.ModuleType(as_name or (modname + "#sym"))
    m.__file__ = spec.origin
    m.__package__ = modname.rsplit(".", 1)[0]
    m.__dict__.update(int=_IntType, float=_FloatType, isinstance=sym.s_isinstance, _vp_type=_type)
    m.__dict__.update(extra or {})
    sys.modules[m.__name__] = m
    exec(compile(tree, spec.origin, "exec"), m.__dict__)
    for k, v in list(m.__dict__.items()):
        if v is sys.modules.get("math"):
            m.__dict__[k] = sym.MATH
    return m


class _Meta(type):
    def __call__(cls, *a):
        return cls._conv(*a)

    def __instancecheck__(cls, x):
        return sym.s_isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class _IntType(metaclass=_Meta):
    _real = int
    _conv = staticmethod(sym.s_int)

    def __class_getitem__(cls, i):
        return cls


class _FloatType(metaclass=_Meta):
    _real = float
    _conv = staticmethod(sym.s_float)


def _type(x):
    """type(x), a symbolic double being a float (or an int)"""
    if isinstance(x, sym.Sym):
        if isinstance(x, sym.SBool):
            return bool
        return _IntType if sym.s_isinstance(x, int) else _FloatType
    return type(x)

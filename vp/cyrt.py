"""Runtime of the translated optimizer modules (see pyx2py): C values and memory on CPython.

Memory is typed cells; reading a cell that was never written, or outside its allocation,
raises (`MemFault`): the C code would read garbage there.  Doubles and integers may be
symbolic (objects deriving from ``Sym``); every operation dispatches to them.
"""
import ctypes.util
import math
import operator
import os
import re
import struct

__all__ = ["NULL"]  # completed below


class MemFault(Exception):
    """the C program would access memory outside an allocation or never written"""


class Sym:
    """base of symbolic values (see sym.py)"""
    __slots__ = ()


class _Uninit:
    __slots__ = ()

    def __repr__(self):
        return "<uninitialised>"

    def __bool__(self):
        raise MemFault("uninitialised value used")

    def copy_(self):
        return self


UNINIT = _Uninit()


class _Null:
    __slots__ = ()

    def __bool__(self):
        return False

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __hash__(self):
        return 0

    def __getitem__(self, i):
        raise MemFault("NULL dereference")

    __setitem__ = __getitem__

    def __repr__(self):
        return "NULL"


NULL = _Null()

_ELEM = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "bint": 4, "double": 8,
         "char": 1, "ptr": 8}


class _Raw:
    """malloc result before its cast to an element type"""
    __slots__ = ("n", "zero", "buf")

    def __init__(self, n, zero):
        self.n = n
        self.zero = zero
        self.buf = None

    def __bool__(self):
        return True


class _Buf:
    __slots__ = ("a", "n", "ty", "size", "live")

    def __init__(self, ty, size, n, zero=False):
        self.ty = ty
        self.size = size
        self.n = n
        self.live = True
        if isinstance(ty, str):
            z = (0.0 if ty == "double" else NULL if ty == "ptr" else 0) if zero else UNINIT
            self.a = [z] * n
        else:
            self.a = [ty(zero) for _ in range(n)]

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if i.__class__ is not int:
            i = _index(i)
        if i < 0 or i >= self.n or not self.live:
            raise MemFault(f"read at {i} of {self.n} x {self.ty}" + ("" if self.live else " (freed)"))
        v = self.a[i]
        if v is UNINIT:
            raise MemFault(f"read of unwritten element {i} of {self.ty}")
        return v

    def __setitem__(self, i, v):
        if i.__class__ is not int:
            i = _index(i)
        if i < 0 or i >= self.n or not self.live:
            raise MemFault(f"write at {i} of {self.n} x {self.ty}" + ("" if self.live else " (freed)"))
        self.a[i] = v

    def __eq__(self, o):
        if o.__class__ is _Ptr:
            return o.b is self and o.o == 0
        return o is self

    __hash__ = None


class _Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o):
        self.b = b
        self.o = o

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self.b[self.o + i]

    def __setitem__(self, i, v):
        self.b[self.o + i] = v

    def __eq__(self, o):
        if o.__class__ is _Ptr:
            return o.b is self.b and o.o == self.o
        return o is self.b and self.o == 0

    __hash__ = None


def _index(i):
    if isinstance(i, Sym):
        return i._concretise_()
    return operator.index(i)


class _ObjPtr:
    """address of a struct variable"""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, i):
        if i != 0:
            raise MemFault("struct pointer offset")
        return self.obj

    def __setitem__(self, i, v):
        if i != 0:
            raise MemFault("struct pointer offset")
        for f in self.obj._fields_:
            setattr(self.obj, f, getattr(v, f))


class _FieldRef:
    __slots__ = ("obj", "f")

    def __init__(self, obj, f):
        self.obj = obj
        self.f = f

    def __getitem__(self, i):
        if i != 0:
            raise MemFault("field pointer offset")
        return getattr(self.obj, self.f)

    def __setitem__(self, i, v):
        if i != 0:
            raise MemFault("field pointer offset")
        setattr(self.obj, self.f, v)


class _Cell:
    """an address-taken local"""
    __slots__ = ("ty", "v_")

    def __init__(self, ty, v=UNINIT):
        self.ty = ty
        self.v_ = v

    @property
    def v(self):
        if self.v_ is UNINIT:
            raise MemFault("read of unwritten local")
        return self.v_

    @v.setter
    def v(self, x):
        self.v_ = x

    def __getitem__(self, i):
        if i != 0:
            raise MemFault("cell offset")
        return self.v

    def __setitem__(self, i, x):
        if i != 0:
            raise MemFault("cell offset")
        self.v_ = x


def _carray(ty, n):
    return _Buf(ty, _ELEM[ty] if isinstance(ty, str) else ty._size_, n)


def _mkstruct(name, fields, size):
    names = tuple(f for f, _ in fields)
    ns = {"__slots__": names, "_fields_": names, "_size_": size}
    zeros = tuple(0.0 if t == "double" else 0 for _, t in fields)

    def __init__(self, zero=False):
        for f, z in zip(names, zeros):
            setattr(self, f, z if zero else UNINIT)

    def copy_(self):
        r = cls.__new__(cls)
        for f in names:
            setattr(r, f, getattr(self, f))
        return r

    ns["__init__"] = __init__
    ns["copy_"] = copy_
    ns["__repr__"] = lambda self: f"{name}(" + ", ".join(f"{f}={getattr(self, f)!r}" for f in names) + ")"
    cls = type(name, (), ns)
    return cls


class _CClass:
    _c_attrs_ = []

    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        for k in reversed(cls.__mro__):
            for a, z in k.__dict__.get("_c_attrs_", ()):
                setattr(self, a, NULL if z == "NULL" else z)
        ci = getattr(cls, "__cinit__", None)
        if ci is not None:
            ci(self, *args, **kw)
        return self


# -- integer and floating conversions ------------------------------------------
def _mkcv(kind):
    bits = int(kind[1:])
    signed = kind[0] == "i"
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    mask = (1 << bits) - 1
    half = 1 << bits - 1

    def cv(x):
        """implicit conversion to the integer type"""
        c = x.__class__
        if c is int:
            if lo <= x <= hi:
                return x
            x &= mask
            return x - mask - 1 if signed and x >= half else x
        if c is bool:
            return int(x)
        if c is float:
            if x != x or x in (math.inf, -math.inf) or not (lo - 1 < x < hi + 1):
                raise MemFault(f"undefined conversion of {x} to {kind}")
            return int(x)
        if isinstance(x, Sym):
            return x._to_int_(kind, lo, hi)
        if x is UNINIT:
            raise MemFault("uninitialised value used")
        return cv(operator.index(x))

    return cv


for _k in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
    globals()["_cv_" + _k] = globals()["_cast_" + _k] = _mkcv(_k)
_cv_char = _cast_char = globals()["_cv_i8"]
_wrap_u32 = globals()["_cv_u32"]
_wrap_u64 = globals()["_cv_u64"]


def _cv_bint(x):
    if x.__class__ is bool or x.__class__ is int:
        return x
    if isinstance(x, Sym):
        return x._to_bint_()
    return 1 if x else 0


_cast_bint = _cv_bint


def _cv_double(x):
    c = x.__class__
    if c is float:
        return x
    if c is int or c is bool:
        return float(x)
    if isinstance(x, Sym):
        return x._to_double_()
    if x is UNINIT:
        raise MemFault("uninitialised value used")
    return float(x)


_cast_double = _cv_double


def _cast_float(x):
    if isinstance(x, Sym):
        return x._to_f32_()
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def _fdiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return _symdbl(a)._fp_div_(b) if isinstance(a, Sym) else _symdbl(b)._fp_rdiv_(a)
    a = float(a)
    b = float(b)
    if b == 0.0:
        if a != a or a == 0.0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def _symdbl(x):
    return x._to_double_()


def _ffloordiv(a, b):
    return _cmath_floor(_fdiv(a, b))


def _cidiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a._c_div_(b) if isinstance(a, Sym) else b._c_rdiv_(a)
    if b == 0:
        raise MemFault("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _cimod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a._c_mod_(b) if isinstance(a, Sym) else b._c_rmod_(a)
    return a - b * _cidiv(a, b)


def _cfmod(a, b):
    return _cmath_fmod(a, b)


def _chk_unpack(t, n):
    if len(t) != n:
        raise ValueError(f"unpack {len(t)} into {n}")


# -- libm -----------------------------------------------------------------------
import ctypes  # noqa: E402

_libm = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
_cmath_M_PI = math.pi


def _mkmath(name, nargs):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * nargs
    if nargs == 1:
        def g(x):
            if isinstance(x, Sym):
                return x._cmath_(name, x)
            return f(x)
    else:
        def g(x, y):
            if isinstance(x, Sym) or isinstance(y, Sym):
                return (x if isinstance(x, Sym) else y)._cmath_(name, x, y)
            return f(x, y)
    return g


for _k in ("floor", "fabs", "round", "trunc", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
           "sqrt", "log", "exp", "ceil", "nearbyint", "rint", "exp2", "log2", "log10", "cbrt"):
    globals()["_cmath_" + _k] = _mkmath(_k, 1)
for _k in ("fmod", "pow", "atan2", "copysign", "fmin", "fmax", "remainder", "hypot"):
    globals()["_cmath_" + _k] = _mkmath(_k, 2)


def _mkpred(name, f):
    def g(x):
        if isinstance(x, Sym):
            return x._cmath_(name, x)
        return 1 if f(float(x)) else 0
    return g


_cmath_isnan = _mkpred("isnan", math.isnan)
_cmath_isinf = _mkpred("isinf", math.isinf)
_cmath_isfinite = _mkpred("isfinite", math.isfinite)
_cmath_signbit = _mkpred("signbit", lambda x: math.copysign(1.0, x) < 0)
_cmath_INFINITY = math.inf
_cmath_NAN = math.nan
_cmath_HUGE_VAL = math.inf


# -- allocation -------------------------------------------------------------------
def _c_malloc(n):
    return _Raw(_index(n), False)


def _c_calloc(n, s):
    return _Raw(_index(n) * _index(s), True)


def _c_realloc(p, n):
    n = _index(n)
    if p is NULL:
        return _Raw(n, False)
    if isinstance(p, _Raw):
        p = _Raw(n, p.zero) if p.buf is None else p.buf
        if isinstance(p, _Raw):
            return p
    if isinstance(p, _Ptr):
        raise MemFault("realloc of an interior pointer")
    m = n // p.size
    if isinstance(p.ty, str):
        p.a = p.a[:m] + [UNINIT] * (m - len(p.a))
    else:
        p.a = p.a[:m] + [p.ty() for _ in range(m - len(p.a))]
    p.n = m
    return p


def _c_free(p):
    if p is NULL:
        return
    if isinstance(p, _Raw):
        p = p.buf
        if p is None:
            return
    if not isinstance(p, _Buf):
        raise MemFault("free of an interior pointer")
    if not p.live:
        raise MemFault("double free")
    p.live = False


def _castp(p, ty, size):
    if p is NULL:
        return NULL
    if isinstance(p, _Raw):
        if p.buf is None:
            p.buf = _Buf(ty, size, p.n // size, p.zero)
        return p.buf
    if isinstance(p, (_Buf, _Ptr)):
        b = p if isinstance(p, _Buf) else p.b
        if b.ty is not ty and b.ty != ty and ty != "void":
            raise MemFault(f"pointer reinterpreted from {b.ty} to {ty}")
        return p
    return p


def _addr(p, i):
    if i.__class__ is not int:
        i = _index(i)
    if isinstance(p, _Buf):
        return _Ptr(p, i) if i else p
    if isinstance(p, _Ptr):
        return _Ptr(p.b, p.o + i)
    if p is NULL:
        if i == 0:
            return NULL
        raise MemFault("offset from NULL")
    if i == 0:
        return p
    raise MemFault("pointer arithmetic on a scalar")


def _loc(p):
    if isinstance(p, _Raw):
        raise MemFault("untyped memory")
    if isinstance(p, _Ptr):
        return p.b, p.o
    return p, 0


def _pun(v, src, dst):
    if src == dst or v is UNINIT:
        return v
    if src == "double" and dst == "u64":
        if isinstance(v, Sym):
            return v._bits_()
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    if src == "u64" and dst == "double":
        if isinstance(v, Sym):
            return v._from_bits_()
        return struct.unpack("<d", struct.pack("<Q", v))[0]
    raise MemFault(f"memcpy {src} -> {dst}")


def _c_memcpy(d, s, n):
    n = _index(n)
    if n == 0:
        return d
    if isinstance(d, _Raw) or isinstance(s, _Raw):
        raise MemFault("memcpy of untyped memory")
    if isinstance(d, _Cell) or isinstance(s, _Cell):
        db, do = _loc(d)
        sb, so = _loc(s)
        sv = s.v_ if isinstance(s, _Cell) else sb.a[so]
        if n != _ELEM[sb.ty] or n != _ELEM[db.ty]:
            raise MemFault("memcpy size")
        v = _pun(sv, sb.ty, db.ty)
        if isinstance(d, _Cell):
            d.v_ = v
        else:
            db[do] = v
        return d
    db, do = _loc(d)
    sb, so = _loc(s)
    if db is NULL or sb is NULL:
        raise MemFault("memcpy NULL")
    k = n // db.size
    if n % db.size or db.size != sb.size or do < 0 or so < 0 or do + k > db.n or so + k > sb.n or not (db.live and sb.live):
        raise MemFault(f"memcpy of {n} bytes out of bounds")
    if isinstance(db.ty, str):
        db.a[do:do + k] = [_pun(v, sb.ty, db.ty) for v in sb.a[so:so + k]]
    else:
        db.a[do:do + k] = [v.copy_() for v in sb.a[so:so + k]]
    return d


_c_memmove = _c_memcpy


def _c_memset(d, c, n):
    n = _index(n)
    if n == 0:
        return d
    b, o = _loc(d)
    k = n // b.size
    if n % b.size or o < 0 or o + k > b.n or not b.live:
        raise MemFault("memset out of bounds")
    if b.ty == "double":
        v = struct.unpack("<d", bytes([c & 255]) * 8)[0]
    elif isinstance(b.ty, str):
        v = int.from_bytes(bytes([c & 255]) * b.size, "little", signed=b.ty[0] == "i")
    else:
        if c:
            raise MemFault("memset of structs")
        for i in range(o, o + k):
            b.a[i] = b.ty(True)
        return d
    for i in range(o, o + k):
        b.a[i] = v
    return d


def _c_memcmp(d, s, n):
    n = _index(n)
    if n == 0:
        return 0
    db, do = _loc(d)
    sb, so = _loc(s)
    k = n // db.size
    for i in range(k):
        if db[do + i] != sb[so + i]:
            return 1
    return 0


def _sonolus_ctz64(x):
    if x == 0:
        raise MemFault("ctz(0)")
    return (x & -x).bit_length() - 1


def _sonolus_pow(x, y):
    """libm pow through a pointer (kernels.pyx)"""
    return globals()["_cmath_pow"](x, y)


# -- khash (lookups only; iteration order is never used) ----------------------------
class _Kh:
    __slots__ = ("keys_", "idx", "vals", "n_buckets", "size")

    def __init__(self):
        self.keys_ = []
        self.idx = {}
        self.vals = _Buf("i32", 4, 0)
        self.n_buckets = 1 << 30
        self.size = 0

    def __getitem__(self, i):  # h[0]
        return self

    def find(self, key):
        if not isinstance(key, Sym) and not any(isinstance(k, Sym) for k in self.keys_):
            return self.idx.get(key, -1)
        for i, k in enumerate(self.keys_):
            if k is not None and (k is key or bool(k == key)):
                return i
        return -1


def _kh_init():
    return _Kh()


def _kh_get(h, key):
    i = h.find(key)
    return h.n_buckets if i < 0 else i


def _kh_put(h, key, ret):
    i = h.find(key)
    if i >= 0:
        ret[0] = 0
        return i
    i = len(h.keys_)
    h.keys_.append(key)
    if not isinstance(key, Sym):
        h.idx[key] = i
    h.vals.a.append(UNINIT)
    h.vals.n += 1
    h.size += 1
    ret[0] = 1
    return i


def _kh_clear(h):
    h.__init__()


def _kh_del(h, i):
    if 0 <= i < len(h.keys_) and h.keys_[i] is not None:
        if not isinstance(h.keys_[i], Sym):
            h.idx.pop(h.keys_[i], None)
        h.keys_[i] = None
        h.size -= 1


def _kh_none(h, *a):
    return 0


_PROVIDED = {}
for _t in ("i64i32", "i64i64", "i32i32"):
    _PROVIDED.update({f"kh_init_{_t}": _kh_init, f"kh_get_{_t}": _kh_get, f"kh_put_{_t}": _kh_put,
                      f"kh_clear_{_t}": _kh_clear, f"kh_del_{_t}": _kh_del, f"kh_destroy_{_t}": _kh_none,
                      f"kh_resize_{_t}": _kh_none})


_pending = []


def cimport(g, mod, name, asname):
    """C-level import: link-time symbol, so cycles between modules are fine"""
    import importlib
    m = importlib.import_module(mod)
    if hasattr(m, name):
        g[asname] = getattr(m, name)
    else:
        _pending.append((g, m, name, asname))


def link():
    """resolve the C-level imports that were part of a cycle"""
    for p in _pending[:]:
        g, m, name, asname = p
        if hasattr(m, name):
            g[asname] = getattr(m, name)
            _pending.remove(p)


_OPS = None
OPT_DIR = None


def load_ops(optdir):
    """opcode numbers and property tables from the generated headers"""
    global _OPS, OPT_DIR
    OPT_DIR = optdir
    out = {}
    for m in re.finditer(r"^\s+(OPX?_\w+)\s*=\s*(-?\d+)\s*$", open(os.path.join(optdir, "_ops_gen.pxd")).read(), re.M):
        out[m.group(1)] = int(m.group(2))
    hdr = open(os.path.join(optdir, "_ops_gen.h")).read()
    for m in re.finditer(r"(SONOLUS_OP_\w+)\[(\w+)\]\s*=\s*\{([^}]*)\}", hdr):
        if m.group(1) == "SONOLUS_OP_NAMES":
            v = [s.encode() for s in re.findall(r'"([^"]*)"', m.group(3))]
        else:
            v = [int(x, 0) for x in m.group(3).replace("\n", " ").split(",") if x.strip()]
        out[m.group(1)] = v
    _OPS = out


def ops_into(g):
    for k, v in _OPS.items():
        g.setdefault(k, v)
    g.update(_PROVIDED)


__all__ = [k for k in globals() if k.startswith(("_c", "_S", "_wrap", "_f", "_castp", "_addr", "_O", "_F", "_C", "_mk", "_chk", "_sonolus"))
           and k not in ("_cyrt",)] + ["NULL"]

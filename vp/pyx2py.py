"""Mechanical translation of the project's Cython optimizer sources to Python.

Run on every check against the current tree: parses the .pyx/.pxd files with the
Cython compiler's own parser and prints each function, class and constant as
Python, statement by statement.  The result is executed by CPython on the memory
model of ``cyrt`` (typed buffers, pointers, structs), with concrete doubles or with
symbolic ones (``sym``).

What the translation drops (and nothing else): ``nogil``/``except``/``noexcept``/
``inline`` annotations, ``__dealloc__`` (memory is collected), the verbatim C text of
``cdef extern from *`` blocks (the C helpers are provided by ``cyrt``), and docstrings'
position.  Integer conversions, C division/remainder, unsigned wraparound, struct value
semantics, pointer arithmetic, uninitialised memory and type punning through memcpy are kept.
"""
import os
import sys

_SITE = "/opt/venv/lib/python3.12/site-packages"
if _SITE not in sys.path:
    sys.path.append(_SITE)

from Cython.Compiler import Errors, Main, Nodes, ExprNodes as E, Options  # noqa: E402
from Cython.Compiler.Scanning import FileSourceDescriptor  # noqa: E402
from Cython.Compiler.Symtab import ModuleScope  # noqa: E402

OPT_PKG = "sonolus.backend._opt"

INT_TYPES = {
    "int8_t": "i8", "int16_t": "i16", "int32_t": "i32", "int64_t": "i64",
    "uint8_t": "u8", "uint16_t": "u16", "uint32_t": "u32", "uint64_t": "u64",
    "size_t": "u64", "Py_ssize_t": "i64", "ssize_t": "i64", "khint_t": "u32", "bint": "bint",
}
SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "bint": 4, "double": 8, "char": 1}
STRUCT_SIZE = {}

LIBC_DOUBLE = {"floor", "fabs", "fmod", "pow", "round", "trunc", "sin", "cos", "tan", "asin", "acos", "atan", "atan2",
               "sinh", "cosh", "tanh", "sqrt", "log", "exp", "ceil", "copysign", "nearbyint", "rint"}
LIBC_INT = {"isfinite", "isinf", "isnan", "signbit"}


class Unsupported(Exception):
    pass


def parse(path, pxd):
    Errors.init_thread()
    opts = Options.CompilationOptions(Options.default_options, language_level=3, cplus=True)
    ctx = Main.Context.from_options(opts)
    name = os.path.basename(path).split(".")[0]
    scope = ModuleScope(name, None, ctx)
    return ctx.parse(FileSourceDescriptor(path), scope, pxd=pxd, full_module_name=f"{OPT_PKG}.{name}")


OBJ = ("obj",)
DBL = ("double",)


def is_int(t):
    return t[0] == "int"


def is_num(t):
    return t[0] in ("int", "double")


INT = ("int", "i32")
I64 = ("int", "i64")
BINT = ("int", "bint")


class ModInfo:
    """Declarations of one module (from its .pxd and .pyx)."""

    def __init__(self, name):
        self.name = name
        self.structs = {}      # name -> {field: type}
        self.classes = {}      # name -> {attr: type}
        self.methods = {}      # class -> {method: rettype}
        self.funcs = {}        # name -> (rettype, [argtypes])
        self.globals = {}      # name -> type
        self.enums = {}        # name -> int
        self.cimports = []     # (module, name, asname)
        self.trees = {}


class Program:
    def __init__(self, optdir):
        self.optdir = optdir
        self.mods = {}
        for f in sorted(os.listdir(optdir)):
            base, ext = os.path.splitext(f)
            if ext in (".pyx", ".pxd"):
                m = self.mods.setdefault(base, ModInfo(base))
                m.trees[ext[1:]] = parse(os.path.join(optdir, f), ext == ".pxd")
        order = sorted(self.mods, key=lambda n: (n not in ("_ops_gen", "_khash"), n != "ir", n))
        # structs first over all modules, as types need them
        self.structs = {"kh_i64i32_t": {"n_buckets": ("int", "u32"), "size": ("int", "u32"),
                                        "keys": ("ptr", ("int", "u64")), "vals": ("ptr", ("int", "i32"))}}
        self.classes = {}
        for n in order:
            for ext in ("pxd", "pyx"):
                if ext in self.mods[n].trees:
                    self._collect_names(self.mods[n], self.mods[n].trees[ext])
        for n in order:
            for ext in ("pxd", "pyx"):
                if ext in self.mods[n].trees:
                    self._collect(self.mods[n], self.mods[n].trees[ext])

    # -- declarations -------------------------------------------------------
    def _stats(self, tree):
        body = tree.body if hasattr(tree, "body") else tree
        return body.stats if isinstance(body, Nodes.StatListNode) else [body]

    def _collect_names(self, m, tree):
        for s in self._stats(tree):
            if isinstance(s, Nodes.StatListNode):
                for x in s.stats:
                    if isinstance(x, Nodes.CStructOrUnionDefNode):
                        self.structs.setdefault(x.name, {})
                continue
            if isinstance(s, Nodes.CStructOrUnionDefNode):
                self.structs.setdefault(s.name, {})
            elif isinstance(s, Nodes.CClassDefNode):
                self.classes.setdefault(s.class_name, {"attrs": {}, "methods": {}, "module": m.name})

    def base_type(self, bt):
        if isinstance(bt, Nodes.CQualifierTypeNode):
            return self.base_type(bt.base_type)
        if isinstance(bt, Nodes.CConstOrVolatileTypeNode if hasattr(Nodes, "CConstOrVolatileTypeNode") else ()):
            return self.base_type(bt.base_type)
        if not isinstance(bt, Nodes.CSimpleBaseTypeNode):
            if isinstance(bt, Nodes.CComplexBaseTypeNode):
                return self.decl_type(bt.base_type, bt.declarator)[1]
            raise Unsupported(f"type node {type(bt).__name__}")
        n = bt.name
        if n is None:
            return OBJ
        if n in INT_TYPES:
            return ("int", INT_TYPES[n])
        if bt.is_basic_c_type:
            if n in ("double", "float"):
                return DBL
            if n == "void":
                return ("void",)
            if n == "char":
                return ("int", "u8" if bt.signed == 0 else "char")
            if n == "short":
                return ("int", "i16" if bt.signed else "u16")
            if n == "int":
                w = {-1: "16", 0: "32", 1: "64", 2: "64"}[bt.longness]
                return ("int", ("u" if bt.signed == 0 else "i") + w)
            if n == "object":
                return OBJ
            raise Unsupported(f"basic type {n}")
        if n in self.structs:
            return ("struct", n)
        if n in self.classes:
            return ("class", n)
        return OBJ

    def decl_type(self, base, declr):
        """(name, type, default)"""
        t = self.base_type(base)
        d = declr
        while True:
            if isinstance(d, Nodes.CNameDeclaratorNode):
                return d.name, t, d.default
            if isinstance(d, Nodes.CPtrDeclaratorNode):
                t = ("ptr", t)
                d = d.base
            elif isinstance(d, Nodes.CArrayDeclaratorNode):
                t = ("array", t, d.dimension)
                d = d.base
            elif isinstance(d, Nodes.CFuncDeclaratorNode):
                args = []
                for a in d.args:
                    args.append(self.decl_type(a.base_type, a.declarator)[1])
                t = ("func", t, args)
                d = d.base
            else:
                raise Unsupported(f"declarator {type(d).__name__}")

    def _collect(self, m, tree):
        for s in self._flat(self._stats(tree)):
            if isinstance(s, Nodes.CStructOrUnionDefNode):
                fields = self.structs[s.name]
                for a in s.attributes or []:
                    for d in a.declarators:
                        nm, t, _ = self.decl_type(a.base_type, d)
                        fields[nm] = t
                m.structs[s.name] = fields
            elif isinstance(s, Nodes.CEnumDefNode):
                v = -1
                for it in s.items:
                    v = _const_int(it.value, m.enums) if it.value is not None else v + 1
                    m.enums[it.name] = v
                    m.globals[it.name] = INT
            elif isinstance(s, Nodes.CClassDefNode):
                cl = self.classes[s.class_name]
                m.classes[s.class_name] = cl
                if s.body is not None:
                    for x in self._flat(s.body.stats if isinstance(s.body, Nodes.StatListNode) else [s.body]):
                        if isinstance(x, Nodes.CVarDefNode):
                            for d in x.declarators:
                                nm, t, _ = self.decl_type(x.base_type, d)
                                if t[0] == "func":
                                    cl["methods"][nm] = t
                                else:
                                    cl["attrs"][nm] = t
                        elif isinstance(x, Nodes.CFuncDefNode):
                            nm, t, _ = self.decl_type(x.base_type, x.declarator)
                            cl["methods"][nm] = t
            elif isinstance(s, Nodes.CFuncDefNode):
                nm, t, _ = self.decl_type(s.base_type, s.declarator)
                m.funcs[nm] = t
                m.globals[nm] = t
            elif isinstance(s, Nodes.CVarDefNode):
                for d in s.declarators:
                    nm, t, _ = self.decl_type(s.base_type, d)
                    m.globals[nm] = t
                    if t[0] == "func":
                        m.funcs[nm] = t
            elif isinstance(s, Nodes.FromCImportStatNode):
                for it in s.imported_names:
                    m.cimports.append((s.module_name, it[1], it[2] or it[1]))
            elif isinstance(s, Nodes.CDefExternNode):
                for x in self._flat(s.body.stats if isinstance(s.body, Nodes.StatListNode) else [s.body]):
                    if isinstance(x, Nodes.CVarDefNode):
                        for d in x.declarators:
                            nm, t, _ = self.decl_type(x.base_type, d)
                            m.globals[nm] = t

    def _flat(self, stats):
        for s in stats:
            if isinstance(s, Nodes.StatListNode):
                yield from self._flat(s.stats)
            else:
                yield s

    # -- name resolution over cimports -------------------------------------
    def module_scope(self, m):
        """name -> (type) visible in module m through cimports and its own declarations"""
        out = {}
        for mod, name, asname in m.cimports:
            short = mod.rsplit(".", 1)[-1]
            if mod.startswith(OPT_PKG) and short in self.mods:
                src = self.mods[short]
                if name == "*":
                    out.update(self.module_scope(src))
                    out.update(src.globals)
                elif name in src.globals:
                    out[asname] = src.globals[name]
            elif mod == "libc.math":
                if name in LIBC_DOUBLE:
                    out[asname] = ("func", DBL, [DBL, DBL])
                elif name in LIBC_INT:
                    out[asname] = ("func", INT, [DBL])
                else:
                    out[asname] = DBL
            elif mod in ("libc.stdlib", "libc.string"):
                ret = INT if name == "memcmp" else ("void",) if name in ("free",) else ("ptr", ("void",))
                out[asname] = ("func", ret, [])
        out.update(m.globals)
        return out


def _const_int(node, enums):
    if isinstance(node, E.IntNode):
        return int(node.value.rstrip("ULul"), 0)
    if isinstance(node, E.UnaryMinusNode):
        return -_const_int(node.operand, enums)
    if isinstance(node, E.NameNode):
        return enums[node.name]
    raise Unsupported("enum value")


BINOPS = {"+": "+", "-": "-", "*": "*", "&": "&", "|": "|", "^": "^", "<<": "<<", ">>": ">>", "**": "**", "@": "@"}


class Emitter:
    def __init__(self, prog, m):
        self.prog = prog
        self.m = m
        self.scope = prog.module_scope(m)
        self.lines = []
        self.ind = 0
        self.fn = None       # current local types
        self.boxed = set()
        self.rett = OBJ
        self.tmp = 0
        self.linemap = []

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    # -- types ---------------------------------------------------------------
    def ty(self, e):
        if isinstance(e, E.NameNode):
            if self.fn is not None and e.name in self.fn:
                return self.fn[e.name]
            return self.scope.get(e.name, OBJ)
        if isinstance(e, E.BoolNode):
            return BINT
        if isinstance(e, E.IntNode):
            return ("int", "lit")
        if isinstance(e, E.FloatNode):
            return DBL
        if isinstance(e, E.TypecastNode):
            return self.cast_type(e)
        if isinstance(e, E.AttributeNode):
            t = self.ty(e.obj)
            if t[0] == "ptr":
                t = t[1]
            if t[0] == "struct":
                f = self.prog.structs[t[1]].get(e.attribute)
                return f if f is not None else OBJ
            if t[0] == "class":
                c = self.prog.classes[t[1]]
                return c["attrs"].get(e.attribute) or c["methods"].get(e.attribute) or OBJ
            return OBJ
        if isinstance(e, E.IndexNode):
            t = self.ty(e.base)
            return t[1] if t[0] in ("ptr", "array") else OBJ
        if isinstance(e, E.AmpersandNode):
            return ("ptr", self.ty(e.operand))
        if isinstance(e, E.SimpleCallNode):
            t = self.ty(e.function)
            if t[0] == "func":
                return t[1]
            if isinstance(e.function, E.NameNode):
                n = e.function.name
                if n in self.prog.classes:
                    return ("class", n)
                if n == "len":
                    return I64
                if n in ("min", "max") and e.args:
                    ts = [self.ty(a) for a in e.args]
                    if all(is_int(t) for t in ts):
                        return I64
            return OBJ
        if isinstance(e, (E.PrimaryCmpNode, E.NotNode)):
            return BINT
        if isinstance(e, (E.SizeofVarNode, E.SizeofTypeNode)):
            return ("int", "u64")
        if isinstance(e, E.CondExprNode):
            a, b = self.ty(e.true_val), self.ty(e.false_val)
            return a if a == b else self.join(a, b)
        if isinstance(e, E.BoolBinopNode):
            a, b = self.ty(e.operand1), self.ty(e.operand2)
            return a if a == b else self.join(a, b)
        if isinstance(e, (E.UnaryMinusNode, E.UnaryPlusNode, E.TildeNode)):
            return self.ty(e.operand)
        if isinstance(e, E.NumBinopNode):
            a, b = self.ty(e.operand1), self.ty(e.operand2)
            if a[0] == "ptr" or b[0] == "ptr":
                return a if a[0] == "ptr" else b
            return self.join(a, b)
        return OBJ

    def join(self, a, b):
        if a[0] == "double" and is_num(b) or b[0] == "double" and is_num(a):
            return DBL
        if is_int(a) and is_int(b):
            ks = [a[1], b[1]]
            ks = [k for k in ks if k != "lit"]
            if not ks:
                return I64
            if any(k == "u64" for k in ks):
                return ("int", "u64")
            if any(k == "i64" for k in ks):
                return I64
            if any(k == "u32" for k in ks):
                return ("int", "u32")
            return INT if len(ks) == 2 or True else a
        if a[0] == "ptr":
            return a
        if b[0] == "ptr":
            return b
        return OBJ

    def cast_type(self, e):
        return self.prog.decl_type(e.base_type, e.declarator)[1]

    def sizeof(self, t):
        if t[0] == "int":
            return SIZES[t[1]]
        if t[0] == "double":
            return 8
        if t[0] == "ptr":
            return 8
        if t[0] == "struct":
            # C layout with natural alignment
            off = 0
            al = 1
            for ft in self.prog.structs[t[1]].values():
                s = self.sizeof(ft)
                off = (off + s - 1) // s * s + s
                al = max(al, s)
            return (off + al - 1) // al * al
        raise Unsupported(f"sizeof {t}")

    def tyrepr(self, t):
        """runtime descriptor of an element type"""
        if t[0] == "int":
            return repr(t[1])
        if t[0] == "double":
            return "'double'"
        if t[0] == "ptr":
            return "'ptr'"
        if t[0] == "struct":
            return f"_S_{t[1]}"
        if t[0] == "void":
            return "'void'"
        raise Unsupported(f"element type {t}")

    def conv(self, code, src, dst):
        """code of type src converted for storage in a dst"""
        if dst[0] == "int":
            if src == dst:
                return code
            if src[0] == "int":
                if src[1] == "lit":
                    return code if dst[1] not in ("u8", "u16", "u32", "u64") or not code.startswith("(-") else f"_cv_{dst[1]}({code})"
                if src[1] == "bint":
                    return code
            return f"_cv_{dst[1]}({code})"
        if dst[0] == "double":
            if src[0] == "double":
                return code
            return f"_cv_double({code})"
        if dst[0] == "struct":
            return f"({code}).copy_()"
        if dst[0] == "ptr":
            if code == "NULL":
                return code
            return code
        return code

    # -- expressions -----------------------------------------------------------
    def x(self, e):
        f = getattr(self, "x_" + type(e).__name__, None)
        if f is None:
            raise Unsupported(f"{self.m.name}: expression {type(e).__name__} at {getattr(e, 'pos', None) and e.pos[1:]}")
        return f(e)

    def x_NameNode(self, e):
        if e.name in self.boxed and e.name in (self.fn or {}):
            return f"{_id(e.name)}.v"
        if e.name == "NULL":
            return "NULL"
        return _id(e.name)

    def x_BoolNode(self, e):
        return "True" if e.value else "False"

    def x_NoneNode(self, e):
        return "None"

    def x_NullNode(self, e):
        return "NULL"

    def x_EllipsisNode(self, e):
        return "..."

    def x_IntNode(self, e):
        return str(int(str(e.value).rstrip("ULul"), 0))

    def x_FloatNode(self, e):
        return repr(float(e.value))

    def x_UnicodeNode(self, e):
        return repr(str(e.value))

    x_IdentifierStringNode = x_UnicodeNode
    x_StringNode = x_UnicodeNode

    def x_BytesNode(self, e):
        return repr(bytes(e.value, "latin1") if isinstance(e.value, str) else bytes(e.value))

    def x_AttributeNode(self, e):
        t = self.ty(e.obj)
        o = self.x(e.obj)
        if t[0] == "ptr":
            return f"{o}[0].{_id(e.attribute)}"
        return f"{o}.{_id(e.attribute)}"

    def x_IndexNode(self, e):
        return f"{self.x(e.base)}[{self.x(e.index)}]"

    def x_SliceIndexNode(self, e):
        return f"{self.x(e.base)}[{self.x(e.start) if e.start else ''}:{self.x(e.stop) if e.stop else ''}]"

    def x_SliceNode(self, e):
        parts = [self.x(p) if p is not None and not isinstance(p, E.NoneNode) else "" for p in (e.start, e.stop, e.step)]
        return ":".join(parts)

    def x_AmpersandNode(self, e):
        o = e.operand
        if isinstance(o, E.NameNode):
            t = self.ty(o)
            if t[0] == "struct":
                return f"_ObjPtr({self.x(o)})"
            if t[0] == "array":
                return self.x(o)
            if o.name not in self.boxed:
                raise Unsupported(f"address of unboxed {o.name}")
            return _id(o.name)
        if isinstance(o, E.IndexNode):
            return f"_addr({self.x(o.base)}, {self.x(o.index)})"
        if isinstance(o, E.AttributeNode):
            t = self.ty(o.obj)
            base = self.x(o.obj) + ("[0]" if t[0] == "ptr" else "")
            return f"_FieldRef({base}, {o.attribute!r})"
        raise Unsupported("address-of")

    def x_TypecastNode(self, e):
        t = self.cast_type(e)
        src = self.ty(e.operand)
        c = self.x(e.operand)
        if t[0] == "ptr":
            if t[1][0] == "void":
                return c
            return f"_castp({c}, {self.tyrepr(t[1])}, {self.sizeof(t[1]) if t[1][0] != 'void' else 1})"
        if t[0] == "int":
            if src == t:
                return c
            return f"_cast_{t[1]}({c})"
        if t[0] == "double":
            if getattr(e.base_type, "name", None) == "float":
                return f"_cast_float({c})"
            return c if src == DBL else f"_cv_double({c})"
        return c

    def x_SizeofTypeNode(self, e):
        return str(self.sizeof(self.prog.decl_type(e.base_type, e.declarator)[1]))

    def x_SizeofVarNode(self, e):
        o = e.operand
        if isinstance(o, E.NameNode):
            n = o.name
            if n in INT_TYPES:
                return str(SIZES[INT_TYPES[n]])
            if n in self.prog.structs:
                return str(self.sizeof(("struct", n)))
            if n == "double":
                return "8"
        return str(self.sizeof(self.ty(o)))

    def arith(self, op, e, a, b):
        ta, tb = self.ty(e.operand1), self.ty(e.operand2)
        ctyped = is_num(ta) and is_num(tb)
        if op in ("/", "//", "%"):
            if not ctyped:
                return f"({a} {op} {b})"
            if DBL in (ta, tb):
                fn = {"/": "_fdiv", "//": "_ffloordiv", "%": "_cfmod"}[op]
            else:
                fn = {"/": "_cidiv", "//": "_cidiv", "%": "_cimod"}[op]
            return f"{fn}({a}, {b})"
        if ta[0] == "ptr" and op in "+-" and is_int(tb):
            return f"_addr({a}, {'-' if op == '-' else ''}({b}))"
        code = f"({a} {op} {b})"
        if ctyped and op in ("+", "-", "*", "<<"):
            t = self.join(ta, tb)
            if is_int(t) and t[1] in ("u64", "u32"):
                return f"_wrap_{t[1]}{code}"
        return code

    def x_NumBinopNode(self, e):
        return self.arith(e.operator, e, self.x(e.operand1), self.x(e.operand2))

    x_AddNode = x_SubNode = x_MulNode = x_IntBinopNode = x_BitwiseOrNode = x_DivNode = x_ModNode = x_PowNode = x_NumBinopNode

    def x_UnaryMinusNode(self, e):
        return f"(-{self.x(e.operand)})"

    def x_UnaryPlusNode(self, e):
        return f"(+{self.x(e.operand)})"

    def x_TildeNode(self, e):
        t = self.ty(e.operand)
        c = f"(~{self.x(e.operand)})"
        if is_int(t) and t[1] in ("u64", "u32", "u16", "u8"):
            return f"_wrap_{t[1]}{c}"
        return c

    def x_NotNode(self, e):
        return f"(not {self.x(e.operand)})"

    def x_BoolBinopNode(self, e):
        return f"({self.x(e.operand1)} {e.operator} {self.x(e.operand2)})"

    def x_CondExprNode(self, e):
        return f"({self.x(e.true_val)} if {self.x(e.condition)} else {self.x(e.false_val)})"

    def x_PrimaryCmpNode(self, e):
        s = f"({self.x(e.operand1)} {self.cmpop(e.operator)} {self.x(e.operand2)}"
        c = e.cascade
        while c is not None:
            s += f" {self.cmpop(c.operator)} {self.x(c.operand2)}"
            c = c.cascade
        return s + ")"

    def cmpop(self, op):
        return {"is_not": "is not", "not_in": "not in"}.get(op, op)

    def call_args(self, e, args):
        t = self.ty(e.function)
        out = []
        pts = t[2] if t[0] == "func" else []
        if isinstance(e.function, E.AttributeNode):
            pts = pts[1:]   # self
        for i, a in enumerate(args):
            c = self.x(a)
            if i < len(pts):
                pt = pts[i]
                if pt[0] in ("int", "double", "struct"):
                    c = self.conv(c, self.ty(a), pt)
            out.append(c)
        return ", ".join(out)

    def x_SimpleCallNode(self, e):
        if isinstance(e.function, E.NameNode) and e.function.name == "set" and not e.args:
            return "set()"
        if isinstance(e.function, E.NameNode) and e.function.name == "isinstance":
            return f"isinstance({', '.join(self.x(a) for a in e.args)})"
        # C methods called on a typed object: self-argument handled by Python
        return f"{self.x(e.function)}({self.call_args(e, e.args)})"

    def x_GeneralCallNode(self, e):
        parts = []
        pos = e.positional_args
        if isinstance(pos, E.TupleNode):
            for a in pos.args:
                parts.append(("*" + self.x(a.target)) if isinstance(a, E.StarredUnpackingNode) else self.x(a))
        else:
            parts.append("*" + self.x(pos.arg if isinstance(pos, E.AsTupleNode) else pos))
        kw = e.keyword_args
        if kw is not None:
            if isinstance(kw, E.DictNode):
                for kv in kw.key_value_pairs:
                    parts.append(f"{kv.key.value}={self.x(kv.value)}")
            elif isinstance(kw, E.MergedDictNode):
                for d in kw.keyword_args:
                    if isinstance(d, E.DictNode):
                        for kv in d.key_value_pairs:
                            parts.append(f"{kv.key.value}={self.x(kv.value)}")
                    else:
                        parts.append("**" + self.x(d))
            else:
                parts.append("**" + self.x(kw))
        return f"{self.x(e.function)}({', '.join(parts)})"

    def x_AsTupleNode(self, e):
        return f"tuple({self.x(e.arg)})"

    def x_StarredUnpackingNode(self, e):
        return "*" + self.x(e.target)

    def x_TupleNode(self, e):
        if len(e.args) == 1:
            return f"({self.x(e.args[0])},)"
        return "(" + ", ".join(self.x(a) for a in e.args) + ")"

    def x_ListNode(self, e):
        return "[" + ", ".join(self.x(a) for a in e.args) + "]"

    def x_SetNode(self, e):
        return "{" + ", ".join(self.x(a) for a in e.args) + "}"

    def x_DictNode(self, e):
        return "{" + ", ".join(f"{self.x(kv.key)}: {self.x(kv.value)}" for kv in e.key_value_pairs) + "}"

    def x_MergedDictNode(self, e):
        parts = []
        for d in e.keyword_args:
            if isinstance(d, E.DictNode):
                parts += [f"{self.x(kv.key)}: {self.x(kv.value)}" for kv in d.key_value_pairs]
            else:
                parts.append("**" + self.x(d))
        return "{" + ", ".join(parts) + "}"

    def x_MergedSequenceNode(self, e):
        parts = []
        for a in e.args:
            if isinstance(a, (E.ListNode, E.TupleNode, E.SetNode)):
                parts += [self.x(v) for v in a.args]
            else:
                parts.append("*" + self.x(a))
        kind = {"list": "[%s]", "tuple": "(%s,)", "set": "{%s}"}[e.type.name if getattr(e.type, "name", None) else "list"]
        return kind % ", ".join(parts)

    def x_JoinedStrNode(self, e):
        return "''.join([" + ", ".join(self.x(v) for v in e.values) + "])"

    def x_FormattedValueNode(self, e):
        spec = self.x(e.format_spec) if e.format_spec is not None else "''"
        conv = {None: "", "r": "repr", "s": "str", "a": "ascii", "d": "str"}[e.conversion_char]
        return f"format({conv}({self.x(e.value)}), {spec})"

    def x_LambdaNode(self, e):
        args = ", ".join(self.arg_name(a) for a in e.args)
        saved = self.fn
        self.fn = dict(self.fn or {})
        for a in e.args:
            self.fn[self.arg_name(a)] = OBJ
        r = e.result_expr if getattr(e, "result_expr", None) is not None else e.def_node.body.value
        s = f"(lambda {args}: {self.x(r)})"
        self.fn = saved
        return s

    def _comp(self, loop):
        """(for-clauses, innermost append node)"""
        clauses = []
        node = loop
        while True:
            if isinstance(node, Nodes.StatListNode) and len(node.stats) == 1:
                node = node.stats[0]
            if isinstance(node, Nodes.ForInStatNode):
                self._bind_obj(node.target, only_new=True)
                clauses.append(f"for {self.x(node.target)} in {self.x(node.iterator.sequence)}")
                node = node.body
            elif isinstance(node, Nodes.IfStatNode):
                clauses.append(f"if {self.x(node.if_clauses[0].condition)}")
                node = node.if_clauses[0].body
            elif isinstance(node, Nodes.ExprStatNode):
                node = node.expr
            else:
                return " ".join(clauses), node

    def _bind_obj(self, target, only_new=False):
        pass

    def x_ComprehensionNode(self, e):
        saved, savedb = self.fn, self.boxed
        self.fn = dict(self.fn or {})
        self.boxed = set(self.boxed)
        self._shadow_targets(e.loop)
        cl, app = self._comp(e.loop)
        if isinstance(app, E.DictComprehensionAppendNode):
            s = f"{{{self.x(app.dict_item.key)}: {self.x(app.dict_item.value)} {cl}}}"
        else:
            body = f"{self.x(app.expr)} {cl}"
            tname = str(getattr(e.type, "name", "list"))
            s = f"[{body}]" if "list" in tname else f"{{{body}}}"
        self.fn, self.boxed = saved, savedb
        return s

    def _shadow_targets(self, loop):
        def names(t):
            if isinstance(t, E.NameNode):
                # comprehension variables are their own scope in Cython: plain objects
                self.fn[t.name] = OBJ
                self.boxed.discard(t.name)
            elif hasattr(t, "args"):
                for a in t.args:
                    names(a)
        node = loop
        while node is not None:
            if isinstance(node, Nodes.StatListNode) and len(node.stats) == 1:
                node = node.stats[0]
            if isinstance(node, Nodes.ForInStatNode):
                names(node.target)
                node = node.body
            elif isinstance(node, Nodes.IfStatNode):
                node = node.if_clauses[0].body
            else:
                return

    def x_GeneratorExpressionNode(self, e):
        saved, savedb = self.fn, self.boxed
        self.fn = dict(self.fn or {})
        self.boxed = set(self.boxed)
        self._shadow_targets(e.loop)
        clauses, app = self._comp(e.loop)
        y = app.expr if hasattr(app, "expr") else app
        if isinstance(y, E.YieldExprNode) or hasattr(y, "arg") and type(y).__name__ == "YieldExprNode":
            y = y.arg
        s = f"({self.x(y)} {clauses})"
        self.fn, self.boxed = saved, savedb
        return s

    def x_InlinedGeneratorExpressionNode(self, e):
        return self.x(e.gen)

    def x_YieldExprNode(self, e):
        return f"(yield {self.x(e.arg)})" if e.arg is not None else "(yield)"

    def x_ImportNode(self, e):
        raise Unsupported("import expression")

    def arg_name(self, a):
        n, t, _ = self.prog.decl_type(a.base_type, a.declarator)
        if not n:
            n = a.base_type.name
        return n

    # -- statements ----------------------------------------------------------
    def s(self, n):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            raise Unsupported(f"{self.m.name}: statement {type(n).__name__} at {n.pos[1:]}")
        f(n)

    def block(self, body):
        self.ind += 1
        k = len(self.lines)
        self.s(body)
        if len(self.lines) == k:
            self.w("pass")
        self.ind -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_PassStatNode(self, n):
        self.w("pass")

    def s_BreakStatNode(self, n):
        self.w("break")

    def s_ContinueStatNode(self, n):
        self.w("continue")

    def s_GlobalNode(self, n):
        self.w("global " + ", ".join(n.names))

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, (E.UnicodeNode, E.BytesNode)):
            return
        self.w(self.x(n.expr))

    def s_AssertStatNode(self, n):
        cond = n.condition if hasattr(n, "condition") else n.cond
        exc = n.exception
        msg = ""
        if exc is not None:
            if isinstance(exc, Nodes.RaiseStatNode):
                v = exc.exc_value
                if v is not None:
                    msg = ", " + self.x(v)
            else:
                msg = ", " + self.x(exc)
        self.w(f"assert {self.x(cond)}{msg}")

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.w("raise")
        else:
            self.w(f"raise {self.x(n.exc_type)}" + (f" from {self.x(n.cause)}" if n.cause is not None else ""))

    def s_ReraiseStatNode(self, n):
        self.w("raise")

    def s_DelStatNode(self, n):
        self.w("del " + ", ".join(self.x(a) for a in n.args))

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w("return None")
        else:
            c = self.x(n.value)
            if self.rett[0] in ("int", "double", "struct"):
                c = self.conv(c, self.ty(n.value), self.rett)
            self.w(f"return {c}")

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.w(f"{kw} {self.x(c.condition)}:")
            self.block(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w(f"while {self.x(n.condition) if n.condition is not None else 'True'}:")
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        tgt = n.target
        seq = self.x(n.iterator.sequence)
        if isinstance(n.iterator, E.ReversedIteratorNode if hasattr(E, "ReversedIteratorNode") else ()):
            seq = f"reversed({seq})"
        pre = []
        if isinstance(tgt, E.NameNode) and tgt.name not in self.boxed:
            t = self.ty(tgt)
            self.w(f"for {_id(tgt.name)} in {seq}:")
            if t[0] == "double" :
                pre.append(f"{_id(tgt.name)} = _cv_double({_id(tgt.name)})")
        else:
            self.tmp += 1
            v = f"_it{self.tmp}"
            self.w(f"for {v} in {seq}:")
            self.ind += 1
            self.assign(tgt, v, OBJ)
            self.ind -= 1
        self.ind += 1
        for p in pre:
            self.w(p)
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def assign(self, lhs, code, src):
        if isinstance(lhs, E.NameNode):
            t = self.ty(lhs)
            if self.fn is None:
                t = self.scope.get(lhs.name, OBJ)
            if lhs.name in self.boxed and self.fn is not None and lhs.name in self.fn:
                self.w(f"{_id(lhs.name)}.v = {self.conv(code, src, t)}")
            else:
                self.w(f"{_id(lhs.name)} = {self.conv(code, src, t)}")
        elif isinstance(lhs, E.AttributeNode):
            self.w(f"{self.x(lhs)} = {self.conv(code, src, self.ty(lhs))}")
        elif isinstance(lhs, E.IndexNode):
            self.w(f"{self.x(lhs)} = {self.conv(code, src, self.ty(lhs))}")
        elif isinstance(lhs, (E.TupleNode, E.ListNode)):
            self.tmp += 1
            v = f"_tu{self.tmp}"
            self.w(f"{v} = tuple({code})")
            if any(isinstance(a, E.StarredUnpackingNode) for a in lhs.args):
                raise Unsupported("starred target")
            self.w(f"_chk_unpack({v}, {len(lhs.args)})")
            for i, a in enumerate(lhs.args):
                self.assign(a, f"{v}[{i}]", OBJ)
        elif isinstance(lhs, E.SliceIndexNode):
            self.w(f"{self.x(lhs)} = {code}")
        else:
            raise Unsupported(f"assignment target {type(lhs).__name__}")

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, E.ImportNode):
            self.emit_import(n.rhs, self_target=n.lhs.name)
            return
        lhs, rhs = n.lhs, n.rhs
        if isinstance(lhs, E.TupleNode) and isinstance(rhs, E.TupleNode) and len(lhs.args) == len(rhs.args):
            vs = []
            for r in rhs.args:
                self.tmp += 1
                vs.append(f"_t{self.tmp}")
                c = self.x(r)
                if self.ty(r)[0] == "struct":
                    c = f"({c}).copy_()"
                self.w(f"{vs[-1]} = {c}")
            for a, v, r in zip(lhs.args, vs, rhs.args):
                self.assign(a, v, self.ty(r))
            return
        self.assign(lhs, self.x(rhs), self.ty(rhs))

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        v = f"_t{self.tmp}"
        self.w(f"{v} = {self.x(n.rhs)}")
        for l in n.lhs_list:
            self.assign(l, v, self.ty(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        class _B:
            pass
        b = _B()
        b.operand1, b.operand2 = n.lhs, n.rhs
        lt, rt = self.ty(n.lhs), self.ty(n.rhs)
        if not is_num(lt) and lt[0] != "ptr":
            self.w(f"{self.x(n.lhs)} {n.operator}= {self.x(n.rhs)}")
            return
        code = self.arith(n.operator, b, self.x(n.lhs), self.x(n.rhs))
        self.assign(n.lhs, code, self.join(lt, rt) if lt[0] != "ptr" else lt)

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            name, t, default = self.prog.decl_type(n.base_type, d)
            if t[0] == "func":
                continue
            if self.fn is not None:
                self.fn[name] = t
            if name in self.boxed:
                self.w(f"{_id(name)} = _Cell({self.tyrepr(t)})")
                if default is not None:
                    self.w(f"{_id(name)}.v = {self.conv(self.x(default), self.ty(default), t)}")
                continue
            if t[0] == "array":
                self.w(f"{_id(name)} = _carray({self.tyrepr(t[1])}, {self.x(t[2])})")
                if default is not None:
                    raise Unsupported("array initialiser")
                continue
            if default is not None:
                self.w(f"{_id(name)} = {self.conv(self.x(default), self.ty(default), t)}")
            elif t[0] == "struct":
                self.w(f"{_id(name)} = _S_{t[1]}()")
            elif self.fn is None:
                self.w(f"{_id(name)} = {'NULL' if t[0] == 'ptr' else '0.0' if t[0] == 'double' else '0' if t[0] == 'int' else 'None'}")

    def s_GILStatNode(self, n):
        self.s(n.body)

    def s_TryFinallyStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        self.w("finally:")
        self.block(n.finally_clause)

    def s_TryExceptStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        for c in n.except_clauses:
            pat = ""
            if c.pattern:
                pat = " " + (self.x(c.pattern[0]) if len(c.pattern) == 1 else "(" + ", ".join(self.x(p) for p in c.pattern) + ")")
                if c.target is not None:
                    pat += f" as {self.x(c.target)}"
            self.w(f"except{pat}:")
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_WithStatNode(self, n):
        self.w(f"with {self.x(n.manager)}" + (f" as {self.x(n.target)}" if n.target is not None else "") + ":")
        self.block(n.body)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value if hasattr(n.module.module_name, "value") else str(n.module.module_name)
        items = ", ".join(f"{a} as {t.name}" if a != t.name else a for a, t in n.items)
        self.w(f"from {mod} import {items}")

    def emit_import(self, node, self_target):
        mod = node.module_name.value
        if node.get_top_level_module if hasattr(node, "get_top_level_module") else False:
            self.w(f"import {mod}")
        else:
            self.w(f"import {mod} as {self_target}" if "." in mod or mod != self_target else f"import {mod}")

    def s_FromCImportStatNode(self, n):
        mod = n.module_name
        short = mod.rsplit(".", 1)[-1]
        if mod.startswith(OPT_PKG):
            if short in ("_khash", "_ops_gen"):
                return  # provided by the runtime prelude
            src = self.prog.mods[short]
            for it in n.imported_names:
                name, asname = it[1], it[2] or it[1]
                if name in self.prog.structs:
                    self.w(f"_cyrt.cimport(globals(), {mod!r}, '_S_{name}', '_S_{name}')")
                elif name in src.enums:
                    self.w(f"{asname} = {src.enums[name]}")
                else:
                    self.w(f"_cyrt.cimport(globals(), {mod!r}, {name!r}, {asname!r})")
            return
        if mod == "libc.math":
            for it in n.imported_names:
                self.w(f"{_id(it[2] or it[1])} = _cmath_{it[1]}")
            return
        if mod in ("libc.stdlib", "libc.string"):
            for it in n.imported_names:
                self.w(f"{_id(it[2] or it[1])} = _c_{it[1]}")
            return
        if mod in ("libc.stdint",):
            return
        raise Unsupported(f"cimport {mod}")

    def s_CDefExternNode(self, n):
        """declarations of C helpers: cyrt provides each under its C name"""
        for x in self.prog._flat(n.body.stats if isinstance(n.body, Nodes.StatListNode) else [n.body]):
            for d in getattr(x, "declarators", ()):
                b = d
                while hasattr(b, "base"):
                    b = b.base
                if getattr(b, "cname", None) and b.cname != b.name:
                    self.w(f"{_id(b.name)} = {b.cname}")

    def s_CEnumDefNode(self, n):
        for it in n.items:
            self.w(f"{it.name} = {self.m.enums[it.name]}")

    def s_CStructOrUnionDefNode(self, n):
        fields = self.prog.structs[n.name]
        items = ", ".join(f"({k!r}, {self.tyrepr(v) if v[0] != 'class' else repr('obj')})" for k, v in fields.items())
        self.w(f"_S_{n.name} = _mkstruct({n.name!r}, [{items}], {self.sizeof(('struct', n.name))})")

    def s_CTypeDefNode(self, n):
        return

    # -- functions and classes -------------------------------------------------
    def fn_common(self, name, args, body, rett, star=None, starstar=None, decorators=None, defaults_are_py=True):
        saved = (self.fn, self.boxed, self.rett)
        outer = self.fn
        self.fn = dict(outer) if outer else {}
        self.boxed = set(saved[1]) if outer else set()
        self.rett = rett
        params = []
        convs = []
        names = []
        for a in args:
            n, t, dflt = self.prog.decl_type(a.base_type, a.declarator)
            if not n:
                n, t = a.base_type.name, OBJ
            self.fn[n] = t
            self.boxed.discard(n)
            names.append((n, t))
            p = _id(n)
            d = a.default if a.default is not None else dflt
            if d is not None:
                p += f"={self.x(d)}"
            params.append(p)
        if star is not None:
            params.append("*" + star.name)
            self.fn[star.name] = OBJ
        if starstar is not None:
            params.append("**" + starstar.name)
            self.fn[starstar.name] = OBJ
        amps = set()
        locs = {}
        _scan(body, amps, locs, self.prog)
        for k, t in locs.items():
            self.fn.setdefault(k, t) if k not in dict(names) else None
        for k in amps:
            if k in self.fn and self.fn[k][0] not in ("struct", "array"):
                self.boxed.add(k)
        # names assigned in a nested function shadow module-level C types
        for dec in decorators or []:
            self.w(f"@{self.x(dec.decorator)}")
        self.w(f"def {name}({', '.join(params)}):")
        self.ind += 1
        for n, t in names:
            if t[0] in ("int", "double") and defaults_are_py:
                self.w(f"{_id(n)} = {'_cv_double' if t[0] == 'double' else '_cv_' + t[1]}({_id(n)})")
            if n in self.boxed:
                self.w(f"{_id(n)} = _Cell({self.tyrepr(t)}, {_id(n)})")
        # C locals are zero-page garbage until assigned; struct locals live for the whole function
        k = len(self.lines)
        self.s(body)
        if len(self.lines) == k:
            self.w("pass")
        self.ind -= 1
        self.w("")
        self.fn, self.boxed, self.rett = saved

    def s_CFuncDefNode(self, n):
        name, t, _ = self.prog.decl_type(n.base_type, n.declarator)
        d = n.declarator
        while not isinstance(d, Nodes.CFuncDeclaratorNode):
            d = d.base
        if name == "__dealloc__":
            return
        self.fn_common(name, d.args, n.body, t[1], defaults_are_py=False)

    def s_DefNode(self, n):
        if n.name == "__dealloc__":
            return
        self.fn_common(n.name, n.args, n.body, OBJ, n.star_arg, n.starstar_arg, n.decorators)

    def s_CClassDefNode(self, n):
        if n.body is None or self.m.trees.get("pyx") is None:
            return
        base = "_CClass"
        if getattr(n, "bases", None) is not None and getattr(n.bases, "args", None):
            base = ", ".join(self.x(b) for b in n.bases.args)
        self.w(f"class {n.class_name}({base}):")
        self.ind += 1
        attrs = self.prog.classes[n.class_name]["attrs"]
        init = ", ".join(f"({k!r}, {self._zero(t)!r})" for k, t in attrs.items())
        self.w(f"_c_attrs_ = [{init}]")
        body = n.body.stats if isinstance(n.body, Nodes.StatListNode) else [n.body]
        saved = self.fn
        for x in body:
            if isinstance(x, Nodes.CVarDefNode) or isinstance(x, Nodes.StatListNode) and all(isinstance(y, Nodes.CVarDefNode) for y in x.stats):
                continue
            self.s(x)
        self.fn = saved
        self.ind -= 1
        self.w("")

    def _zero(self, t):
        return {"ptr": "NULL", "double": 0.0, "int": 0}.get(t[0])

    def s_PyClassDefNode(self, n):
        raise Unsupported("python class")

    def module(self):
        tree = self.m.trees["pyx"]
        self.w("from vp.cyrt import *")
        self.w("from vp import cyrt as _cyrt")
        self.w("_cyrt.ops_into(globals())")
        # enums and structs declared in the module's own .pxd are visible in the .pyx
        if "pxd" in self.m.trees:
            for s in self.prog._flat(self.prog._stats(self.m.trees["pxd"])):
                if isinstance(s, (Nodes.CEnumDefNode, Nodes.CStructOrUnionDefNode, Nodes.CFuncDefNode)):
                    self.s(s)
        for s in self.prog._stats(tree):
            self.s(s)
        return "\n".join(self.lines) + "\n"


_PYKW = {"in", "is", "as", "from", "lambda", "def", "class", "del", "pass", "None", "True", "False", "match"}


def _id(n):
    return n


def _scan(node, amps, locs, prog):
    """address-taken names and all cdef locals of a function body"""
    if isinstance(node, E.AmpersandNode) and isinstance(node.operand, E.NameNode):
        amps.add(node.operand.name)
    if isinstance(node, Nodes.CVarDefNode):
        for d in node.declarators:
            nm, t, _ = prog.decl_type(node.base_type, d)
            if t[0] != "func":
                locs[nm] = t
    if isinstance(node, (Nodes.DefNode, Nodes.CFuncDefNode)):
        return
    for a in getattr(node, "child_attrs", None) or []:
        v = getattr(node, a, None)
        if isinstance(v, list):
            for x in v:
                if x is not None:
                    _scan(x, amps, locs, prog)
        elif v is not None and hasattr(v, "child_attrs"):
            _scan(v, amps, locs, prog)


def translate(optdir):
    """module name -> Python source"""
    prog = Program(optdir)
    out = {}
    for n, m in prog.mods.items():
        if "pyx" in m.trees:
            out[n] = Emitter(prog, m).module()
    return out, prog


if __name__ == "__main__":
    src, prog = translate(sys.argv[1])
    dst = sys.argv[2]
    os.makedirs(dst, exist_ok=True)
    for k, v in src.items():
        open(os.path.join(dst, k + ".py"), "w").write(v)
        compile(v, k, "exec")
        print(k, v.count("\n"))

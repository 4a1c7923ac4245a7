From fc7ea2b05039006b41ec8ef611eabfcfa0d37ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 01/21] fix: fold powers with libm pow so folded easings match
 the runtime bit for bit

The C compiler expands pow(x, 2.0) to x * x, whose last bit can differ from the
libm pow used by float.__pow__, so EaseInQuad(0.37796883434360806) and others
folded to a different double than the interpreter computes.
---
 sonolus/backend/_opt/kernels.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/kernels.pyx b/sonolus/backend/_opt/kernels.pyx
index 6224cc4..283fe60 100644
--- a/sonolus/backend/_opt/kernels.pyx
+++ b/sonolus/backend/_opt/kernels.pyx
@@ -78,13 +78,22 @@ from libc.math cimport (
     tan,
     tanh,
 )
-from libc.math cimport pow as c_pow
 from libc.math cimport round as c_round
 from libc.math cimport trunc as c_trunc
 from libc.stdlib cimport free, malloc
 
 from sonolus.backend._opt._ops_gen cimport *  # OP_* ids, OP_TABLE_SIZE, SONOLUS_OP_FOLDABLE
 
+# Compilers expand pow(x, 2.0) to x * x, whose last bit can differ from the libm pow that
+# float.__pow__ calls (likewise for other constant operands). The volatile pointer keeps
+# every power a call into libm.
+cdef extern from *:
+    """
+    #include <math.h>
+    static double (*volatile _sonolus_pow)(double, double) = pow;
+    """
+    double c_pow "_sonolus_pow" (double x, double y) noexcept nogil
+
 
 # ==========================================================================
 # Small numeric helpers (each a literal mirror of a Python builtin / libm rule)
-- 
2.43.0


From b794a8bf3d9b48ef626ccc6650f2dee5d32ebad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 02/21] fix: keep comparisons against infinities and NaN out of
 rewritten switches

A chain of equality tests turned into a switch carries its constants as case
labels, which are emitted as literals.  Infinities and NaN have no literal
form, so the emitted node tree could not be serialized.
---
 sonolus/backend/_opt/midend.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 8c631f4..df0da31 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -4259,6 +4259,10 @@ def _run_rewrite_switch(Func f):
             const_v = a1
         else:
             continue
+        if not isfinite(f.consts[f.instrs[const_v].aux]):
+            # Case labels are emitted as literals, and +-Inf/NaN have no literal
+            # form: keep the comparison, whose operand lowers to an EngineRom read.
+            continue
         test_val[b] = other_v
         none_edge["ck"] = EDGE_COND_VALUE
         none_edge["cond"] = f.consts[f.instrs[const_v].aux]
-- 
2.43.0


From c9fb3e33e7bcd9ce8212c27d6e9ae53734addaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 03/21] fix: creating a float or bool constant no longer
 rewrites the shared int constant equal to it

---
 sonolus/backend/ir.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sonolus/backend/ir.py b/sonolus/backend/ir.py
index 03fd5e1..304d706 100644
--- a/sonolus/backend/ir.py
+++ b/sonolus/backend/ir.py
@@ -15,16 +15,11 @@ class IRConst:
     value: float | int
 
     def __new__(cls, value):
-        if float(value).is_integer():
-            int_value = int(value)
-            if _IR_CONST_CACHE_START <= int_value < _IR_CONST_CACHE_STOP:
-                return _IR_CONST_CACHE[int_value - _IR_CONST_CACHE_START]
-            else:
-                return _create_raw_const(int_value)
-        return super().__new__(cls)
-
-    def __init__(self, value: float):
-        self.value = value
+        # Only actual ints share instances: a float or bool equal to a cached int is a different constant
+        if type(value) is int and _IR_CONST_CACHE_START <= value < _IR_CONST_CACHE_STOP:
+            return _IR_CONST_CACHE[value - _IR_CONST_CACHE_START]
+        # -0.0 has no form in the output, so it becomes 0.0
+        return _create_raw_const(0.0 if type(value) is float and value == 0 else value)
 
     def __repr__(self):
         return f"IRConst({self.value!r})"
-- 
2.43.0


From 59671624d51ca7ee682f1bd4d975734baea7ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 04/21] fix: iterating a reversed range or reversed VarArray
 failed to compile

ArrayLike.get_unchecked/set_unchecked fall back to self[index], which has to be
compiled; as meta functions they ran __getitem__ outside of compilation.
---
 sonolus/script/array_like.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index 07be2b0..f7e8cd6 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -60,7 +60,6 @@ class ArrayLike[T](Sequence[T]):
             value: The value to set.
         """
 
-    @meta_fn
     def get_unchecked(self, index: Num) -> T:
         """Get the element at the given index possibly without bounds checking or conversion of negative indexes.
 
@@ -75,7 +74,6 @@ class ArrayLike[T](Sequence[T]):
         """
         return self[index]
 
-    @meta_fn
     def set_unchecked(self, index: Num, value: T):
         """Set the element at the given index possibly without bounds checking or conversion of negative indexes.
 
-- 
2.43.0


From 220381ecb4914959611470387021efcedafc36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 05/21] fix: writing a field or element of an exported record
 or array was lost

_ExportBackingValue.write returned its instruction instead of adding it, and
Num._set_ ignores what a backing value's write returns.
---
 sonolus/script/archetype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..17d26bb 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -8,7 +8,7 @@ from enum import Enum, IntEnum, StrEnum
 from types import FunctionType
 from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
 
-from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr, IRStmt
+from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
 from sonolus.backend.mode import Mode
 from sonolus.backend.ops import Op
 from sonolus.script.bucket import Bucket, Judgment
@@ -55,8 +55,8 @@ class _ExportBackingValue(BackingValue):
     def read(self) -> IRExpr:
         raise NotImplementedError("Exported fields are write-only")
 
-    def write(self, value: IRExpr) -> IRStmt:
-        return IRInstr(Op.ExportValue, [self.index, value])
+    def write(self, value: IRExpr):
+        ctx().add_statements(IRInstr(Op.ExportValue, [self.index, value]))
 
 
 class _ArchetypeField(SonolusDescriptor):
-- 
2.43.0


From c865f0a887e4293a24852160c3c6e3563db06f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 06/21] fix: score multipliers and despawn read as an alias of
 their storage

x = self.entity_score_multiplier; self.entity_score_multiplier = 5; use(x) saw 5.
Read them as values, like every other Num field.
---
 sonolus/script/archetype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 17d26bb..aa1c739 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -303,7 +303,7 @@ class _ArchetypeScoreMultiplierMetaDescriptor(SonolusDescriptor):
             raise RuntimeError("Archetype score multiplier is only available during compilation")
         if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
             raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
-        return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
+        return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)._get_readonly_()
 
     def __set__(self, instance, value):
         # instance is the class
@@ -322,9 +322,9 @@ class _ArchetypeScoreMultiplierDescriptor(SonolusDescriptor):
         if ctx().mode_state.mode not in {Mode.PLAY, Mode.WATCH}:
             raise RuntimeError(f"Archetype score multiplier is not available in mode '{ctx().mode_state.mode.value}'")
         if instance is not None:
-            return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)
+            return _deref(ctx().blocks.ArchetypeScore, instance.id, Num)._get_readonly_()
         else:
-            return _deref(ctx().blocks.ArchetypeScore, owner.id, Num)
+            return _deref(ctx().blocks.ArchetypeScore, owner.id, Num)._get_readonly_()
 
     def __set__(self, instance, value):
         # Handle instance writes
@@ -361,9 +361,9 @@ class _EntityScoreMultiplierDescriptor(SonolusDescriptor):
             raise RuntimeError("Entity score multiplier can only be accessed from an instance")
         match instance._data_:
             case _ArchetypeSelfData():
-                return _deref(ctx().blocks.EntityScore, 0, Num)
+                return _deref(ctx().blocks.EntityScore, 0, Num)._get_readonly_()
             case _ArchetypeReferenceData(index=index):
-                return _deref(ctx().blocks.EntityScoreArray, index, Num)
+                return _deref(ctx().blocks.EntityScoreArray, index, Num)._get_readonly_()
             case _:
                 raise RuntimeError("Entity score multiplier is not available in level data")
 
@@ -1201,7 +1201,7 @@ class PlayArchetype(_BaseArchetype):
             raise RuntimeError("Calling despawn is only allowed within a callback")
         match self._data_:
             case _ArchetypeSelfData():
-                return _deref(ctx().blocks.EntityDespawn, 0, Num)
+                return _deref(ctx().blocks.EntityDespawn, 0, Num)._get_readonly_()
             case _:
                 raise RuntimeError("Despawn is only accessible from the entity itself")
 
-- 
2.43.0


From 8a423ba2c50c9272506c00dd1abb6c668c4ca853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:00 +0000
Subject: [PATCH 07/21] fix: insert a copy of an element of the same VarArray

VarArray.insert shifted the elements before copying the value, so inserting
a reference to an element of the array itself (a.insert(0, a[1])) inserted
the content its slot held after the shift.
---
 sonolus/script/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sonolus/script/containers.py b/sonolus/script/containers.py
index 3e3f306..8ab097d 100644
--- a/sonolus/script/containers.py
+++ b/sonolus/script/containers.py
@@ -228,6 +228,8 @@ class VarArray[T, Capacity](Record, ArrayLike[T]):
         """
         index = clamp(get_positive_index(index, self._size, include_end=True), 0, self._size)
         assert self._size < len(self._array), "Array is full"
+        # The value may be a reference to an element of this array, so it needs to be copied before elements are shifted
+        value = copy(value)
         self._size += 1
         for i in range(self._size - 1, index, -1):
             self._array.set_unchecked(i, self._array.get_unchecked(i - 1))
-- 
2.43.0


From 1b2455fa6e16e384ce5a625bf01d0f5bf3393acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 08/21] fix: defer constant operations that overflow or leave
 the domain to the runtime

Python's integers are exact, so a constant sum, product or power too large for a
float failed the build (and a huge power did not finish), as did a constant call of
a math function outside its domain, even on a branch that is never taken.
---
 sonolus/script/internal/native.py |  7 ++++++-
 sonolus/script/num.py             | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/internal/native.py b/sonolus/script/internal/native.py
index 8c812f9..3e9cc74 100644
--- a/sonolus/script/internal/native.py
+++ b/sonolus/script/internal/native.py
@@ -76,7 +76,12 @@ def native_function[**P, R](op: Op, const_eval: bool = False) -> Callable[[Calla
                     if not all(_is_num(arg) for arg in args):
                         raise RuntimeError("All arguments must be of type Num")
                     if all(arg._is_py_() for arg in args):
-                        return Num._accept_(fn(*[arg._as_py_() for arg in args]))
+                        try:
+                            return Num._accept_(fn(*[arg._as_py_() for arg in args]))
+                        except (ArithmeticError, ValueError):
+                            # Outside the function's domain or range: defer to the runtime instead of
+                            # crashing the compiler on a possibly-dead branch.
+                            pass
                 if simple_positional and n <= n_params:
                     full_args = args if n == n_params else args + param_defaults[n:]
                 else:
diff --git a/sonolus/script/num.py b/sonolus/script/num.py
index e4ce11f..dd6f74f 100644
--- a/sonolus/script/num.py
+++ b/sonolus/script/num.py
@@ -230,7 +230,12 @@ class _Num(Value, metaclass=_NumMeta):
             if not isinstance(other, _FLOAT_INT_BOOL):
                 return fallback
             other = Num(other)
-        const_value = const_fn(self, other)
+        try:
+            const_value = const_fn(self, other)
+        except OverflowError:
+            # Python computes integral results exactly, so they may be too large for a float.
+            # Defer to the runtime instead of crashing the compiler on a possibly-dead branch.
+            const_value = None
         if const_value is not None:
             return const_value
         c = ctx()
@@ -425,7 +430,8 @@ class _Num(Value, metaclass=_NumMeta):
             b_py = b._as_py_or_none()
             if a_py is not None and b_py is not None:
                 try:
-                    result = a_py**b_py
+                    # Not an exact integer power, as that can be too large to compute
+                    result = float(a_py) ** b_py
                 except (OverflowError, ZeroDivisionError):
                     # OverflowError: result too large; ZeroDivisionError: 0 ** negative.
                     # Defer to Op.Power so the runtime yields its IEEE value instead of
-- 
2.43.0


From e22c59530e057e566d3ee0944ed601c6c88e4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:33 +0000
Subject: [PATCH 09/21] fix: bool() of a runtime value

The conversion ran as plain Python during compilation, where the value is not known,
so the build failed; compile it like any other boolean context.
---
 sonolus/script/internal/builtin_impls.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..e836a66 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -382,17 +382,23 @@ class _Float:
 _float = _Float()
 
 
+def _to_bool(value):
+    # Relies on the compiler to perform the conversion in a boolean context
+    if value:  # noqa: SIM103
+        return True
+    else:
+        return False
+
+
 class _Bool:
     _is_comptime_value_ = True
     _type_mapping_ = Num
 
     @meta_fn
     def __call__(self, value=False):
-        # Relies on the compiler to perform the conversion in a boolean context
-        if validate_value(value):  # noqa: SIM103
-            return True
-        else:
-            return False
+        from sonolus.script.internal.visitor import compile_and_call
+
+        return compile_and_call(_to_bool, value)
 
     def __or__(self, other):
         other = validate_value(other)
-- 
2.43.0


From 126701e8d503c5e0c99b65dd053279a9c1a24f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:47 +0000
Subject: [PATCH 10/21] fix: reject item names that are not a file name of
 their own

Items are written next to the 'info' and 'list' files of their category under their
name, so an item called 'list' replaced the listing and one called '../x' was written
outside the category.
---
 sonolus/build/collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 41ad349..4bac25e 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -68,6 +68,8 @@ class Collection:
         return next(iter(self.categories[category].values()))["item"]
 
     def add_item(self, category: Category, name: str, item: Any) -> None:
+        if not self._is_valid_item_name(name):
+            raise ValueError(f"Invalid item name: {name!r}")
         self.categories.setdefault(category, {})[name] = self._make_item_details(item)
 
     @classmethod
@@ -208,6 +210,11 @@ class Collection:
     def _is_valid_category(self, category: str) -> TypeGuard[Category]:
         return category in CATEGORY_NAMES
 
+    @staticmethod
+    def _is_valid_item_name(name: str) -> bool:
+        # Names are used as file names next to the reserved ones, so they must not refer to any other file
+        return name not in {"", ".", ".."} and not set(name) & {"/", "\\"} and name.lower() not in RESERVED_FILENAMES
+
     def _extract_category_items(
         self, zf: zipfile.ZipFile, dir_name: Category, zip_entries: list[zipfile.ZipInfo]
     ) -> None:
@@ -222,7 +229,7 @@ class Collection:
                 path = Path(*path.parts[1:])
             item_name = path.stem
 
-            if self._is_valid_category(dir_name):
+            if self._is_valid_category(dir_name) and self._is_valid_item_name(item_name):
                 self.categories[dir_name][item_name] = item_details
 
     def write(self, path: Asset) -> None:
-- 
2.43.0


From b37bbbfac6c0d4cb2a127ca76f40be61b0cbd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:47 +0000
Subject: [PATCH 11/21] fix: keep the full name of items loaded from an archive

Item files have no extension, but everything after the last dot of the name was
dropped, so 'song.easy' became 'song' and replaced 'song.hard'.
---
 sonolus/build/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 4bac25e..1427a1d 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -227,7 +227,7 @@ class Collection:
             path = Path(zip_entry.filename)
             if path.parts[0] == "sonolus":
                 path = Path(*path.parts[1:])
-            item_name = path.stem
+            item_name = path.name
 
             if self._is_valid_category(dir_name) and self._is_valid_item_name(item_name):
                 self.categories[dir_name][item_name] = item_details
-- 
2.43.0


From 9c470fc8d06a1f0d74a10b0c1d28fd6be1f9d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 12/21] fix: run the else clause of a loop over a tuple

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From 27f2bb39c47b49485d4934c87f6e7bdfe3a062d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 13/21] fix: carry names bound by match patterns and nested
 functions around loops

---
 sonolus/backend/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sonolus/backend/utils.py b/sonolus/backend/utils.py
index 63ca082..6f22443 100644
--- a/sonolus/backend/utils.py
+++ b/sonolus/backend/utils.py
@@ -86,6 +86,15 @@ class ScanWrites(ast.NodeVisitor):
         if isinstance(node.ctx, ast.Store | ast.Delete):
             self.writes.append(node.id)
 
+    def visit_MatchAs(self, node):
+        if node.name is not None:
+            self.writes.append(node.name)
+        self.generic_visit(node)
+
+    def visit_FunctionDef(self, node):
+        self.writes.append(node.name)
+        self.generic_visit(node)
+
 
 def scan_writes(node: ast.AST) -> set[str]:
     visitor = ScanWrites()
-- 
2.43.0


From a379e7d018addf986fa966d06a47fe0a4f840ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 14/21] fix: apply the conditions of generator expressions over
 tuples

---
 sonolus/script/internal/visitor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..0fb7fe8 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,22 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if test._as_py_():
+                            continue
+                        skip_ctxs.append(ctx())
+                        set_ctx(ctx().into_dead())
+                        break
+                    ctx().test = test.ir()
+                    if_then_ctx = ctx().branch(None)
+                    skip_ctxs.append(ctx().branch(0))
+                    set_ctx(if_then_ctx)
+                if ctx().live:
+                    self.construct_genexpr(others, elt)
+                set_ctx(Context.meet([ctx(), *skip_ctxs]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From f11ec4010542e7c16309253871b9a27fac662e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 15/21] fix: comparisons of different types inside a chain

---
 sonolus/script/internal/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 0fb7fe8..01be57e 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1378,9 +1378,9 @@ class Visitor(ast.NodeVisitor):
             if result is None or self.is_not_implemented(result):
                 # Can't defer to the default object.__eq__ or similar since reference equality (is) is not reliable
                 if type(op) is ast.Eq and type(l_val) is not type(r_val):
-                    return Num._accept_(False)
+                    result = Num._accept_(False)
                 elif type(op) is ast.NotEq and type(l_val) is not type(r_val):
-                    return Num._accept_(True)
+                    result = Num._accept_(True)
                 else:
                     raise TypeError(
                         f"'{op_to_symbol[type(op)]}' not supported between instances of '{type(l_val).__name__}' and "
-- 
2.43.0


From 56047474f7accd89b2fcd197801e18690a9db900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:12 +0000
Subject: [PATCH 16/21] fix: generator expressions with a condition known to be
 false

---
 sonolus/script/internal/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 01be57e..3235271 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -614,13 +614,15 @@ class Visitor(ast.NodeVisitor):
                     else:
                         ctx().outgoing[None] = header_ctx
                         set_ctx(ctx().into_dead())
+                        break
                 else:
                     if_then_ctx = ctx().branch(None)
                     if_else_ctx = ctx().branch(0)
                     ctx().test = test.ir()
                     if_else_ctx.outgoing[None] = header_ctx
                     set_ctx(if_then_ctx)
-            self.construct_genexpr(others, elt)
+            if ctx().live:
+                self.construct_genexpr(others, elt)
             ctx().outgoing[None] = header_ctx
             set_ctx(else_ctx)
 
-- 
2.43.0


From dd162905b0c333c94d51902f0e65bf4929fe69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:13 +0000
Subject: [PATCH 17/21] fix: reject reads of a reference that a loop has
 rebound

---
 sonolus/script/internal/context.py | 35 +++++++++++++++++++++---------
 sonolus/script/internal/visitor.py |  4 ++--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/sonolus/script/internal/context.py b/sonolus/script/internal/context.py
index 2e859f6..0f54df2 100644
--- a/sonolus/script/internal/context.py
+++ b/sonolus/script/internal/context.py
@@ -361,7 +361,8 @@ class Context:
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
             else:
-                loop_binding = ValueBinding(value)
+                loop_binding = ValueBinding(value, loop_bindings=binding.loop_bindings)
+                loop_binding.loop_bindings += (loop_binding,)
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
         return header
@@ -390,12 +391,15 @@ class Context:
                     value = values[name]
                     value = type(target_value)._accept_(value)
                     target_value._set_(value)
-                else:
+                elif self.scope.get_binding(name) is not binding:
                     value = self.scope.get_value(name)
-                    if target_value is not value and binding.read_count > 0:
-                        raise RuntimeError(
-                            f"Variable '{name}' may have conflicting definitions between loop iterations"
-                        )
+                    if target_value is not value:
+                        if binding.read_count > 0:
+                            raise RuntimeError(
+                                f"Variable '{name}' may have conflicting definitions between loop iterations"
+                            )
+                        # It hasn't been read so far, but it may still be after the loop
+                        binding.is_conflicting = True
 
     def map_constant(self, value: Any) -> int:
         with self.project_state.lock:
@@ -552,6 +556,16 @@ def debug_config() -> DebugConfig:
 class ValueBinding:
     value: Value
     read_count: int = 0
+    is_conflicting: bool = False
+    # The loop variables of reference types that this binding stands for
+    loop_bindings: tuple[ValueBinding, ...] = ()
+
+    def has_conflict(self) -> bool:
+        return any(binding.is_conflicting for binding in self.loop_bindings)
+
+    def mark_read(self):
+        for binding in self.loop_bindings:
+            binding.read_count += 1
 
 
 @dataclass(slots=True)
@@ -584,11 +598,11 @@ class Scope:
     def get_value(self, name: str) -> Value | Any:
         binding = self.get_binding(name)
         match binding:
-            case ValueBinding() as b:
+            case ValueBinding() as b if not b.has_conflict():
                 # we don't need to call _get_() here because _set_() is never called where it could be a problem
-                b.read_count += 1
+                b.mark_read()
                 return b.value
-            case ConflictBinding():
+            case ConflictBinding() | ValueBinding():
                 raise RuntimeError(
                     f"Binding '{name}' has multiple conflicting definitions or may not be guaranteed to be defined"
                 )
@@ -644,7 +658,8 @@ class Scope:
                 continue
             values = [binding.value for binding in bindings]
             if len({id(value) for value in values}) == 1:
-                target_bindings[key] = ValueBinding(values[0])
+                loop_bindings = {id(b): b for binding in bindings for b in binding.loop_bindings}
+                target_bindings[key] = ValueBinding(values[0], loop_bindings=tuple(loop_bindings.values()))
                 continue
             types = {type(value) for value in values}
             if len(types) > 1:
diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 3235271..44ae8ee 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1488,8 +1488,8 @@ class Visitor(ast.NodeVisitor):
         while v:
             binding = v.active_ctx.scope.bindings.get(name)
             if binding is not None and type(binding) is not EmptyBinding:
-                if type(binding) is ValueBinding:
-                    binding.read_count += 1
+                if type(binding) is ValueBinding and not binding.has_conflict():
+                    binding.mark_read()
                     result = binding.value
                 else:
                     # Delegate to reproduce the error message from the scope
-- 
2.43.0


From 104ce9795521277cae5d070999f1885facffa628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:24 +0000
Subject: [PATCH 18/21] fix: reject two imported or two exported fields of one
 data name

---
 sonolus/script/archetype.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index aa1c739..65d86b5 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -965,6 +965,10 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
         index = 0
         for field in cls._imported_fields_.values():
             keys = list(field.type._flat_keys_(field.data_name))
+            if len({*keys, *imported_keys}) != len(keys) + len(imported_keys):
+                raise ValueError(
+                    f"Data name '{field.data_name}' of {cls.__name__} is already used by another imported field"
+                )
             if field.default is not None:
                 defaults = field.default._to_list_()
                 for key, default_value in zip(keys, defaults, strict=True):
@@ -975,12 +979,13 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
                     imported_keys[key] = ImportInfo(index=index, default=None)
                     index += 1
         cls._imported_keys_ = imported_keys
-        cls._exported_keys_ = {
-            name: i
-            for i, name in enumerate(
-                key for field in cls._exported_fields_.values() for key in field.type._flat_keys_(field.data_name)
-            )
-        }
+        exported_keys = {}
+        for field in cls._exported_fields_.values():
+            for key in field.type._flat_keys_(field.data_name):
+                if key in exported_keys:
+                    raise ValueError(f"Data name '{key}' of {cls.__name__} is already used by another exported field")
+                exported_keys[key] = len(exported_keys)
+        cls._exported_keys_ = exported_keys
         cls._data_constructor_signature_ = inspect.Signature(
             [inspect.Parameter(name, inspect.Parameter.POSITIONAL_OR_KEYWORD) for name in cls._imported_fields_]
         )
-- 
2.43.0


From 5cb1df00b7d5fb37b22191b612afc339d16dd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:45 +0000
Subject: [PATCH 19/21] fix: compile the right function when several start on
 the same line

find_function only looked at the first line, so all functions starting on
one line, such as f and g in `f, g = lambda x: x + 1, lambda x: x * 10`,
were compiled to the body of the first.
---
 sonolus/backend/utils.py | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/sonolus/backend/utils.py b/sonolus/backend/utils.py
index 6f22443..ed77e11 100644
--- a/sonolus/backend/utils.py
+++ b/sonolus/backend/utils.py
@@ -3,6 +3,7 @@ import inspect
 from collections.abc import Callable
 from functools import cache
 from pathlib import Path
+from types import CodeType
 
 
 @cache
@@ -12,7 +13,7 @@ def get_function(fn: Callable) -> tuple[str, ast.FunctionDef]:
     _, start_line = inspect.getsourcelines(fn)
     base_tree = get_tree_from_file(source_file)
     try:
-        return source_file, find_function(base_tree, start_line)
+        return source_file, find_function(base_tree, start_line, getattr(inspect.unwrap(fn), "__code__", None))
     except ValueError:
         raise ValueError(f"Function {fn} not found in source file {source_file}") from None
 
@@ -63,9 +64,12 @@ def get_functions(tree: ast.Module) -> list[ast.FunctionDef | ast.Lambda]:
     return visitor.results
 
 
-def find_function(tree: ast.Module, line: int):
-    for node in get_functions(tree):
-        if node.lineno == line or (
+def find_function(tree: ast.Module, line: int, code: CodeType | None = None):
+    candidates = [
+        node
+        for node in get_functions(tree)
+        if node.lineno == line
+        or (
             isinstance(node, ast.FunctionDef)
             and node.decorator_list
             # inspect.getsourcelines / co_firstlineno returns exactly the first decorator's
@@ -73,9 +77,35 @@ def find_function(tree: ast.Module, line: int):
             # whole span up to the def line (which would also claim a lambda nested in the
             # decorator).
             and node.decorator_list[0].lineno == line
-        ):
-            return node
-    raise ValueError("Function not found")
+        )
+    ]
+    if not candidates:
+        raise ValueError("Function not found")
+    if len(candidates) > 1 and code is not None:
+        # Several functions may start on the same line, so pick the one the code was compiled from, which comes last
+        # if others contain it
+        return next((node for node in reversed(candidates) if _is_source_of(node, code)), candidates[0])
+    return candidates[0]
+
+
+def _is_source_of(node: ast.FunctionDef | ast.Lambda, code: CodeType) -> bool:
+    is_lambda = isinstance(node, ast.Lambda)
+    if is_lambda != (code.co_name == "<lambda>"):
+        return False
+    # Positions that are unknown or empty belong to instructions without a counterpart in the source
+    positions = [p for p in code.co_positions() if None not in p and (p[0], p[2]) != (p[1], p[3])]
+    if positions:
+        first, last = (node.body, node.body) if is_lambda else (node.body[0], node.body[-1])
+        start = (first.lineno, first.col_offset)
+        end = (last.end_lineno, last.end_col_offset)
+        return all(start <= (p[0], p[2]) and (p[1], p[3]) <= end for p in positions)
+    # Only constants are returned, so there are no free variables and the function compiles to the same code on its own
+    tree = ast.Expression(node) if is_lambda else ast.Module([node], [])
+    return any(
+        isinstance(c, CodeType)
+        and (c.co_name, c.co_code, repr(c.co_consts)) == (code.co_name, code.co_code, repr(code.co_consts))
+        for c in compile(tree, "<unknown>", "eval" if is_lambda else "exec").co_consts
+    )
 
 
 class ScanWrites(ast.NodeVisitor):
-- 
2.43.0


From d976703dabcaf6a6c40c5915e96cba89ed596891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:24 +0000
Subject: [PATCH 20/21] fix: accept data fields of type int, float and bool in
 streams

Annotations were not turned into types, so the documented `data_field: int`
was silently ignored and using it failed with an unrelated error.
---
 sonolus/script/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 080fc9f..26e843a 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -9,6 +9,7 @@ from sonolus.backend.ops import Op
 from sonolus.script.array_like import check_positive_index
 from sonolus.script.internal.context import ctx
 from sonolus.script.internal.descriptor import SonolusDescriptor
+from sonolus.script.internal.generic import validate_concrete_type
 from sonolus.script.internal.introspection import get_field_specifiers
 from sonolus.script.internal.meta_fn import meta_fn
 from sonolus.script.internal.native import native_function
@@ -111,7 +112,8 @@ def streams[T](cls: type[T]) -> T:
                 # Streams store their data across several backing streams
                 entries.append((name, offset, annotation))
                 offset += annotation.backing_size()
-            elif issubclass(annotation, Value) and annotation._is_concrete_():
+            else:
+                annotation = validate_concrete_type(annotation)
                 setattr(cls, name, _StreamDataField(offset, annotation))
                 # Data fields store their data in a single backing stream at different offsets in the same stream
                 entries.append((name, offset, annotation))
-- 
2.43.0


From db46711c09adbf5a1358e2800f5872e1de596f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:24 +0000
Subject: [PATCH 21/21] fix: do not repeat the last key of a stream in
 iter_*_since_previous_frame

next_key returns its argument if there is no later key, so a last key equal
to the time of the previous frame was yielded again.
---
 sonolus/script/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/stream.py b/sonolus/script/stream.py
index 26e843a..d775caa 100644
--- a/sonolus/script/stream.py
+++ b/sonolus/script/stream.py
@@ -366,7 +366,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_items_from_desc(self, start: int | float, /) -> SonolusIterator[tuple[int | float, T]]:
         """Iterate over the items in the stream in descending order starting from the given key.
@@ -412,7 +412,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscKeyIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscKeyIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_keys_from_desc(self, start: int | float, /) -> SonolusIterator[int | float]:
         """Iterate over the keys in the stream in descending order starting from the given key.
@@ -458,7 +458,7 @@ class Stream[T](Record):
         ```
         """
         _check_can_read_stream()
-        return _StreamBoundedAscValueIterator(self, self.next_key(prev_time()), time())
+        return _StreamBoundedAscValueIterator(self, self.next_key_or_default(prev_time(), inf), time())
 
     def iter_values_from_desc(self, start: int | float, /) -> SonolusIterator[T]:
         """Iterate over the values in the stream in descending order starting from the given key.
-- 
2.43.0


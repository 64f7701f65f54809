From 57bb91254e482a42d7bee3bed6eede39c625f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 01/10] fix: SubsFunc returned the wrong argument when the
 expression is itself an argument

SubsFunc(x, [x, y])(a, b) returned b because the top of the stack was assumed
to be the result, so x.xreplace({x: 1, y: 2}) gave 2 and a differentiation rule
like diff[f(a, b), a] = a used the wrong argument.
---
 src/protosym/core/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..af2d027 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,8 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # Usually this is the top of the stack but not if expr is one of args.
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +525,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From 3ac44644ba507d3101a3e149183adeb957aed298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/10] fix: bracket the base of a power in repr and LaTeX when
 it is ambiguous

(x**y)**2 printed as x**y**2, the same as x**(y**2), and (-1)**2 printed as
-1**2. The LaTeX x^{y}^{2} was not even valid.
---
 src/protosym/simplecas/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..09189aa 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -57,13 +57,27 @@ eval_f64[cos(a)] = f64_cos(a)
 #                                                                           #
 # ------------------------------------------------------------------------- #
 
+
+class _PowStr(str):
+    """String for a power (needs brackets if used as the base of a power)."""
+
+    __slots__ = ()
+
+
+def _pow_base(base: str) -> str:
+    """Add brackets to the base of a power if needed e.g. ``(x**y)**2``."""
+    if isinstance(base, _PowStr) or base.startswith("-"):
+        return f"({base})"
+    return base
+
+
 repr_atom = AtomFunc[str](str)
 repr_call = HeadOp[str](lambda head, args: f'{head}({", ".join(args)})')
 str_from_int = PyFunc1[int, str](str)
 str_from_str = PyFunc1[str, str](str)
 repr_add = PyOpN[str](lambda args: f'({" + ".join(args)})')
 repr_mul = PyOpN[str](lambda args: f'({"*".join(args)})')
-repr_pow = PyOp2[str](lambda b, e: f"{b}**{e}")
+repr_pow = PyOp2[str](lambda b, e: _PowStr(f"{_pow_base(b)}**{e}"))
 
 
 eval_repr[HeadRule(a, b)] = repr_call(a, b)
@@ -83,7 +97,7 @@ eval_repr[a**b] = repr_pow(a, b)
 
 latex_add = PyOpN(lambda args: f'({" + ".join(args)})')
 latex_mul = PyOpN(lambda args: "(" + r" \times ".join(args) + ")")
-latex_pow = PyOp2(lambda b, e: f"{b}^{{{e}}}")
+latex_pow = PyOp2[str](lambda b, e: _PowStr(f"{_pow_base(b)}^{{{e}}}"))
 latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
-- 
2.43.0


From 7d3200050869693e2342afa2e6412b5bda33b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 03/10] fix: Matrix.from_sympy failed for a zero matrix

There are no nonzero elements so from_sympy was called with an empty Tuple
which raised NotImplementedError.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..9cdc7d9 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, sympy.Tuple):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From a294674d150c09339772e3bd8cc3e5bd4e9e7ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 04/10] fix: make construction of unique objects safe with
 multiple threads

WeakValueDictionary.setdefault is not atomic so threads creating the same
expression concurrently could get different unequal objects.
---
 src/protosym/core/atom.py     |  3 ++-
 src/protosym/core/sym.py      |  3 +--
 src/protosym/core/tree.py     |  2 +-
 src/protosym/core/weakdict.py | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 37 insertions(+), 4 deletions(-)
 create mode 100644 src/protosym/core/weakdict.py

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..bf4d585 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -10,7 +10,8 @@ from typing import Any, cast
 from typing import Generic as _Generic
 from typing import Hashable as _Hashable
 from typing import TypeVar as _TypeVar
-from weakref import WeakValueDictionary as _WeakDict
+
+from protosym.core.weakdict import WeakDict as _WeakDict
 
 __all__ = [
     "Atom",
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..759a4db 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -16,13 +16,12 @@ from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 if _TYPE_CHECKING:
     from typing_extensions import Self
 
-from weakref import WeakValueDictionary as _WeakDict
-
 from protosym.core.atom import AtomType
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
 from protosym.core.tree import SubsFunc, Tr, Tree
+from protosym.core.weakdict import WeakDict as _WeakDict
 
 __all__ = ["Sym", "SymAtomType", "SymEvaluator"]
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index af2d027..a08e7bd 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,9 +7,9 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
-from weakref import WeakValueDictionary as _WeakDict
 
 from protosym.core.atom import Atom, AtomType
+from protosym.core.weakdict import WeakDict as _WeakDict
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
diff --git a/src/protosym/core/weakdict.py b/src/protosym/core/weakdict.py
new file mode 100644
index 0000000..53307b5
--- /dev/null
+++ b/src/protosym/core/weakdict.py
@@ -0,0 +1,33 @@
+"""Weak dict used for the global stores of unique objects."""
+
+from __future__ import annotations
+
+from threading import RLock
+from typing import TypeVar
+from weakref import WeakValueDictionary
+
+__all__ = ["WeakDict"]
+
+
+_K = TypeVar("_K")
+_V = TypeVar("_V")
+
+
+class WeakDict(WeakValueDictionary[_K, _V]):
+    """A :class:`WeakValueDictionary` with atomic :meth:`setdefault`.
+
+    The ``setdefault`` method of :class:`WeakValueDictionary` is a lookup
+    followed by a store so it can return different objects for the same key to
+    different threads.
+    """
+
+    def __init__(self) -> None:
+        """Create an empty WeakDict."""
+        super().__init__()
+        # Reentrant because anything that allocates might run a finalizer.
+        self._lock = RLock()
+
+    def setdefault(self, key: _K, default: _V) -> _V:  # type: ignore[override]
+        """Return the value for key or otherwise store and return default."""
+        with self._lock:
+            return super().setdefault(key, default)
-- 
2.43.0


From 4d3c811e427890f030b0f27d02ebc812323f304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 05/10] fix: do not ignore a supplied value of None when
 evaluating

eval_forward treated None as a missing value whereas eval_recursive used it.
---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From 2e2832d42456dba9c0bdaaf2539514718fe103de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 06/10] fix: lambdify and to_llvm_ir failed for some symbol
 names

The name of an argument could clash with the names used in the generated code
(Symbol('.0'), Symbol('_out')) or was not escaped (quotes and backslashes).
---
 src/protosym/simplecas/lambdification.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..893dcfd 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -20,6 +20,19 @@ def _double_to_hex(f: float) -> str:
     return hex(struct.unpack("<Q", struct.pack("<d", f))[0])
 
 
+def _llvm_argname(sym: Tree) -> str:
+    """Name for an argument in LLVM IR e.g. ``%"x"`` for ``x``.
+
+    The result should not clash with the names used for the instructions
+    (``%".0"`` etc) or for the output array (``%"_out"``).
+    """
+    name = str(sym)
+    if not name or name.startswith((".", "_out")):
+        name = "_out." + name
+    name = name.replace("\\", r"\5C").replace('"', r"\22")
+    return f'%"{name}"'
+
+
 _llvm_header = """
 ; ModuleID = "mod1"
 target triple = "unknown-unknown-unknown"
@@ -38,7 +51,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = {s: _llvm_argname(s) for s in symargs}
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +167,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = {s: _llvm_argname(s) for s in symargs}
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From 2212636ec1be48e14c548350409cb7d5eeb7ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 07/10] fix: from_sympy failed for a function called with no
 arguments

An undefined function applied to no arguments like f() has empty args in
SymPy and so was treated as an unsupported atom (f() could be converted to
SymPy but not back).
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index 9cdc7d9..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args or isinstance(expr, sympy.Tuple):
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From 47de54771b4f71d52e03d621c169dd0e14181983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 08/10] fix: lambdify and to_llvm_ir ignored surplus arguments
 of sin, cos and pow

---
 src/protosym/simplecas/lambdification.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index 893dcfd..1bfb9ef 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -76,12 +76,12 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
@@ -193,12 +193,12 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
-- 
2.43.0


From f2c8dcdd928f25d5d57ae2af0a7e8a827cf2619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 09/10] fix: copy.copy of a Tree made a second object for the
 same expression

Copying a second Tree while the first copy was alive even changed the first
copy into a copy of the second: both copies were the Tree without children
that is made by calling Tree.__new__ with no arguments.
---
 src/protosym/core/tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index a08e7bd..1e19edb 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
+from typing import Any, Callable
 
 from protosym.core.atom import Atom, AtomType
 from protosym.core.weakdict import WeakDict as _WeakDict
@@ -153,6 +154,13 @@ class Tree:
         """Compound expressions are made by calling Tree instances."""
         return Tree(*expressions)
 
+    def __reduce__(self) -> tuple[Callable[..., Tree], tuple[Any, ...]]:
+        """Rebuild rather than duplicate the Tree e.g. in ``copy.copy``."""
+        if self.children:
+            return Tree, self.children
+        else:
+            return Tr, (self.value,)
+
     def __repr__(self) -> str:
         """Show the verbose representaton."""
         if self.children:
-- 
2.43.0


From 5355eac6933789a3a3b4b69fe8735a2251a63efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:32 +0000
Subject: [PATCH 10/10] fix: lambdify and to_llvm_ir failed for very long
 symbol names

---
 src/protosym/simplecas/lambdification.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index 1bfb9ef..1f0828d 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -20,14 +20,18 @@ def _double_to_hex(f: float) -> str:
     return hex(struct.unpack("<Q", struct.pack("<d", f))[0])
 
 
-def _llvm_argname(sym: Tree) -> str:
-    """Name for an argument in LLVM IR e.g. ``%"x"`` for ``x``.
+def _llvm_argname(sym: Tree, n: int) -> str:
+    """Name for argument number ``n`` in LLVM IR e.g. ``%"x"`` for ``x``.
 
     The result should not clash with the names used for the instructions
-    (``%".0"`` etc) or for the output array (``%"_out"``).
+    (``%".0"`` etc) or for the output array (``%"_out"``). LLVM truncates names
+    longer than 1024 bytes and does not allow every character so the argument
+    number is used instead for names that it might not accept.
     """
     name = str(sym)
-    if not name or name.startswith((".", "_out")):
+    if len(name) > 200 or not name.isprintable():
+        name = f"_out.{n}"
+    elif not name or name.startswith((".", "_out")):
         name = "_out." + name
     name = name.replace("\\", r"\5C").replace('"', r"\22")
     return f'%"{name}"'
@@ -51,7 +55,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     graph = forward_graph(expression)
 
-    argnames = {s: _llvm_argname(s) for s in symargs}
+    argnames = {s: _llvm_argname(s, n) for n, s in enumerate(symargs)}
 
     identifiers = []
     for a in graph.atoms:
@@ -167,7 +171,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: _llvm_argname(s) for s in symargs}
+    argnames = {s: _llvm_argname(s, n) for n, s in enumerate(symargs)}
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From ba6c3fa4136b5173d3ce23109a3f9b4f0527f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 01/49] fix: propagate in-place augmented assignments (e.g. lst
 += [x]) to aliases and dependents

---
 core/ipyflow/data_model/symbol.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 3f57875..a56fbfd 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1035,6 +1035,17 @@ class Symbol:
             return
         if overwrite and not self.is_globally_accessible:
             self.watchpoints.clear()
+        if (
+            isinstance(self.stmt_node, ast.AugAssign)
+            and not overwrite
+            and not self.is_immutable
+            and prev_obj is not None
+            and prev_obj is self.obj
+        ):
+            # the augmented assignment updated the object in place, e.g. `lst += [x]`
+            mutated = True
+            # extending a list leaves the elements that were already there alone
+            propagate_to_namespace_descendents = not isinstance(self.obj, list)
         if mutated and self.is_immutable:
             return
         # if we get here, no longer implicit
-- 
2.43.0


From d088788730d234cd2a71a7bbfdab64be6ab4b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 02/49] fix: do not recurse endlessly when checking liveness of
 a cell that calls a recursive function

---
 core/ipyflow/analysis/live_refs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index bcee1d5..382e527 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -372,6 +372,7 @@ class ComputeLiveSymbolRefs(
             }
             call_live: Set[LiveSymbolRef] = set()
             func_ast_by_name = dict(self._func_ast_by_name)
+            self._visiting_func_calls.add(node.func.id)
             with self.push_attributes(
                 _scope=call_scope,
                 dead=call_dead,
-- 
2.43.0


From acf48f8168d6f8ecbd90c3274faf91455cc967e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 03/49] fix: liveness of calls to same-cell functions that have
 keyword-only parameters

---
 core/ipyflow/analysis/live_refs.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 382e527..0d7fca2 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -364,7 +364,6 @@ class ComputeLiveSymbolRefs(
                 SymbolRef.from_string(arg.arg, scope=self._scope)
                 for arg in itertools.chain(
                     func_ast.args.args or [],
-                    func_ast.args.kw_defaults or [],
                     [a for a in [func_ast.args.vararg, func_ast.args.kwarg] if a],
                     getattr(func_ast.args, "posonlyargs", None) or [],
                     getattr(func_ast.args, "kwonlyargs", None) or [],
-- 
2.43.0


From 1ea792d1636998d82023988c3fe2b97223c4acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 04/49] fix: liveness of a comprehension that iterates over a
 name it also binds

---
 core/ipyflow/analysis/live_refs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 0d7fca2..1ef024b 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -418,6 +418,8 @@ class ComputeLiveSymbolRefs(
         pass
 
     def generic_visit_comprehension(self, node) -> None:
+        # the first iterable is evaluated outside of the comprehension's scope
+        self.visit(node.generators[0].iter)
         with self.killed_context([gen.target for gen in node.generators]):
             if isinstance(node, ast.DictComp):
                 self.visit(node.key)
-- 
2.43.0


From c93caca3f092b259fd85feae01cb998df8c446d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 05/49] fix: defaults of lambdas and of keyword-only parameters
 are live where they are evaluated

---
 core/ipyflow/analysis/live_refs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 1ef024b..40da16c 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -266,6 +266,7 @@ class ComputeLiveSymbolRefs(
         self, node: Union[ast.FunctionDef, ast.AsyncFunctionDef]
     ) -> None:
         self.generic_visit(node.args.defaults)
+        self.generic_visit([d for d in node.args.kw_defaults if d is not None])
         self.generic_visit(node.decorator_list)
         self.dead.add(SymbolRef(node).canonical())
         self._func_ast_by_name[node.name] = node
@@ -435,7 +436,8 @@ class ComputeLiveSymbolRefs(
     )
 
     def visit_Lambda(self, node: ast.Lambda) -> None:
-        with self.kill_context():
+        # defaults are evaluated when the lambda is created
+        with self.attrsub_context(False):
             self.visit(node.args)
 
     def visit_arg(self, node) -> None:
-- 
2.43.0


From 8092bd7eaec321a64f714add19b6dd468d3856bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 06/49] fix: names read by a class body are live

---
 core/ipyflow/analysis/live_refs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 40da16c..2772177 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -342,7 +342,15 @@ class ComputeLiveSymbolRefs(
 
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
+        self.generic_visit(node.keywords)
         self.generic_visit(node.decorator_list)
+        # the body runs right away, in a scope of its own
+        with self.push_attributes(
+            dead=set(self.dead),
+            modified=set(),
+            _func_ast_by_name=dict(self._func_ast_by_name),
+        ):
+            self.generic_visit(node.body)
         self.dead.add(SymbolRef(node).canonical())
 
     def visit_Call(self, node: ast.Call) -> None:
-- 
2.43.0


From 862ffff4fa0a7f363c587239407f362c1f5a5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 07/49] fix: containers whose elements are assigned inside a
 tuple target are live

---
 core/ipyflow/analysis/live_refs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 2772177..25b855d 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -156,8 +156,7 @@ class ComputeLiveSymbolRefs(
                 self.visit(value)
             with self.push_attributes(_is_lhs=True):
                 for target in targets:
-                    if isinstance(target, (ast.Attribute, ast.Subscript)):
-                        self.visit(target.value)
+                    self._visit_Assign_target_container(target)
         # make a copy, then track the new dead
         this_assign_dead = set(self.dead)
         with self.push_attributes(dead=this_assign_dead):
@@ -243,6 +242,15 @@ class ComputeLiveSymbolRefs(
 
     visit_Import = visit_ImportFrom = visit_import
 
+    def _visit_Assign_target_container(self, target: ast.expr) -> None:
+        if isinstance(target, (ast.Attribute, ast.Subscript)):
+            self.visit(target.value)
+        elif isinstance(target, (ast.Tuple, ast.List)):
+            for elt in target.elts:
+                self._visit_Assign_target_container(elt)
+        elif isinstance(target, ast.Starred):
+            self._visit_Assign_target_container(target.value)
+
     def visit_Assign_target(
         self,
         target_node: Union[
-- 
2.43.0


From ebca43718ccb2df1f3390907d6ebb4b4d7aa8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 08/49] fix: a recursive function's own name is not live in the
 cell that defines it

---
 core/ipyflow/analysis/live_refs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 25b855d..085c34b 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -386,6 +386,8 @@ class ComputeLiveSymbolRefs(
                     getattr(func_ast.args, "kwonlyargs", None) or [],
                 )
             }
+            # recursive references are to the definition in this very cell
+            call_dead.add(SymbolRef(func_ast).canonical())
             call_live: Set[LiveSymbolRef] = set()
             func_ast_by_name = dict(self._func_ast_by_name)
             self._visiting_func_calls.add(node.func.id)
-- 
2.43.0


From 427a1455305c74acdba5c1ff47af2822591a12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 09/49] fix: container and index of a deleted element are live

---
 core/ipyflow/analysis/live_refs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 085c34b..123b996 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -434,7 +434,13 @@ class ComputeLiveSymbolRefs(
             self.visit(node.slice)
 
     def visit_Delete(self, node: ast.Delete) -> None:
-        pass
+        # like element assignments, element deletions refer to their container
+        with self.push_attributes(_is_lhs=True):
+            for target in node.targets:
+                self._visit_Assign_target_container(target)
+        for target in node.targets:
+            if isinstance(target, ast.Subscript):
+                self.visit(target.slice)
 
     def generic_visit_comprehension(self, node) -> None:
         # the first iterable is evaluated outside of the comprehension's scope
-- 
2.43.0


From e7efc6c320bf671dcc7a6e405e8561f20079ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 10/49] fix: lambdas passed to external functions keep their
 captured variables, defaults, globals and identity

---
 core/ipyflow/tracing/ipyflow_tracer.py |  5 ++-
 core/ipyflow/tracing/uninstrument.py   | 57 +++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index f66e931..154097f 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1170,9 +1170,12 @@ class DataflowTracer(StackFrameManager):
             self._resolve_external_call()
         if (
             ext_call_cand.modname != "builtins"
+            and isinstance(arg_node, ast.Lambda)
             and getattr(arg_obj, "__name__", None) == "<lambda>"
         ):
-            return uninstrument(arg_obj)
+            # only replace lambdas that nothing else refers to, and let
+            # the replacement see the current values of global variables
+            return uninstrument(arg_obj, override_globals=False)
         return None
 
     def _save_external_call_candidate(
diff --git a/core/ipyflow/tracing/uninstrument.py b/core/ipyflow/tracing/uninstrument.py
index 11dc779..5b930c4 100644
--- a/core/ipyflow/tracing/uninstrument.py
+++ b/core/ipyflow/tracing/uninstrument.py
@@ -16,12 +16,33 @@ else:
     import astunparse
 
 
+def _strip_evaluated_parts(func_node: ast.AST) -> ast.AST:
+    # defaults and annotations were evaluated already when the function was defined;
+    # do not evaluate them a second time
+    func_node = copy.deepcopy(func_node)
+    args = getattr(func_node, "args", None)
+    if args is not None:
+        none_expr = ast.parse("None", mode="eval").body
+        args.defaults = [none_expr for _ in args.defaults]
+        args.kw_defaults = [default and none_expr for default in args.kw_defaults]
+        for arg in ast.walk(args):
+            if isinstance(arg, ast.arg):
+                arg.annotation = None
+    if isinstance(func_node, (ast.AsyncFunctionDef, ast.FunctionDef)):
+        func_node.returns = None
+    return func_node
+
+
 def _make_uninstrumented_function(
     obj: FunctionType,
-    func_text: str,
     func_node: ast.AST,
     seen: Set[int],
+    override_globals: bool = True,
 ):
+    is_decorated = len(getattr(func_node, "decorator_list", [])) > 0
+    if not is_decorated:
+        func_node = _strip_evaluated_parts(func_node)
+    func_text = astunparse.unparse(func_node)
     if isinstance(func_node, (ast.AsyncFunctionDef, ast.FunctionDef)):
         func_name = func_node.name
     elif isinstance(func_node, ast.Lambda):
@@ -33,9 +54,10 @@ def _make_uninstrumented_function(
     kwargs: Dict[str, Any] = {}
     if obj.__closure__ is not None:
         for cell_name, cell in zip(obj.__code__.co_freevars, obj.__closure__):
-            kwargs[cell_name] = cell.cell_contents
+            # without decorators, the captured variables are shared below instead
+            kwargs[cell_name] = cell.cell_contents if is_decorated else None
     global_overrides: Dict[str, Any] = {}
-    for name in obj.__code__.co_names:
+    for name in obj.__code__.co_names if override_globals else ():
         if name in obj.__globals__:
             referenced_global = obj.__globals__[name]
             uninstrumented = uninstrument(referenced_global, seen=seen)
@@ -61,10 +83,23 @@ def {PYCCOLO_BUILTIN_PREFIX}_make_closure({", ".join(kwargs.keys())}):
         return None
     if hasattr(obj, "__name__") and hasattr(new_obj, "__name__"):
         new_obj.__name__ = obj.__name__
-    if isinstance(new_obj, FunctionType):
-        return new_obj
-    else:
+    if not isinstance(new_obj, FunctionType):
         return None
+    if is_decorated:
+        return new_obj
+    # share the captured variables and the values of the defaults with the original function
+    closure_cells = dict(zip(obj.__code__.co_freevars, obj.__closure__ or ()))
+    shared_obj = FunctionType(
+        new_obj.__code__,
+        global_env,
+        obj.__name__,
+        obj.__defaults__,
+        tuple(closure_cells[name] for name in new_obj.__code__.co_freevars),
+    )
+    shared_obj.__kwdefaults__ = obj.__kwdefaults__
+    shared_obj.__qualname__ = obj.__qualname__
+    shared_obj.__dict__.update(obj.__dict__)
+    return shared_obj
 
 
 def _get_uninstrumented_decorator(obj: FunctionType, seen: Set[int]):
@@ -73,12 +108,13 @@ def _get_uninstrumented_decorator(obj: FunctionType, seen: Set[int]):
         return None
     func_node = copy.deepcopy(func_node)
     func_node.decorator_list = func_node.decorator_list[:decorator_idx]
-    func_text = astunparse.unparse(func_node)
-    return _make_uninstrumented_function(obj, func_text, func_node, seen)
+    return _make_uninstrumented_function(obj, func_node, seen)
 
 
 def uninstrument(
-    obj: FunctionType, seen: Optional[Set[int]] = None
+    obj: FunctionType,
+    seen: Optional[Set[int]] = None,
+    override_globals: bool = True,
 ) -> Optional[FunctionType]:
     if seen is None:
         seen = set()
@@ -96,9 +132,8 @@ def uninstrument(
             continue
         if alias.func_def_stmt is None:
             continue
-        func_text = astunparse.unparse(alias.func_def_stmt)
         new_obj = _make_uninstrumented_function(
-            obj, func_text, alias.func_def_stmt, seen
+            obj, alias.func_def_stmt, seen, override_globals=override_globals
         )
         if new_obj is not None:
             return new_obj
-- 
2.43.0


From 7f8f8e28417b1c1d58a415fcd70a315e30e6a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 11/49] fix: names in annotations are live

---
 core/ipyflow/analysis/live_refs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 123b996..e15846e 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -226,6 +226,7 @@ class ComputeLiveSymbolRefs(
         self.visit_Assign_impl(node.targets, node.value)
 
     def visit_AnnAssign(self, node: ast.AnnAssign) -> None:
+        self.visit(node.annotation)
         self.visit_Assign_impl([node.target], node.value)
 
     def visit_AugAssign(self, node: ast.AugAssign) -> None:
@@ -276,6 +277,11 @@ class ComputeLiveSymbolRefs(
         self.generic_visit(node.args.defaults)
         self.generic_visit([d for d in node.args.kw_defaults if d is not None])
         self.generic_visit(node.decorator_list)
+        for arg in ast.walk(node.args):
+            if isinstance(arg, ast.arg) and arg.annotation is not None:
+                self.visit(arg.annotation)
+        if node.returns is not None:
+            self.visit(node.returns)
         self.dead.add(SymbolRef(node).canonical())
         self._func_ast_by_name[node.name] = node
 
-- 
2.43.0


From 6404a9a69a60c8fb244611172653fb7fc1ff45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 12/49] fix: parts of loop, with and comprehension targets are
 live

---
 core/ipyflow/analysis/live_refs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index e15846e..942b417 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -411,7 +411,7 @@ class ComputeLiveSymbolRefs(
     def visit_Attribute(self, node: ast.Attribute) -> None:
         if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
-        with self.attrsub_context():
+        with self.live_context(), self.attrsub_context():
             self.visit(node.value)
 
     def visit_BinOp(self, node: ast.BinOp) -> None:
@@ -434,10 +434,12 @@ class ComputeLiveSymbolRefs(
             return
         if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
-        with self.attrsub_context():
-            self.visit(node.value)
-        with self.attrsub_context(inside=False):
-            self.visit(node.slice)
+        # what is part of a target is read, even where the target as a whole is killed
+        with self.live_context():
+            with self.attrsub_context():
+                self.visit(node.value)
+            with self.attrsub_context(inside=False):
+                self.visit(node.slice)
 
     def visit_Delete(self, node: ast.Delete) -> None:
         # like element assignments, element deletions refer to their container
-- 
2.43.0


From 745a9a25e721a42639afc9ae562a9f640fe8f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 13/49] fix: negative list indices refer to the same elements
 as the nonnegative ones

---
 core/ipyflow/data_model/namespace.py | 31 ++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index 6dd8c2c..a776783 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -16,7 +16,7 @@ from typing import (
 )
 
 from ipyflow.data_model.scope import Scope
-from ipyflow.data_model.symbol import Symbol
+from ipyflow.data_model.symbol import Symbol, SymbolType
 from ipyflow.data_model.timestamp import Timestamp
 from ipyflow.models import _NamespaceContainer, namespaces
 from ipyflow.singletons import flow
@@ -284,6 +284,27 @@ class Namespace(Scope):
     ) -> Optional[Symbol]:
         return self.lookup_symbol_by_name_this_indentation(name, *args, **kwargs)
 
+    def _upsert_symbol_for_name_inner(
+        self,
+        name: SupportedIndexType,
+        obj: Any,
+        deps: Set[Symbol],
+        symbol_type: SymbolType,
+        *args: Any,
+        **kwargs: Any,
+    ) -> Tuple[Symbol, Optional[Symbol], Optional[Any]]:
+        if (
+            symbol_type == SymbolType.SUBSCRIPT
+            and isinstance(self.obj, Sequence)
+            and isinstance(name, int)
+            and -len(self.obj) <= name < 0
+        ):
+            # negative indices refer to the same elements as the nonnegative ones
+            name += len(self.obj)
+        return super()._upsert_symbol_for_name_inner(
+            name, obj, deps, symbol_type, *args, **kwargs
+        )
+
     def _remap_sym(self, from_idx: int, to_idx: int, prev_obj: Optional[Any]) -> None:
         subsym = self._subscript_symbol_by_name.pop(from_idx, None)
         if subsym is None:
@@ -314,12 +335,10 @@ class Namespace(Scope):
         self, name: SupportedIndexType, is_subscript: bool = False
     ) -> None:
         if is_subscript:
+            if isinstance(self.obj, list) and isinstance(name, int) and name < 0:
+                # it will have already been deleted, so account for the old length
+                name += len(self.obj) + 1
             sym = self._subscript_symbol_by_name.pop(name, None)
-            if sym is None and name == -1 and isinstance(self.obj, list):
-                name = len(
-                    self.obj
-                )  # it will have already been deleted, so don't subtract 1
-                sym = self._subscript_symbol_by_name.pop(name, None)
             if sym is not None:
                 sym.update_deps(set(), deleted=True)
             if isinstance(self.obj, list) and isinstance(name, int):
-- 
2.43.0


From 195598e0a4866b6ee486a8906b51ddb6b6b26fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 14/49] fix: symbols of list elements are shuffled from the
 position that insert and pop really use

---
 .../ipyflow/tracing/external_calls/list_handlers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/external_calls/list_handlers.py b/core/ipyflow/tracing/external_calls/list_handlers.py
index 19ebe02..759bb2d 100644
--- a/core/ipyflow/tracing/external_calls/list_handlers.py
+++ b/core/ipyflow/tracing/external_calls/list_handlers.py
@@ -55,10 +55,15 @@ class ListInsert(ListMethod):
         }
         if len(inserted_syms) > 1:
             return
-        namespace.shuffle_symbols_upward_from(self.insert_pos)
+        orig_len = len(namespace.obj) - 1
+        insert_pos = self.insert_pos
+        if insert_pos < 0:
+            insert_pos += orig_len
+        insert_pos = min(max(insert_pos, 0), orig_len)
+        namespace.shuffle_symbols_upward_from(insert_pos)
         namespace.upsert_symbol_for_name(
-            self.insert_pos,
-            namespace.obj[self.insert_pos],
+            insert_pos,
+            namespace.obj[insert_pos],
             inserted_syms,
             self.stmt_node,
             overwrite=False,
@@ -87,5 +92,7 @@ class ListRemove(ListMethod):
 
 
 class ListPop(ListRemove):
+    remove_pos: Optional[int] = -1
+
     def process_arg(self, pop_pos: int) -> None:
         self.remove_pos = pop_pos
-- 
2.43.0


From 882805ae10c4608cd67d014b86dd31432668709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 15/49] fix: creating another reference to an object does not
 make its readers ready

---
 core/ipyflow/data_model/symbol.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index a56fbfd..362bfec 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1084,6 +1084,15 @@ class Symbol:
             and self.obj_type is not type
             and not self.is_class
             and self.namespace is not None
+            and (
+                # just creating another reference does not mutate the object
+                mutated
+                or prev_obj is self.obj
+                or self.namespace.lookup_symbol_by_name_this_indentation(
+                    self.IPYFLOW_MUTATION_VIRTUAL_SYMBOL_NAME
+                )
+                is None
+            )
         ):
             self.namespace.upsert_symbol_for_name(
                 self.IPYFLOW_MUTATION_VIRTUAL_SYMBOL_NAME, object(), propagate=False
-- 
2.43.0


From 34e1c23cf24112d496677c2212fa7dc8d421952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 16/49] fix: creating a container does not make readers of its
 members ready

---
 core/ipyflow/data_model/symbol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 362bfec..e35da10 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1013,8 +1013,11 @@ class Symbol:
         if len(new_deps) != 1:
             return False
         only_dep: Symbol = next(iter(new_deps))
-        # obj ids can get reused for anon symbols like literals
-        return not only_dep.is_anonymous and self.obj_id == only_dep.obj_id
+        if only_dep.is_anonymous:
+            # obj ids can get reused for anon symbols like literals, so rely on the syntax to
+            # tell whether this assigns a new container: creating it did not change its members
+            return isinstance(self.stmt_node.value, (ast.Dict, ast.List, ast.Tuple))
+        return self.obj_id == only_dep.obj_id
 
     def update_deps(
         self,
-- 
2.43.0


From 856864fa32fb674bdcb99e3b3ead33289329664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 17/49] fix: memoization compares functions and classes by
 source only if that determines them

---
 core/ipyflow/data_model/symbol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index e35da10..bce576a 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1577,6 +1577,13 @@ class Symbol:
         if isinstance(
             self.stmt_node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)
         ):
+            if (
+                not self.containing_scope.is_global
+                or self.timestamp > self.shallow_timestamp
+                or any(par.timestamp > self.timestamp for par in self.parents)
+            ):
+                # then the source does not tell what the definition evaluated to
+                return self.NULL, None
             comps = [astunparse.unparse(self.stmt_node)]
             for sym in sorted(self.parents.keys()):
                 par_comp, eq = sym.make_memoize_comparable(seen_ids=seen_ids)
-- 
2.43.0


From 0f50d2200e8f5a268f40b9ce866cab3a5abeba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 18/49] fix: memoization tells inputs of different type,
 length, order or attributes apart

---
 core/ipyflow/data_model/symbol.py | 44 ++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index bce576a..b71522b 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1470,21 +1470,28 @@ class Symbol:
 
     @staticmethod
     def _equal(obj1: Any, obj2: Any) -> bool:
-        return obj1 == obj2
+        try:
+            return type(obj1) is type(obj2) and bool(obj1 == obj2)
+        except Exception:
+            return False
 
     @staticmethod
     def _array_equal(obj1: Any, obj2: Any) -> bool:
         import numpy as np
 
         try:
-            return np.alltrue(obj1 == obj2)  # type: ignore
+            return (
+                type(obj1) is type(obj2)
+                and obj1.dtype == obj2.dtype
+                and np.array_equal(obj1, obj2)
+            )
         except Exception:
             return False
 
     @staticmethod
     def _dataframe_equal(obj1: Any, obj2: Any) -> bool:
         try:
-            return obj1.equals(obj2)  # type: ignore
+            return type(obj1) is type(obj2) and obj1.equals(obj2)  # type: ignore
         except Exception:
             return False
 
@@ -1493,6 +1500,8 @@ class Symbol:
         eqs: List[Callable[[Any, Any], bool]],
     ) -> Callable[[List[Any], List[Any]], bool]:
         def list_eq(lst1: List[Any], lst2: List[Any]) -> bool:
+            if not len(lst1) == len(lst2) == len(eqs):
+                return False
             for eq, obj1, obj2 in zip(eqs, lst1, lst2):
                 if not eq(obj1, obj2):
                     return False
@@ -1505,19 +1514,20 @@ class Symbol:
         cls, obj: Any, seen_ids: Set[int]
     ) -> Tuple[Any, Optional[Callable[[Any, Any], bool]], int]:
         if isinstance(obj, (bool, bytes, bytearray, int, float, str)):
-            return obj, cls._equal, 1
+            # values like `1`, `1.0` and `True` are equal, but not interchangeable
+            snapshot = bytes(obj) if isinstance(obj, bytearray) else obj
+            return (type(obj), snapshot), cls._equal, 1
         if not isinstance(obj, tuple):
             if id(obj) in seen_ids:
                 return cls.NULL, None, -1
             seen_ids.add(id(obj))
-        if isinstance(obj, (dict, frozenset, list, set, tuple)):
+        if getattr(obj, "__dict__", None) and isinstance(obj, (dict, list, tuple)):
+            return cls.NULL, None, -1
+        elif isinstance(obj, (dict, frozenset, list, set, tuple)):
             size = 0
-            comp = []
+            comp: List[Any] = []
             eqs: List[Callable[[Any, Any], bool]] = []
-            if isinstance(obj, dict):
-                iterable: "Iterable[Any]" = sorted(obj.items())
-            else:
-                iterable = obj
+            iterable: "Iterable[Any]" = obj.items() if isinstance(obj, dict) else obj
             for inner in iterable:
                 inner_comp, inner_eq, inner_size = cls.make_memoize_comparable_for_obj(
                     inner, seen_ids
@@ -1534,9 +1544,11 @@ class Symbol:
             elif isinstance(obj, (frozenset, set)):
                 return cls.NULL, None, -1
             else:
-                iter_eq = cls._make_list_eq(eqs)
-            ret = frozenset(comp) if isinstance(obj, (frozenset, set)) else comp
-            return ret, iter_eq, size
+                iter_eq = cls._make_list_eq([cls._equal] + eqs)
+            if isinstance(obj, (frozenset, set)):
+                return [type(obj), frozenset(comp)], iter_eq, size
+            else:
+                return [type(obj)] + comp, iter_eq, size
         elif type(obj) in (type, FunctionType):
             # try to determine it based on the symbol
             for sym in flow().aliases.get(id(obj), []):
@@ -1550,7 +1562,9 @@ class Symbol:
             if module.startswith("numpy"):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith("ndarray"):
-                    return obj, cls._array_equal, obj.size
+                    if obj.dtype.hasobject:
+                        return cls.NULL, None, -1
+                    return obj.copy(), cls._array_equal, obj.size
                 else:
                     numpy = sys.modules.get("numpy")
                     if numpy is not None and isinstance(obj, numpy.number):
@@ -1558,7 +1572,7 @@ class Symbol:
             elif module.startswith(("modin", "pandas")):
                 name = getattr(type(obj), "__name__", "")
                 if name.endswith(("DataFrame", "Series")):
-                    return obj, cls._dataframe_equal, obj.size
+                    return obj.copy(), cls._dataframe_equal, obj.size
             elif module.startswith("ipywidgets"):
                 ipywidgets = sys.modules.get("ipywidgets")
                 if (
-- 
2.43.0


From 20ed287eb2486f83bac6f7b8115b2de3480441d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 19/49] fix: memoized cells have every variable that they read
 from as input

---
 core/ipyflow/data_model/cell.py | 56 ++++++++++++++++++++-------------
 core/ipyflow/flow.py            |  2 ++
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index d434ae8..2cead15 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -116,6 +116,7 @@ class Cell(SliceableMixin):
         self.raw_static_parents: Dict[IdType, Set["Symbol"]] = {}
         self.raw_static_children: Dict[IdType, Set["Symbol"]] = {}
         self.used_symbols: Set["Symbol"] = set()
+        self.external_inputs: Set["Symbol"] = set()
         self.static_removed_symbols: Set["Symbol"] = set()
         self.static_writes: Set["Symbol"] = set()
         self.dynamic_writes: Set["Symbol"] = set()
@@ -317,34 +318,45 @@ class Cell(SliceableMixin):
     def get_reactive_ids_for_tag(cls, tag: str) -> Set[IdType]:
         return cls._reactive_cells_by_tag.get(tag, set())
 
+    def add_external_input(self, sym: "Symbol") -> None:
+        """
+        Register `sym` as an input that was not computed by this cell, along
+        with the variables that it was reached through when it was used.
+        """
+        seen: Set["Symbol"] = set()
+        worklist = [sym]
+        while worklist:
+            sym = worklist.pop()
+            if sym in seen or sym.shallow_timestamp.cell_num == self.cell_ctr:
+                continue
+            seen.add(sym)
+            if sym.containing_scope.is_global:
+                if sym.is_user_accessible:
+                    self.external_inputs.add(sym)
+            elif sym.containing_namespace is not None:
+                obj_id = sym.containing_namespace.obj_id
+                worklist.extend(flow().aliases.get(obj_id, []))
+
     def _maybe_memoize_params(self) -> None:
         if self.is_error:
             return
+        for sym in flow().updated_symbols:
+            sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
         inputs: Dict["Symbol", MemoizedInput] = {}
-        for _ in flow().mut_settings.iter_slicing_contexts():
-            for edges in self.raw_parents.values():
-                for sym in edges:
-                    if sym in inputs:
-                        continue
-                    sym_ts = sym.timestamp
-                    if sym_ts.cell_num == self.cell_ctr:
-                        continue
-                    elif (
-                        not sym.is_user_accessible or not sym.containing_scope.is_global
-                    ):
-                        continue
-                    elif sym_ts.cell_num > self.cell_ctr:
-                        return
-                    inputs[sym] = MemoizedInput(
-                        sym,
-                        sym_ts,
-                        sym.memoize_timestamp,
-                        sym.obj_id,
-                        sym.make_memoize_comparable()[0],
-                    )
+        for sym in self.external_inputs:
+            sym_ts = sym.timestamp
+            if sym_ts.cell_num >= self.cell_ctr:
+                # the cell updated its own input, whose original value is gone
+                return
+            inputs[sym] = MemoizedInput(
+                sym,
+                sym_ts,
+                sym.memoize_timestamp,
+                sym.obj_id,
+                sym.make_memoize_comparable()[0],
+            )
         outputs: Dict["Symbol", MemoizedOutput] = {}
         for sym in flow().updated_symbols:
-            sym.last_updated_timestamp_by_obj_id[sym.obj_id] = sym.timestamp
             if not sym.is_user_accessible or not sym.containing_scope.is_global:
                 continue
             outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
diff --git a/core/ipyflow/flow.py b/core/ipyflow/flow.py
index 3f02798..91ef634 100644
--- a/core/ipyflow/flow.py
+++ b/core/ipyflow/flow.py
@@ -436,6 +436,8 @@ class NotebookFlow(singletons.NotebookFlow):
         child_cell = self._override_child_cell or cells().at_timestamp(child)
         child_cell.used_symbols.add(sym)
         parent_cell = cells().at_timestamp(parent)
+        if child_cell.is_memoized and parent_cell is not child_cell:
+            child_cell.add_external_input(sym)
         # if it has already run, don't add the edge
         if child_cell.is_current and parent_cell.is_current:
             child_cell.add_parent_edge(parent_cell, sym)
-- 
2.43.0


From dececbcf6a77a78195c104b60aa9100cd5a46c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 20/49] fix: memoized results that were changed since are not
 reused

---
 core/ipyflow/data_model/cell.py        | 25 +++++++++++++++++++++++--
 core/ipyflow/memoization/__init__.py   |  1 +
 core/ipyflow/shell/interactiveshell.py |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 2cead15..832e15e 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -359,7 +359,12 @@ class Cell(SliceableMixin):
         for sym in flow().updated_symbols:
             if not sym.is_user_accessible or not sym.containing_scope.is_global:
                 continue
-            outputs[sym] = MemoizedOutput(sym, sym.shallow_timestamp, sym.obj)
+            outputs[sym] = MemoizedOutput(
+                sym,
+                sym.shallow_timestamp,
+                sym.obj,
+                sym.make_memoize_comparable_for_obj(sym.obj, set())[0],
+            )
         assert self.captured_output is not None
         assert self.executed_content is not None
         self._memoized_executions.setdefault(self.executed_content, {})[
@@ -613,9 +618,25 @@ class Cell(SliceableMixin):
                 else:
                     break
             else:
-                return ctr
+                if all(
+                    self._is_memoized_output_intact(value, comparable)
+                    for _, _, value, comparable in outputs
+                ):
+                    return ctr
         return None
 
+    @staticmethod
+    def _is_memoized_output_intact(value: Any, comparable: Any) -> bool:
+        symbols_ = symbols()
+        if comparable is symbols_.NULL:
+            return True
+        current_comp, eq, _ = symbols_.make_memoize_comparable_for_obj(value, set())
+        return (
+            current_comp is not symbols_.NULL
+            and eq is not None
+            and eq(current_comp, comparable)
+        )
+
     def get_transformed_memoized_content(
         self, ctr: Optional[int] = None
     ) -> Optional[str]:
diff --git a/core/ipyflow/memoization/__init__.py b/core/ipyflow/memoization/__init__.py
index 5c3d52b..656d610 100644
--- a/core/ipyflow/memoization/__init__.py
+++ b/core/ipyflow/memoization/__init__.py
@@ -38,6 +38,7 @@ class MemoizedOutput(NamedTuple):
     symbol: "Symbol"
     ts_at_execution: "Timestamp"
     value: Any
+    comparable: Any
 
 
 class MemoizedCellExecution(NamedTuple):
diff --git a/core/ipyflow/shell/interactiveshell.py b/core/ipyflow/shell/interactiveshell.py
index 73bcf7e..220648f 100644
--- a/core/ipyflow/shell/interactiveshell.py
+++ b/core/ipyflow/shell/interactiveshell.py
@@ -521,7 +521,7 @@ class IPyflowInteractiveShell(singletons.IPyflowShell, InteractiveShell):
         print_purple(
             "Detected identical symbol usages to previous run; reusing memoized result..."
         )
-        for sym, out_ts, value in memoized_outputs:
+        for sym, out_ts, value, _ in memoized_outputs:
             if sym.obj is not value:
                 self.user_ns[sym.name] = value
                 sym.update_obj_ref(value)
-- 
2.43.0


From aaed11dec1a7fe373365f4a339b2acfcecb79a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 21/49] fix: slice(stmts=True) of a cell returns statements
 rather than whole cells

---
 core/ipyflow/data_model/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 832e15e..9405ece 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -982,8 +982,8 @@ class Cell(SliceableMixin):
         include_cell_headers: bool = True,
     ) -> Slice:
         if stmts:
-            return self.format_multi_slice(
-                self.compute_slice_stmts(),
+            return statements().format_multi_slice(
+                self._get_stmt_timestamps(),
                 blacken=True,
                 seed_only=seed_only,
                 format_type=format_type,
-- 
2.43.0


From cc680aaeb6d4a01b46608ca62dbdbdf5f26bd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 22/49] fix: statement slices of cells that raised or were
 edited since

---
 core/ipyflow/data_model/cell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 9405ece..dacddfa 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -957,7 +957,8 @@ class Cell(SliceableMixin):
         self._cached_typecheck_result = None
 
     def _get_stmt_timestamps(self) -> Set[Timestamp]:
-        return {Timestamp(self.cell_ctr, i) for i in range(self.num_stmts)}
+        # go by what was executed, since the cell may have raised or been edited since
+        return {ts for ts in statements()._stmts_by_ts if ts.cell_num == self.cell_ctr}
 
     @classmethod
     def compute_multi_slice_stmts(
-- 
2.43.0


From d2d5622e3860941ccb3e13c41e7d7014cb8519d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 23/49] fix: positional-only parameters are not taken for
 undefined globals

---
 core/ipyflow/data_model/symbol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index b71522b..b99bb87 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -821,7 +821,10 @@ class Symbol:
             self.func_def_stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
         ), ("got %s" % self.func_def_stmt)
         args = []
-        for arg in self.func_def_stmt.args.args + self.func_def_stmt.args.kwonlyargs:
+        func_args = self.func_def_stmt.args
+        for arg in (
+            getattr(func_args, "posonlyargs", []) + func_args.args + func_args.kwonlyargs
+        ):
             args.append(arg)
         if self.func_def_stmt.args.vararg is not None:
             args.append(self.func_def_stmt.args.vararg)
-- 
2.43.0


From bc1cc0136bf1dd5bbb4aefb50428a418da5130f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 24/49] fix: cells that use variables without a symbol are not
 waiting for them

---
 core/ipyflow/analysis/live_refs.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 942b417..5baea21 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -26,7 +26,7 @@ from ipyflow.analysis.resolved_symbols import ResolvedSymbol
 from ipyflow.analysis.symbol_ref import Atom, LiveSymbolRef, SymbolRef, visit_stack
 from ipyflow.config import FlowDirection
 from ipyflow.data_model.timestamp import Timestamp
-from ipyflow.singletons import flow, tracer
+from ipyflow.singletons import flow, shell, tracer
 
 if TYPE_CHECKING:
     from ipyflow.data_model.scope import Scope
@@ -39,6 +39,15 @@ logger.setLevel(logging.ERROR)
 _RESOLVER_EXCEPTIONS = ("get_ipython", "run_line_magic", "run_cell_magic")
 
 
+def _is_resolvable_without_symbol(name: str) -> bool:
+    # variables that exist without a symbol (e.g. from a star import, or from `exec`) can be loaded
+    return (
+        hasattr(builtins, name)
+        or name in _RESOLVER_EXCEPTIONS
+        or name in shell().user_ns
+    )
+
+
 def _chain_root(node: ast.AST):
     while True:
         if isinstance(node, (ast.Attribute, ast.Subscript)):
@@ -559,9 +568,7 @@ def get_live_symbols_and_cells_for_references(
         chain = live_symbol_ref.ref.chain
         if len(chain) >= 1:
             atom = chain[0].value
-            did_resolve = isinstance(atom, str) and (
-                hasattr(builtins, atom) or atom in _RESOLVER_EXCEPTIONS
-            )
+            did_resolve = isinstance(atom, str) and _is_resolvable_without_symbol(atom)
         else:
             did_resolve = False
         resolved = None
@@ -645,9 +652,7 @@ def _compute_call_chain_live_symbols_and_cells(
             if len(chain) >= 1 and not symbol_ref.is_killed:
                 atom = chain[0].value
                 did_resolve = isinstance(atom, str) and (
-                    atom in init_killed
-                    or hasattr(builtins, atom)
-                    or atom in _RESOLVER_EXCEPTIONS
+                    atom in init_killed or _is_resolvable_without_symbol(atom)
                 )
             else:
                 did_resolve = False
-- 
2.43.0


From cb184bcd6e5673488fc1be9ea5640eed2219a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 25/49] fix: names bound by exception handlers and match
 patterns are not live

---
 core/ipyflow/analysis/live_refs.py | 45 ++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 5baea21..3f095d1 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -363,6 +363,51 @@ class ComputeLiveSymbolRefs(
 
     visit_For = visit_AsyncFor = visit_If = visit_While = generic_visit_branch_or_loop
 
+    def _kill_name(self, name: Optional[str]) -> None:
+        if name is not None:
+            self.dead.add(
+                SymbolRef.from_string(name, scope=self._scope).canonical()
+            )
+
+    def visit_ExceptHandler(self, node: ast.ExceptHandler) -> None:
+        if node.type is not None:
+            self.visit(node.type)
+        dead = set(self.dead)
+        self._kill_name(node.name)
+        not_present_before = self.dead - dead
+        self.generic_visit(node.body)
+        # the name is only bound inside of the handler
+        self.dead -= not_present_before
+
+    def visit_Match(self, node: "ast.Match") -> None:  # type: ignore[name-defined]
+        self.visit(node.subject)
+        new_live: Set[LiveSymbolRef] = set()
+        for case in node.cases:
+            case_live: Set[LiveSymbolRef] = set()
+            case_dead: Set[SymbolRef] = set()
+            with self.push_attributes(live=case_live, dead=case_dead):
+                self.visit(case.pattern)
+                if case.guard is not None:
+                    self.visit(case.guard)
+                self.generic_visit(case.body)
+            new_live |= case_live
+            self.modified |= case_dead
+        # conservatively assume that no case matches
+        self.live |= {ref for ref in new_live if ref.ref not in self.dead}
+
+    def visit_MatchAs(self, node: "ast.MatchAs") -> None:  # type: ignore[name-defined]
+        if node.pattern is not None:
+            self.visit(node.pattern)
+        self._kill_name(node.name)
+
+    def visit_MatchStar(self, node: "ast.MatchStar") -> None:  # type: ignore[name-defined]
+        self._kill_name(node.name)
+
+    def visit_MatchMapping(self, node: "ast.MatchMapping") -> None:  # type: ignore[name-defined]
+        self.generic_visit(node.keys)
+        self.generic_visit(node.patterns)
+        self._kill_name(node.rest)
+
     def visit_ClassDef(self, node: ast.ClassDef) -> None:
         self.generic_visit(node.bases)
         self.generic_visit(node.keywords)
-- 
2.43.0


From 52650e9df1b96a008af1261a72acd102089b7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 26/49] fix: variables captured by nested functions are
 computed anew by the call

---
 core/ipyflow/analysis/live_refs.py | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 3f095d1..828e2cb 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -88,6 +88,10 @@ class ComputeLiveSymbolRefs(
             str, Union[ast.FunctionDef, ast.AsyncFunctionDef]
         ] = {}
         self._visiting_func_calls: Set[str] = set()
+        # how many function bodies each function definition is nested in
+        self._func_depth: Dict[int, int] = {}
+        # what was killed so far in each of the enclosing functions
+        self._enclosing_dead: List[Set[SymbolRef]] = []
 
     def __call__(
         self, node: ast.AST
@@ -293,6 +297,7 @@ class ComputeLiveSymbolRefs(
             self.visit(node.returns)
         self.dead.add(SymbolRef(node).canonical())
         self._func_ast_by_name[node.name] = node
+        self._func_depth[id(node)] = len(self._enclosing_dead)
 
     visit_FunctionDef = visit_AsyncFunctionDef = generic_visit_function_def
 
@@ -448,6 +453,11 @@ class ComputeLiveSymbolRefs(
             }
             # recursive references are to the definition in this very cell
             call_dead.add(SymbolRef(func_ast).canonical())
+            # names that the function's enclosing scopes assigned before the call
+            enclosing_dead = [*self._enclosing_dead, self.dead]
+            enclosing_dead = enclosing_dead[: self._func_depth[id(func_ast)] + 1]
+            for dead in enclosing_dead:
+                call_dead |= dead
             call_live: Set[LiveSymbolRef] = set()
             func_ast_by_name = dict(self._func_ast_by_name)
             self._visiting_func_calls.add(node.func.id)
@@ -457,6 +467,7 @@ class ComputeLiveSymbolRefs(
                 live=call_live,
                 modified=set(),
                 _func_ast_by_name=func_ast_by_name,
+                _enclosing_dead=enclosing_dead,
             ):
                 self.generic_visit(func_ast.body)
             self.live |= call_live
@@ -673,6 +684,7 @@ def _compute_call_chain_live_symbols_and_cells(
     worklist: List[Tuple[ResolvedSymbol, int]] = list(live_with_stmt_ctr)
     live: Set[ResolvedSymbol] = set()
     unresolved: Set[LiveSymbolRef] = set()
+    unresolved_with_caller: Set[Tuple[LiveSymbolRef, ResolvedSymbol]] = set()
     while len(worklist) > 0:
         workitem: Tuple[ResolvedSymbol, int] = worklist.pop()
         if workitem in seen:
@@ -738,7 +750,26 @@ def _compute_call_chain_live_symbols_and_cells(
                     is_static=True,
                 )
             if not did_resolve and not symbol_ref.is_killed:
-                unresolved.add(symbol_ref)
+                unresolved_with_caller.add((symbol_ref, called_sym))
+    # the calls bind the arguments and local variables that nested functions capture anew
+    call_scopes = {called.sym.call_scope: called.sym for called, _ in seen}
+    live = {
+        resolved
+        for resolved in live
+        if resolved.sym.containing_scope not in call_scopes
+    }
+    for symbol_ref, called_sym in unresolved_with_caller:
+        scope = called_sym.sym.call_scope
+        while scope is not None:
+            caller = call_scopes.get(scope)
+            if caller is not None and any(
+                arg.arg == symbol_ref.ref.chain[0].value
+                for arg in caller.get_definition_args()
+            ):
+                break
+            scope = scope.parent_scope
+        else:
+            unresolved.add(symbol_ref)
     return (
         live,
         {called.timestamp.cell_num for called, _ in seen if called.is_live},
-- 
2.43.0


From 33b86d997a4e4ef0c894424c8849e8550d622396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 27/49] fix: members of an object are not waiting because of
 what decides about referencing it

---
 core/ipyflow/data_model/utils/update_protocol.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/utils/update_protocol.py b/core/ipyflow/data_model/utils/update_protocol.py
index 509ba7e..22ee45a 100644
--- a/core/ipyflow/data_model/utils/update_protocol.py
+++ b/core/ipyflow/data_model/utils/update_protocol.py
@@ -168,6 +168,17 @@ class UpdateProtocol:
                     continue
             yield child
 
+    @staticmethod
+    def _is_reference_to_parent_object(sym: "Symbol") -> bool:
+        # e.g. for `sym = parent if cond else other`; in that case a change of `cond` may
+        # lead `sym` to reference something else, but it does not affect the object itself
+        referenced = flow().aliases.get(sym.obj_id, set()) & sym.parents.keys()
+        if len(referenced) == 0:
+            return False
+        reference_ts = max(max(sym.parents[parent]) for parent in referenced)
+        # if anything was added to the deps since, it's because the object was mutated
+        return all(max(ts) <= reference_ts for ts in sym.parents.values())
+
     def _propagate_waiting_to_namespace_children(
         self, sym: "Symbol", skip_seen_check: bool = False
     ) -> None:
@@ -175,7 +186,7 @@ class UpdateProtocol:
             return
         self.seen.add(sym)
         self_ns = flow().namespaces.get(sym.obj_id)
-        if self_ns is None:
+        if self_ns is None or self._is_reference_to_parent_object(sym):
             return
         for ns_child in self_ns.all_symbols_this_indentation(exclude_class=True):
             logger.warning("propagate from %s to namespace child %s", sym, ns_child)
-- 
2.43.0


From 863d38697e157fd5ccc2d0d2fedf590587db1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 28/49] fix: methods called on an object created in the same
 cell have live reads

The cell that creates the object and calls the method reads what the
method's body reads, so it is to be run again when that changes.
---
 core/ipyflow/analysis/live_refs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 828e2cb..38e526b 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -628,6 +628,7 @@ def get_live_symbols_and_cells_for_references(
         else:
             did_resolve = False
         resolved = None
+        is_root_from_cell: Optional[bool] = None
         update_liveness_time_for_ref = update_liveness_time_versions
         for resolved in live_symbol_ref.gen_resolved_symbols(
             scope,
@@ -638,10 +639,13 @@ def get_live_symbols_and_cells_for_references(
             update_liveness_time_for_ref = (
                 update_liveness_time_for_ref and resolved.sym not in used_syms
             )
-            if (
-                live_symbol_ref.is_killed
-                and resolved.sym.shallow_timestamp.cell_num != cell_ctr
-            ):
+            is_from_cell = resolved.sym.shallow_timestamp.cell_num == cell_ctr
+            if is_root_from_cell is None:
+                is_root_from_cell = is_from_cell
+            if live_symbol_ref.is_killed and not is_from_cell:
+                if resolved.is_called and is_root_from_cell:
+                    # e.g. a method from another cell, for an object from this one
+                    called_syms.add((resolved, live_symbol_ref.timestamp))
                 continue
             did_resolve = True
             if resolved.is_called:
-- 
2.43.0


From 9549e1f958bdc90c7fb47cf5b64724d9183c4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 29/49] fix: the index of a subscript is a dependency of the
 value

The symbols used in the slice were resolved without side effects, and
not recorded either.
---
 core/ipyflow/tracing/symbol_resolver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 5de8290..9a87ca5 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -65,9 +65,9 @@ class ResolveRvalSymbols(
         symbols = set(symbols)
         if self._in_kill_context:
             self.dead |= set(symbols)
-        elif self.update_usage_info:
+        else:
             symbols = [symbol for symbol in symbols if symbol not in self.dead]
-            if should_update_usage_info:
+            if self.update_usage_info and should_update_usage_info:
                 Timestamp.update_usage_info(
                     symbols, used_node=used_node, exclude_ns=self.exclude_ns
                 )
@@ -155,7 +155,7 @@ class ResolveRvalSymbols(
     def visit_Subscript(self, node: ast.Subscript):
         if isinstance(node.value, ast.Call):
             self.visit(node.value)
-        symbols = tracer().resolve_loaded_symbols(node)
+        symbols = list(tracer().resolve_loaded_symbols(node))
         self._add_to_resolved(symbols, node, should_extend=False)
         # add slice to RHS to avoid propagating to it
         symbols.extend(self._resolve_symbols_without_side_effects(node.slice))
-- 
2.43.0


From f03161a2f4ae7857f38240b1cfbe3bd8730fd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 30/49] fix: slices with variable bounds and nested indices
 depend on all of their parts

z = lst[:i] did not depend on lst, z = lst[i][0] and z = lst[i].v not on
i, and the variables of a comprehension were taken for global ones when
used as an index.
---
 core/ipyflow/tracing/symbol_resolver.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/tracing/symbol_resolver.py b/core/ipyflow/tracing/symbol_resolver.py
index 9a87ca5..25810ca 100644
--- a/core/ipyflow/tracing/symbol_resolver.py
+++ b/core/ipyflow/tracing/symbol_resolver.py
@@ -36,8 +36,9 @@ class ResolveRvalSymbols(
         return {sym for sym in self.symbols if sym is not None}
 
     def _resolve_symbols_without_side_effects(self, node: ast.AST) -> List[Symbol]:
+        dead = set(self.dead)
         with self.push_attributes(
-            symbols=[], dead=set(), _in_kill_context=False, update_usage_info=False
+            symbols=[], dead=dead, _in_kill_context=False, update_usage_info=False
         ):
             self.visit(node)
             return [sym for sym in self.symbols if sym is not None]
@@ -129,6 +130,18 @@ class ResolveRvalSymbols(
             return None
         return flow().namespaces.get(symbols[0].obj_id, None)
 
+    def _resolve_index_symbols(
+        self, node: Union[ast.Attribute, ast.Subscript]
+    ) -> List[Symbol]:
+        # e.g. `i` and `j` for `lst[i].foo[j]`
+        symbols: List[Symbol] = []
+        value: ast.AST = node
+        while isinstance(value, (ast.Attribute, ast.Subscript)):
+            if isinstance(value, ast.Subscript):
+                symbols.extend(self._resolve_symbols_without_side_effects(value.slice))
+            value = value.value
+        return symbols
+
     def visit_Attribute(self, node: ast.Attribute):
         if isinstance(node.value, ast.Call):
             self.visit(node.value)
@@ -136,6 +149,7 @@ class ResolveRvalSymbols(
         if len(symbols) > 0:
             # don't update usage info for attributes; tracer is responsible for that
             self._add_to_resolved(symbols, node, should_update_usage_info=False)
+            self.symbols.extend(self._resolve_index_symbols(node))
             return
         # TODO: this path lacks coverage
         try:
@@ -158,7 +172,10 @@ class ResolveRvalSymbols(
         symbols = list(tracer().resolve_loaded_symbols(node))
         self._add_to_resolved(symbols, node, should_extend=False)
         # add slice to RHS to avoid propagating to it
-        symbols.extend(self._resolve_symbols_without_side_effects(node.slice))
+        index_symbols = self._resolve_index_symbols(node)
+        if len(symbols) == 0 and len(index_symbols) > 0:
+            symbols = self._resolve_symbols_without_side_effects(node.value)
+        symbols.extend(index_symbols)
         if len(symbols) > 0:
             self.symbols.extend(symbols)
             return
-- 
2.43.0


From 143aa9ff5ca9ccae3751c6bf036ce00b42337688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 31/49] fix: what is stored in a rebound variable is modified
 by an edited cell

---
 core/ipyflow/data_model/cell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index dacddfa..7ec5438 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -874,6 +874,9 @@ class Cell(SliceableMixin):
                 for subsym in sym.get_namespace_symbols(recurse=True)
                 if not subsym._timestamp.is_initialized
             )
+        for sym in dead_symbols:
+            # whatever is stored in a symbol goes away when the symbol is rebound
+            modified_symbols |= set(sym.get_namespace_symbols(recurse=True))
         if (
             self.last_check_content is None
             or self.last_check_content == self.current_content
-- 
2.43.0


From b181e7941f54c5181f048412ba09029320029b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 32/49] fix: a cell that raised keeps its edges to the cells
 that read what it updates

---
 core/ipyflow/frontend.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/frontend.py b/core/ipyflow/frontend.py
index 9d032f5..9871525 100644
--- a/core/ipyflow/frontend.py
+++ b/core/ipyflow/frontend.py
@@ -552,10 +552,14 @@ class FrontendCheckerResult(NamedTuple):
                         and len(parent.last_check_result.modified & syms) == 0
                     ):
                         continue
-                    if parent.cell_ctr >= 0 and not any(
-                        parent.cell_ctr
-                        in {ts.cell_num for ts in sym.updated_timestamps}
-                        for sym in syms
+                    if (
+                        parent.cell_ctr >= 0
+                        and not parent.is_error  # it did not get around to the update
+                        and not any(
+                            parent.cell_ctr
+                            in {ts.cell_num for ts in sym.updated_timestamps}
+                            for sym in syms
+                        )
                     ):
                         continue
                     should_skip = False
-- 
2.43.0


From cce556e9ff0df0cecdc767dfa24d07c12919178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 33/49] fix: errors raised by the last executed cell are
 reported to the frontend

---
 core/ipyflow/comm_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/comm_manager.py b/core/ipyflow/comm_manager.py
index 83da98d..7df5e0d 100644
--- a/core/ipyflow/comm_manager.py
+++ b/core/ipyflow/comm_manager.py
@@ -198,8 +198,10 @@ class CommManager:
         response["flow_order"] = self.flow.mut_settings.flow_order.value
         response["last_executed_cell_id"] = last_cell_id
         response["highlights"] = self.flow.mut_settings.highlights.value
+        last_cell = cells().from_id_nullable(last_cell_id)
         response["last_execution_was_error"] = (
             self.flow._exception_raised_during_execution is not None
+            or (last_cell is not None and last_cell.is_error)
         )
         response["is_reactively_executing"] = is_reactively_executing
         response["settings"] = dict(
-- 
2.43.0


From 69fb055a8e5adc41305fb1c2a23d9abf52900025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 34/49] fix: literals that depend on the scope they are
 evaluated in run in that scope

---
 core/ipyflow/tracing/ipyflow_tracer.py | 19 +++++++++--
 core/ipyflow/tracing/utils.py          | 45 ++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 154097f..128741d 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -55,7 +55,10 @@ from ipyflow.tracing.external_calls.base_handlers import ExternalCallHandler
 from ipyflow.tracing.flow_ast_rewriter import DataflowAstRewriter
 from ipyflow.tracing.symbol_resolver import resolve_rval_symbols
 from ipyflow.tracing.uninstrument import uninstrument
-from ipyflow.tracing.utils import match_container_obj_or_namespace_with_literal_nodes
+from ipyflow.tracing.utils import (
+    is_evaluable_in_nested_scope,
+    match_container_obj_or_namespace_with_literal_nodes,
+)
 from ipyflow.types import SubscriptIndices, SupportedIndexType
 from ipyflow.utils.misc_utils import is_project_file
 
@@ -143,6 +146,12 @@ class StackFrameManager(SingletonBaseTracer):
         return user_call_depth
 
 
+def _should_trace_literal(node_id: NodeId) -> bool:
+    return is_evaluable_in_nested_scope(
+        DataflowTracer.ast_node_by_id[node_id], DataflowTracer.containing_ast_by_id
+    )
+
+
 class DataflowTracer(StackFrameManager):
     ast_rewriter_cls = DataflowAstRewriter
     should_patch_meta_path = True
@@ -1289,7 +1298,9 @@ class DataflowTracer(StackFrameManager):
             pyc.before_dict_literal,
             pyc.before_list_literal,
             pyc.before_tuple_literal,
-        )
+        ),
+        when=_should_trace_literal,
+        static=True,
     )
     @pyc.skip_when_tracing_disabled
     def before_literal(self, *_, **__):
@@ -1304,7 +1315,9 @@ class DataflowTracer(StackFrameManager):
             pyc.after_dict_literal,
             pyc.after_list_literal,
             pyc.after_tuple_literal,
-        )
+        ),
+        when=_should_trace_literal,
+        static=True,
     )
     @pyc.skip_when_tracing_disabled
     def after_literal(
diff --git a/core/ipyflow/tracing/utils.py b/core/ipyflow/tracing/utils.py
index 3fe3fed..3d3bbec 100644
--- a/core/ipyflow/tracing/utils.py
+++ b/core/ipyflow/tracing/utils.py
@@ -35,3 +35,48 @@ def match_container_obj_or_namespace_with_literal_nodes(
                 cur_elt_idx += 1
                 cur_node = elts[cur_elt_idx]
             yield (i, obj_or_sym), (None, cur_node)
+
+
+_FRAME_DEPENDENT_NAMES = {"dir", "eval", "exec", "locals", "super", "vars"}
+
+
+def _is_directly_in_class_body(
+    node: ast.AST, containing_ast_by_id: Dict[int, ast.AST]
+) -> bool:
+    child, parent = node, containing_ast_by_id.get(id(node))
+    while parent is not None:
+        if isinstance(parent, ast.Lambda):
+            if child is parent.body:
+                return False
+        elif isinstance(
+            parent, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
+        ) and any(child is stmt for stmt in parent.body):
+            return isinstance(parent, ast.ClassDef)
+        child, parent = parent, containing_ast_by_id.get(id(parent))
+    return False
+
+
+def is_evaluable_in_nested_scope(
+    node: ast.AST, containing_ast_by_id: Dict[int, ast.AST]
+) -> bool:
+    """
+    Events that fire before some expression wrap the expression in a lambda. Returns
+    whether `node` has the same meaning in a lambda as it has in its original scope.
+    """
+    in_class_body = _is_directly_in_class_body(node, containing_ast_by_id)
+    worklist: List[ast.AST] = [node]
+    while worklist:
+        cur = worklist.pop()
+        if isinstance(
+            cur, (ast.Await, ast.NamedExpr, ast.Yield, ast.YieldFrom)
+        ) or getattr(cur, "is_async", 0):
+            return False
+        if isinstance(cur, ast.Name) and (
+            in_class_body or cur.id in _FRAME_DEPENDENT_NAMES
+        ):
+            return False
+        if isinstance(cur, ast.Lambda):
+            worklist.append(cur.args)
+        else:
+            worklist.extend(ast.iter_child_nodes(cur))
+    return True
-- 
2.43.0


From 8b97a0ce9dd4591f0d585baeb02bb67566453995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 35/49] fix: reactive modifiers elsewhere in a cell leave
 f-strings and tabs alone

---
 core/ipyflow/tracing/ipyflow_tracer.py | 13 ++++++
 core/ipyflow/tracing/utils.py          | 55 +++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 128741d..3113bee 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -56,6 +56,7 @@ from ipyflow.tracing.flow_ast_rewriter import DataflowAstRewriter
 from ipyflow.tracing.symbol_resolver import resolve_rval_symbols
 from ipyflow.tracing.uninstrument import uninstrument
 from ipyflow.tracing.utils import (
+    augment_syntax_outside_of_text,
     is_evaluable_in_nested_scope,
     match_container_obj_or_namespace_with_literal_nodes,
 )
@@ -166,6 +167,18 @@ class DataflowTracer(StackFrameManager):
         aug_type=pyc.AugmentationType.prefix, token="$", replacement=""
     )
 
+    def make_syntax_augmenter(self, ast_rewriter: pyc.AstRewriter):
+        augmenter = super().make_syntax_augmenter(ast_rewriter)
+        aug_tokens = [spec.token for spec in self.syntax_augmentation_specs()]
+
+        def _input_transformer(lines: Union[str, List[str]]) -> Union[str, List[str]]:
+            self.last_applied_specs = []
+            code = lines if isinstance(lines, str) else "".join(lines)
+            code = augment_syntax_outside_of_text(code, aug_tokens, augmenter)
+            return code if isinstance(lines, str) else code.splitlines(keepends=True)
+
+        return _input_transformer
+
     def should_propagate_handler_exception(
         self, evt: pyc.TraceEvent, exc: Exception
     ) -> bool:
diff --git a/core/ipyflow/tracing/utils.py b/core/ipyflow/tracing/utils.py
index 3d3bbec..7489623 100644
--- a/core/ipyflow/tracing/utils.py
+++ b/core/ipyflow/tracing/utils.py
@@ -1,7 +1,9 @@
 # -*- coding: utf-8 -*-
 import ast
+import io
 import logging
-from typing import TYPE_CHECKING, Any, Dict, List, Tuple, Union
+import tokenize
+from typing import TYPE_CHECKING, Any, Callable, Dict, Iterable, List, Tuple, Union
 
 if TYPE_CHECKING:
     from ipyflow.data_model.namespace import Namespace
@@ -80,3 +82,54 @@ def is_evaluable_in_nested_scope(
         else:
             worklist.extend(ast.iter_child_nodes(cur))
     return True
+
+
+_FSTRING_MIDDLE = getattr(tokenize, "FSTRING_MIDDLE", None)
+_TEXT_TOKEN_TYPES = {tokenize.COMMENT, tokenize.STRING, _FSTRING_MIDDLE}
+_FSTRING_MASKED_CHARS = "${}"
+
+
+def augment_syntax_outside_of_text(
+    code: str, aug_tokens: Iterable[str], augment: Callable[[str], str]
+) -> str:
+    """
+    Applies the syntax augmenter `augment` to `code` if any of the `aug_tokens` appears
+    outside of strings and comments. Since the augmenter operates on tokens, it would
+    otherwise also look into the text of f-strings from Python 3.12 on, and collapse
+    their escaped braces. Nor does it preserve tabs.
+    """
+    try:
+        tokens = list(tokenize.generate_tokens(io.StringIO(code).readline))
+    except (tokenize.TokenError, SyntaxError):
+        return augment(code)
+    first_chars = {aug_token.strip()[:1] for aug_token in aug_tokens}
+    if not any(
+        tok.type not in _TEXT_TOKEN_TYPES and any(ch in tok.string for ch in first_chars)
+        for tok in tokens
+    ):
+        return code
+    line_starts = [0]
+    for line in io.StringIO(code):
+        line_starts.append(line_starts[-1] + len(line))
+    line_starts.append(line_starts[-1])
+    chars = list(code)
+    unused_chars = (ch for ch in map(chr, range(0xE000, 0xF900)) if ch not in code)
+    mask = dict(zip(_FSTRING_MASKED_CHARS, unused_chars))
+    prev_end = 0
+    for tok in tokens:
+        start = line_starts[tok.start[0] - 1] + tok.start[1]
+        end = line_starts[tok.end[0] - 1] + tok.end[1]
+        if tok.type == _FSTRING_MIDDLE:
+            if code[end - 1 : end] in ("{", "}") and code[end : end + 1] == code[end - 1]:
+                # the position of a token that ends in an escaped brace is off by one
+                end += 1
+            for i in range(start, end):
+                chars[i] = mask.get(chars[i], chars[i])
+        # this includes any whitespace between tokens
+        for i in range(prev_end, end if tok.type == tokenize.INDENT else start):
+            if chars[i] == "\t":
+                chars[i] = " "
+        prev_end = max(prev_end, end)
+    return augment("".join(chars)).translate(
+        {ord(masked): char for char, masked in mask.items()}
+    )
-- 
2.43.0


From 01bdf21e325016c004358ea6fbeaecdf284d34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 36/49] fix: the start of a chain of subscripts is not mistaken
 for what was loaded before

---
 core/ipyflow/tracing/ipyflow_tracer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 3113bee..bcb5405 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -949,6 +949,9 @@ class DataflowTracer(StackFrameManager):
         if obj is None or obj is get_ipython():
             return
         logger.warning("%s %s of obj %s", event, attr_or_subscript, obj)
+        if not isinstance(node.value, (ast.Attribute, ast.Call, ast.Subscript)):
+            # `obj` is not what was loaded last
+            self.saved_complex_symbol_load_data = None
         sym_for_obj = self._clear_info_and_maybe_lookup_or_create_complex_symbol(
             obj, node
         )
-- 
2.43.0


From e86f0df92403d4b0f52bc89286b930417f5ed22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 37/49] fix: a deleted symbol is not brought back by a new one
 of the same name

---
 core/ipyflow/data_model/symbol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index b99bb87..8b10af3 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -691,7 +691,8 @@ class Symbol:
         if self.is_subscript and containing_ns is not None:
             containing_ns._subscript_symbol_by_name.pop(self.name, None)
         elif not self.is_subscript:
-            self.containing_scope._symbol_by_name.pop(self.name, None)
+            if self.containing_scope._symbol_by_name.get(self.name) is self:
+                self.containing_scope._symbol_by_name.pop(self.name)
         else:
             logger.warning(
                 "could not find symbol %s in its scope %s", self, self.containing_scope
@@ -1428,7 +1429,8 @@ class Symbol:
             )
 
     def resync_if_necessary(self, refresh: bool) -> None:
-        if not self.containing_scope.is_global:
+        if self.is_garbage or not self.containing_scope.is_global:
+            # a deleted symbol is not brought back by a new one of the same name
             return
         try:
             obj = shell().user_ns[self.name]
-- 
2.43.0


From 9084d24babbf9e3ca0b4969fd9e993decb7a053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 38/49] fix: what a chain starts with, and chains with computed
 subscripts, are live

---
 core/ipyflow/analysis/live_refs.py  | 16 ++++++++++------
 core/ipyflow/analysis/symbol_ref.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 38e526b..0f7b129 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -129,6 +129,10 @@ class ComputeLiveSymbolRefs(
     def attrsub_context(self, inside=True):
         return self.push_attributes(_inside_attrsub=inside, _skip_simple_names=inside)
 
+    def _chain_context(self, node: ast.AST):
+        # what a chain starts with is live on its own unless it is a name
+        return self.attrsub_context(inside=isinstance(_chain_root(node), ast.Name))
+
     def _add_attrsub_to_live_if_eligible(self, ref: SymbolRef) -> None:
         is_killed = ref.canonical() in self.dead
         if is_killed and not self._include_killed_live:
@@ -431,9 +435,9 @@ class ComputeLiveSymbolRefs(
             self.generic_visit(node.args)
             for kwarg in node.keywords:
                 self.visit(kwarg.value)
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub and isinstance(_chain_root(node), ast.Name):
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
-        with self.attrsub_context():
+        with self._chain_context(node.func):
             self.visit(node.func)
         if (
             isinstance(node.func, ast.Name)
@@ -474,9 +478,9 @@ class ComputeLiveSymbolRefs(
             self._visiting_func_calls.discard(node.func.id)
 
     def visit_Attribute(self, node: ast.Attribute) -> None:
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub and isinstance(_chain_root(node), ast.Name):
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
-        with self.live_context(), self.attrsub_context():
+        with self.live_context(), self._chain_context(node.value):
             self.visit(node.value)
 
     def visit_BinOp(self, node: ast.BinOp) -> None:
@@ -497,11 +501,11 @@ class ComputeLiveSymbolRefs(
         ):
             # skip quasiquoted values
             return
-        if not self._inside_attrsub and not isinstance(_chain_root(node), ast.BinOp):
+        if not self._inside_attrsub and isinstance(_chain_root(node), ast.Name):
             self._add_attrsub_to_live_if_eligible(SymbolRef(node))
         # what is part of a target is read, even where the target as a whole is killed
         with self.live_context():
-            with self.attrsub_context():
+            with self._chain_context(node.value):
                 self.visit(node.value)
             with self.attrsub_context(inside=False):
                 self.visit(node.slice)
diff --git a/core/ipyflow/analysis/symbol_ref.py b/core/ipyflow/analysis/symbol_ref.py
index d581630..722cb63 100644
--- a/core/ipyflow/analysis/symbol_ref.py
+++ b/core/ipyflow/analysis/symbol_ref.py
@@ -228,13 +228,17 @@ class SymbolRefVisitor(ast.NodeVisitor):
                 self.symbol_chain.append(
                     Atom(str(sliceval), is_callpoint=True, is_subscript=True)
                 )
+            else:
+                # what comes after an unknown subscript cannot be looked up
+                self.symbol_chain.clear()
             self.visit(node.func.value)
         elif isinstance(node.func, ast.Name):
             self.visit(node.func)
             self.symbol_chain[-1].is_callpoint = True
         elif isinstance(node.func, ast.Call):
-            # TODO: handle this case too, e.g. f.g()().h
-            pass
+            # what the result of the first call returns (e.g. in f.g()().h) cannot be looked up
+            self.symbol_chain.clear()
+            self.visit(node.func)
         elif isinstance(node.func, ast.Lambda):
             # TODO: handle this case too, e.g. (lambda: [1, 2])()
             pass
@@ -250,6 +254,7 @@ class SymbolRefVisitor(ast.NodeVisitor):
 
     def visit_Subscript(self, node: ast.Subscript) -> None:
         resolved = resolve_slice_to_constant(node)
+        num_atoms = len(self.symbol_chain)
         if resolved is not None:
             if isinstance(resolved, ast.Name):
                 if self.scope is None:
@@ -267,6 +272,9 @@ class SymbolRefVisitor(ast.NodeVisitor):
                         self.symbol_chain.append(Atom(sym.obj, is_subscript=True))
             else:
                 self.symbol_chain.append(Atom(resolved, is_subscript=True))
+        if len(self.symbol_chain) == num_atoms:
+            # what comes after an unknown subscript cannot be looked up
+            self.symbol_chain.clear()
         self.visit(node.value)
 
     def visit_Name(self, node: ast.Name) -> None:
-- 
2.43.0


From bf5ae40454b2d338f8a77a170898c61c46da2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:33 +0000
Subject: [PATCH 39/49] fix: a class on one line has a namespace of its own

---
 core/ipyflow/tracing/ipyflow_tracer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index bcb5405..1708c2b 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -1719,7 +1719,7 @@ class DataflowTracer(StackFrameManager):
         )
 
     def _get_stmt_node_for_sys_event(
-        self, event: pyc.TraceEvent, cell_num: int, lineno: int
+        self, event: pyc.TraceEvent, cell_num: int, lineno: int, code_name: str
     ) -> Optional[ast.stmt]:
         if event == pyc.return_ and self.next_stmt_node_id is not None:
             # this branch necessary for python < 3.8 where the frame
@@ -1742,7 +1742,14 @@ class DataflowTracer(StackFrameManager):
                 if (
                     parent_node is not None
                     and getattr(parent_node, "lineno", None) == lineno
-                    and isinstance(parent_node, (ast.AsyncFunctionDef, ast.FunctionDef))
+                    and (
+                        isinstance(
+                            parent_node, (ast.AsyncFunctionDef, ast.FunctionDef)
+                        )
+                        # the body of a class on one line, as opposed to some lambda in it
+                        or isinstance(parent_node, ast.ClassDef)
+                        and parent_node.name == code_name
+                    )
                 ):
                     stmt_node = parent_node
             return stmt_node
@@ -1770,7 +1777,9 @@ class DataflowTracer(StackFrameManager):
         assert cell_num is not None
         if lineno == 0:
             return None
-        stmt_node = self._get_stmt_node_for_sys_event(event, cell_num, lineno)
+        stmt_node = self._get_stmt_node_for_sys_event(
+            event, cell_num, lineno, frame.f_code.co_name
+        )
         assert stmt_node is not None
         trace_stmt = self._get_or_make_trace_stmt(stmt_node, frame)
         self._maybe_log_event(event, stmt_node, trace_stmt)
@@ -1817,7 +1826,9 @@ class DataflowTracer(StackFrameManager):
         assert cell_num is not None
 
         if event != pyc.after_stmt:
-            stmt_node = self._get_stmt_node_for_sys_event(event, cell_num, lineno)
+            stmt_node = self._get_stmt_node_for_sys_event(
+                event, cell_num, lineno, frame.f_code.co_name
+            )
         assert stmt_node is not None
 
         trace_stmt = self._get_or_make_trace_stmt(stmt_node, frame)
-- 
2.43.0


From 180b8661c67c6556563065fc9311e86b2ee2289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:18 +0000
Subject: [PATCH 40/49] fix: a string subscript of a user-defined object is not
 taken for a missing attribute

---
 core/ipyflow/analysis/resolved_symbols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ipyflow/analysis/resolved_symbols.py b/core/ipyflow/analysis/resolved_symbols.py
index f044a59..cfe4399 100644
--- a/core/ipyflow/analysis/resolved_symbols.py
+++ b/core/ipyflow/analysis/resolved_symbols.py
@@ -179,6 +179,8 @@ class ResolvedSymbol(CommonEqualityMixin):
                 # on the actual object, which we want to avoid
                 not hasattr(self.sym.obj.__class__, self.next_atom.value)
                 and not hasattr(self.sym.obj, self.next_atom.value)
+                # it could be a subscript instead of an attribute
+                and not hasattr(self.sym.obj.__class__, "__getitem__")
             )
         ):
             # TODO: fix this once we can distinguish between attrs and subscripts in the chain
-- 
2.43.0


From 0652c14d2180e011512874d3b5e906ceec823c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 41/49] fix: what is stored through a subscript is what was
 unpacked, iterated over or computed

---
 core/ipyflow/tracing/ipyflow_tracer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 1708c2b..5cd2fb9 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -600,9 +600,16 @@ class DataflowTracer(StackFrameManager):
             if attr_or_sub is None:
                 raise
 
-        if isinstance(obj, (dict, list)) and (
-            not self.tracing_disabled_since_last_stmt
-            or self.saved_assign_rhs_obj is not None
+        if (
+            isinstance(obj, (dict, list))
+            and (
+                not self.tracing_disabled_since_last_stmt
+                or self.saved_assign_rhs_obj is not None
+            )
+            # nothing is unpacked, iterated over or computed from the rhs before it is stored
+            and isinstance(
+                self.containing_ast_by_id.get(id(target)), (ast.Assign, ast.AnnAssign)
+            )
         ):
             # we can be reasonably sure that the object on the rhs is the same thing
             # that gets stashed in `obj` for these cases, so use it instead of doing
-- 
2.43.0


From 2386ae36bbe04e97549ac044051d1d98e0d67335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 42/49] fix: parameters of a function called in the cell that
 defines it have symbols of their own

---
 core/ipyflow/data_model/statement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 782ad97..8b19193 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -61,6 +61,7 @@ class Statement(SliceableMixin):
         self.frame: Optional[FrameType] = frame
         self._timestamp = timestamp or Timestamp.current()
         self._finished: bool = False
+        self._was_called: bool = False
         self.override: bool = override
         self.prev_stmt = prev_stmt
         self.class_scope: Optional[Scope] = None
@@ -289,7 +290,9 @@ class Statement(SliceableMixin):
             else:
                 logger.warning(msg)
                 return old_scope
-        if not self.finished:
+        if not self.finished or not self._was_called:
+            # the definition itself may have finished earlier in the same cell
+            self._was_called = True
             prev_call_scope = func_sym.call_scope
             # we need a new scope upon call to prevent picking up outer scope's overwritten nonlocals
             new_call_scope = prev_call_scope.parent_scope.make_child_scope(  # type: ignore[union-attr]
-- 
2.43.0


From 9413fa199cd35538827195a539c149a7d90e490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 43/49] fix: a name is not newer than what it refers to if the
 way there was changed since

---
 core/ipyflow/analysis/live_refs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/analysis/live_refs.py b/core/ipyflow/analysis/live_refs.py
index 0f7b129..e2ef7ba 100644
--- a/core/ipyflow/analysis/live_refs.py
+++ b/core/ipyflow/analysis/live_refs.py
@@ -214,9 +214,18 @@ class ComputeLiveSymbolRefs(
                 lhs_sym, rhs_sym = syms[0], syms[1]
                 # hack to avoid marking `b` as live when objects are same,
                 # or when it was detected that rhs symbol wasn't actually updated
-                if (
-                    lhs_sym.obj is rhs_sym.obj
-                    or lhs_sym.shallow_timestamp > rhs_sym.timestamp
+                if lhs_sym.obj is rhs_sym.obj or (
+                    lhs_sym.shallow_timestamp > rhs_sym.timestamp
+                    # something on the way to the rhs could refer to another object by now
+                    and all(
+                        lhs_sym.shallow_timestamp > resolved.sym.shallow_timestamp
+                        for live_ref in this_assign_live
+                        for resolved in live_ref.gen_resolved_symbols(
+                            self._scope,
+                            only_yield_final_symbol=False,
+                            yield_all_intermediate_symbols=True,
+                        )
+                    )
                 ):
                     # either (a) it's a no-op (so treat it as such), or
                     #        (b) lhs is newer and it doesn't make sense to refresh
-- 
2.43.0


From a5af71cc8b7fd597c0d78a2a0f860a0866fffa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 44/49] fix: methods known to mutate are taken to mutate even
 if they return something

---
 core/ipyflow/tracing/external_calls/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ipyflow/tracing/external_calls/__init__.py b/core/ipyflow/tracing/external_calls/__init__.py
index 81de99d..fbc1e4b 100644
--- a/core/ipyflow/tracing/external_calls/__init__.py
+++ b/core/ipyflow/tracing/external_calls/__init__.py
@@ -11,6 +11,7 @@ from ipyflow.singletons import flow
 from ipyflow.tracing.external_calls.base_handlers import (
     REGISTERED_HANDLER_BY_FUNCTION,
     REGISTERED_HANDLER_BY_METHOD,
+    CallerMutation,
     ExternalCallHandler,
     MutatingMethodEventNotYetImplemented,
     NoopCallHandler,
@@ -90,7 +91,8 @@ def resolve_external_call(
     elif external_call_type is NoopCallHandler:
         return None
     elif external_call_type is MutatingMethodEventNotYetImplemented:
-        external_call_type = StandardMutation
+        # unlike for unknown methods, a return value does not mean that nothing was mutated
+        external_call_type = CallerMutation
 
     return external_call_type.create(
         module=module,
-- 
2.43.0


From ce3a55e1bbf816e62e8060ca58b978fb8333f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 45/49] fix: elements of a container are compared with what is
 stored in it after an unknown mutation

---
 core/ipyflow/data_model/symbol.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index 8b10af3..b7eca41 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1427,6 +1427,20 @@ class Symbol:
                 take_timestamp_snapshots=False,
                 seen=seen,
             )
+            sym._update_element_obj_ref(ns.obj)
+
+    def _update_element_obj_ref(self, container: Any) -> None:
+        if not self.is_subscript or not isinstance(container, (dict, list)):
+            return
+        try:
+            # avoid anything user-defined
+            obj = (dict if isinstance(container, dict) else list).__getitem__(
+                container, self.name  # type: ignore[index]
+            )
+        except (IndexError, KeyError, TypeError):
+            return
+        if obj is not self.obj:
+            self.update_obj_ref(obj)
 
     def resync_if_necessary(self, refresh: bool) -> None:
         if self.is_garbage or not self.containing_scope.is_global:
-- 
2.43.0


From 994854a8584fba4d6a75eddddb3edfd4af2b109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 46/49] fix: assigning to or deleting a slice of a container
 mutates it

---
 core/ipyflow/data_model/statement.py   | 18 ++++++++++++++++--
 core/ipyflow/data_model/symbol.py      |  2 +-
 core/ipyflow/tracing/ipyflow_tracer.py |  7 +++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 8b19193..0e5bb1a 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -342,6 +342,19 @@ class Statement(SliceableMixin):
         except TypeError:
             return
 
+    @staticmethod
+    def _maybe_handle_slice_mutation(
+        target: Union[str, int, ast.AST], deps: Set[Symbol]
+    ) -> None:
+        """
+        For now, assigning to or deleting a slice is just a mutation of its container.
+        """
+        container = tracer().node_id_to_saved_slice_container.pop(id(target), None)
+        if container is None:
+            return
+        for sym in list(flow().aliases.get(id(container), [])):
+            sym.mutate(deps - {sym})
+
     def _handle_assign_target_for_deps(
         self,
         target: ast.AST,
@@ -361,7 +374,7 @@ class Statement(SliceableMixin):
                 target, self.frame  # type: ignore[arg-type]
             )
         except KeyError:
-            # e.g., slices aren't implemented yet
+            self._maybe_handle_slice_mutation(target, deps)
             # use suppressed log level to avoid noise to user
             if flow().is_dev_mode:
                 logger.warning(
@@ -589,6 +602,7 @@ class Statement(SliceableMixin):
                 )
                 scope.delete_symbol_for_name(name, is_subscript=is_subscript)
             except KeyError as e:
+                self._maybe_handle_slice_mutation(target, set())
                 # this will happen if, e.g., a __delitem__ triggered a call
                 # logger.info("got key error while trying to handle %s: %s", ast.dump(self.stmt_node), e)
                 logger.info("got key error: %s", e)
@@ -682,7 +696,7 @@ class Statement(SliceableMixin):
                 elif isinstance(target, ast.AST):
                     self._handle_reactive_store(target)
             except KeyError:
-                # e.g., slices aren't implemented yet
+                self._maybe_handle_slice_mutation(target, rval_deps)
                 # put logging behind flag to avoid noise to user
                 if flow().is_dev_mode:
                     logger.warning(
diff --git a/core/ipyflow/data_model/symbol.py b/core/ipyflow/data_model/symbol.py
index b7eca41..d8f3ae5 100644
--- a/core/ipyflow/data_model/symbol.py
+++ b/core/ipyflow/data_model/symbol.py
@@ -1129,7 +1129,7 @@ class Symbol:
                 # also don't update ns descendents for things like `a = b`
                 refresh_descendent_namespaces=propagate
                 and not (mutated and not propagate_to_namespace_descendents)
-                and not self._is_underscore_or_simple_assign(new_deps),
+                and (mutated or not self._is_underscore_or_simple_assign(new_deps)),
             )
         if propagate:
             UpdateProtocol(self)(
diff --git a/core/ipyflow/tracing/ipyflow_tracer.py b/core/ipyflow/tracing/ipyflow_tracer.py
index 5cd2fb9..70f7802 100644
--- a/core/ipyflow/tracing/ipyflow_tracer.py
+++ b/core/ipyflow/tracing/ipyflow_tracer.py
@@ -210,6 +210,7 @@ class DataflowTracer(StackFrameManager):
         self.node_id_to_saved_store_data: Dict[NodeId, SavedStoreData] = {}
         self.node_id_to_saved_live_subscript_refs: Dict[NodeId, Set[Symbol]] = {}
         self.node_id_to_saved_del_data: Dict[NodeId, SavedDelData] = {}
+        self.node_id_to_saved_slice_container: Dict[NodeId, Any] = {}
         self.node_id_to_loaded_literal_scope: Dict[NodeId, Namespace] = {}
         self.node_id_to_saved_dict_key: Dict[NodeId, Any] = {}
         self.this_stmt_updated_symbols: Set[Symbol] = set()
@@ -361,6 +362,7 @@ class DataflowTracer(StackFrameManager):
             return
         # ensures we only handle del's and not delitem's
         self.node_id_to_saved_del_data.clear()
+        self.node_id_to_saved_slice_container.clear()
         new_scope = trace_stmt.get_post_call_scope(trace_stmt.frame or frame)
         with self.call_stack.push():
             # TODO: figure out a better way to determine if we're inside a lambda
@@ -1012,6 +1014,11 @@ class DataflowTracer(StackFrameManager):
                 ):
                     return
             elif not isinstance(attr_or_subscript, SubscriptIndices.types):
+                if isinstance(attr_or_subscript, slice) and event in (
+                    pyc.before_subscript_store,
+                    pyc.before_subscript_del,
+                ):
+                    self.node_id_to_saved_slice_container[top_level_node_id] = obj
                 return
             if "store" in event.value:
                 logger.warning(
-- 
2.43.0


From 27b2b2537cc3665d4c4cd25749cbd67f0ec85a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:05 +0000
Subject: [PATCH 47/49] fix: dedent the code of a dynamic comm handler before
 stripping it

---
 core/ipyflow/comm_manager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ipyflow/comm_manager.py b/core/ipyflow/comm_manager.py
index 7df5e0d..4447dfa 100644
--- a/core/ipyflow/comm_manager.py
+++ b/core/ipyflow/comm_manager.py
@@ -434,7 +434,6 @@ class CommManager:
         handler_str = request.get("handler", None)
         if handler_msg_type is None or handler_str is None:
             return None
-        handler_str = handler_str.strip()
         handler_str = textwrap.indent(textwrap.dedent(handler_str).strip(), " " * 4)
         handler_fun_name = f"{pyc.PYCCOLO_BUILTIN_PREFIX}_{handler_msg_type}_handler"
         handler_str = f"def {handler_fun_name}(self, request):\n{handler_str}"
-- 
2.43.0


From c525a92b1c14d07070907e5e5482d7f33135b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 48/49] fix: unpacking from containers some of whose elements
 have no symbols

Unpacking a list or tuple with symbols for only some of its elements gave the
other targets no dependencies at all (or, for nested targets, failed and left
all targets without symbols), and unpacking dicts and other iterables with
symbols for their contents failed in the same way. Such targets now depend on
the container.
---
 core/ipyflow/data_model/namespace.py |  8 ++++---
 core/ipyflow/data_model/statement.py | 31 ++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/core/ipyflow/data_model/namespace.py b/core/ipyflow/data_model/namespace.py
index a776783..25d5219 100644
--- a/core/ipyflow/data_model/namespace.py
+++ b/core/ipyflow/data_model/namespace.py
@@ -113,10 +113,12 @@ class Namespace(Scope):
         for i in range(limit):
             yield self.lookup_symbol_by_name_this_indentation(i, is_subscript=True)
 
+    @property
+    def is_iterable(self) -> bool:
+        return self._force_allow_iteration or isinstance(self.obj, (list, tuple))
+
     def __iter__(self) -> Iterator[Optional[Symbol]]:
-        if not self._force_allow_iteration and not isinstance(
-            self.obj, (list, tuple)
-        ):  # pragma: no cover
+        if not self.is_iterable:  # pragma: no cover
             raise TypeError(
                 "tried to iterate through non-sequence namespace %s: %s", self, self.obj
             )
diff --git a/core/ipyflow/data_model/statement.py b/core/ipyflow/data_model/statement.py
index 0e5bb1a..1d9b9d6 100644
--- a/core/ipyflow/data_model/statement.py
+++ b/core/ipyflow/data_model/statement.py
@@ -454,7 +454,11 @@ class Statement(SliceableMixin):
                 )
 
     def _handle_starred_store_target(
-        self, target: ast.Starred, inner_deps: List[Optional[Symbol]]
+        self,
+        target: ast.Starred,
+        inner_deps: List[Optional[Symbol]],
+        extra_deps: Set[Symbol],
+        container_deps: Set[Symbol],
     ) -> None:
         try:
             scope, name, obj, is_subscript, _ = tracer().resolve_store_data_for_target(
@@ -483,7 +487,8 @@ class Statement(SliceableMixin):
         sym = scope.upsert_symbol_for_name(
             name,
             obj,
-            set(),
+            # elements without symbols of their own came with their container
+            extra_deps | (container_deps if None in inner_deps else set()),
             self.stmt_node,
             is_subscript=is_subscript,
             symbol_node=target,
@@ -498,6 +503,7 @@ class Statement(SliceableMixin):
         target: Union[ast.List, ast.Tuple],
         rhs_namespace: Namespace,
         extra_deps: Set[Symbol],
+        container_deps: Set[Symbol],
         is_for: bool = False,
     ) -> None:
         saved_starred_node: Optional[ast.Starred] = None
@@ -511,19 +517,24 @@ class Statement(SliceableMixin):
                 saved_starred_deps.append(inner_dep)
                 continue
             if inner_dep is None:
-                inner_deps = set()
+                # an element without a symbol of its own came with its container
+                inner_deps = set(container_deps)
             else:
                 inner_deps = {inner_dep}
             inner_deps |= extra_deps
             if isinstance(inner_target, (ast.List, ast.Tuple)):
-                inner_namespace = flow().namespaces.get(inner_dep.obj_id)
-                if inner_namespace is None or inner_namespace.obj is None:
+                inner_namespace = (
+                    None
+                    if inner_dep is None
+                    else flow().namespaces.get(inner_dep.obj_id)
+                )
+                if inner_namespace is None or not inner_namespace.is_iterable:
                     self._handle_store_target_tuple_unpack_from_deps(
                         inner_target, inner_deps
                     )
                 else:
                     self._handle_store_target_tuple_unpack_from_namespace(
-                        inner_target, inner_namespace, extra_deps
+                        inner_target, inner_namespace, extra_deps, inner_deps
                     )
             else:
                 iter_namespace = None
@@ -536,7 +547,9 @@ class Statement(SliceableMixin):
                     maybe_fixup_literal_namespace=True,
                 )
         if saved_starred_node is not None:
-            self._handle_starred_store_target(saved_starred_node, saved_starred_deps)
+            self._handle_starred_store_target(
+                saved_starred_node, saved_starred_deps, extra_deps, container_deps
+            )
 
     def _handle_store_target(
         self, target: ast.AST, value: ast.AST, is_for: bool = False
@@ -558,7 +571,7 @@ class Statement(SliceableMixin):
                 # end up inserting the virtual iteration symbol for mutation propagation, and we want such mutations to
                 # propagate to all loop vars.
                 rhs_namespace = None
-            if rhs_namespace is None or rhs_namespace.obj is None:
+            if rhs_namespace is None or not rhs_namespace.is_iterable:
                 self._handle_store_target_tuple_unpack_from_deps(
                     target,
                     deps,
@@ -572,7 +585,7 @@ class Statement(SliceableMixin):
                     # in this case, every target should depend on whatever was called
                     extra_deps = deps
                 self._handle_store_target_tuple_unpack_from_namespace(
-                    target, rhs_namespace, extra_deps, is_for=is_for
+                    target, rhs_namespace, extra_deps, deps, is_for=is_for
                 )
         else:
             self._handle_assign_target_for_deps(
-- 
2.43.0


From 9442b738f02d5e94c983ad68e77727702878a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 49/49] fix: an edited cell does not write what only its
 executed code wrote

The second time that an edited cell was checked, everything that its previous
version had defined counted as defined again, so that the edges of the cell
graph that the edit had removed came back.
---
 core/ipyflow/data_model/cell.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ipyflow/data_model/cell.py b/core/ipyflow/data_model/cell.py
index 7ec5438..4574892 100644
--- a/core/ipyflow/data_model/cell.py
+++ b/core/ipyflow/data_model/cell.py
@@ -103,6 +103,7 @@ class Cell(SliceableMixin):
         self.error_in_exec: Optional[BaseException] = None
         self.history: List[int] = [cell_ctr] if cell_ctr > -1 else []
         self.executed_content: Optional[str] = None
+        self.original_content: str = content
         self.current_content: str = content
         self.last_ast_content: Optional[str] = None
         self.captured_output: Optional[IPyflowCapturedIO] = None
@@ -877,10 +878,7 @@ class Cell(SliceableMixin):
         for sym in dead_symbols:
             # whatever is stored in a symbol goes away when the symbol is rebound
             modified_symbols |= set(sym.get_namespace_symbols(recurse=True))
-        if (
-            self.last_check_content is None
-            or self.last_check_content == self.current_content
-        ):
+        if self.current_content == self.original_content:
             dead_symbols |= self.static_writes
             modified_symbols |= self.static_writes
         for resolved in live_resolved_symbols:
-- 
2.43.0


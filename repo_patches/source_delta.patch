From bb42394380d71b4923b80e7f13f6316aa18c1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 01/68] fix: FnDecl.toSMT no longer calls a method its argument
 types lack

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..ab718ec 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From 050acca4eb1b53a457d55b45363c7ddbe70b9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 02/68] fix: TupleGet reads the component types from the
 tuple's generic alias

---
 metalift/ir.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab718ec..d8d52f7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2778,8 +2778,7 @@ class TupleExpr(Expr):
 
 class TupleGet(Expr):
     def __init__(self, t: Expr, i: Expr) -> None:
-        # TODO: type.args no longer exist. need proper fix
-        Expr.__init__(self, t.type.args[i.args[0]], [t, i])  # type: ignore
+        Expr.__init__(self, get_args(get_args(t.type)[0])[i.args[0]], [t, i])  # type: ignore
 
     def t(self) -> Expr:
         return self.args[0]  # type: ignore
@@ -2797,7 +2796,7 @@ class TupleGet(Expr):
     def toSMT(self) -> str:
         # example: generate (tuple2_get0 t)
         return "(tuple%d_get%d %s)" % (
-            len(self.args[0].type.args),
+            len(get_args(get_args(self.args[0].type)[0])),
             self.args[1].args[0],
             self.args[0].toSMT(),
         )  # args[1] must be an int literal
-- 
2.43.0


From 22b398ba347875eb85516fa333de5cd999574d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 03/68] fix: tupleGet prints for every tuple-typed operand, not
 only variables

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index d8d52f7..2d6c14c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2533,7 +2533,7 @@ class Call(Expr):
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
                 elif (
-                    isinstance(self.args[idx + 1], Var)
+                    isinstance(self.args[idx + 1], Expr)
                     and get_origin(self.args[idx + 1].type) == Tuple
                 ):
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
-- 
2.43.0


From 63da9b728ad090e5f47f18defa1dcece81dbe43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 04/68] fix: negative integer literals print as SMT-LIB terms

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2d6c14c..b05cce7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,8 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif self.type == Int and self.args[0] < 0:
+            return f"(- {-self.args[0]})"  # SMT-LIB numerals carry no sign
         else:
             return str(self.args[0])
 
-- 
2.43.0


From 9cc9106c99f69cecfa5be7b7f26201f4ae0c7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 05/68] fix: set membership builds the set-member operation

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index b05cce7..76f6a3e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1663,7 +1663,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From c119de86ba536a7a70f4cca621d144d169605372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 06/68] fix: generated Python keeps the grouping of nested
 operators

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 76f6a3e..2b49358 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1950,7 +1950,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2006,7 +2006,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2101,7 +2101,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2132,7 +2132,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2163,7 +2163,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2194,7 +2194,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2225,7 +2225,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2252,7 +2252,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2280,7 +2280,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2304,7 +2304,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From 00ae463cb4c896a0be5b293f28e18d2b89ff995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 07/68] fix: length, append and prepend of nested lists use the
 matrix operations

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2b49358..5832c6a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1102,7 +1102,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1168,7 +1169,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1177,7 +1179,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From 3d91c04cd5d131ae67dc36021d505611ac4b276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 08/68] fix: transposing a matrix without columns ends the
 recursion

---
 metalift/utils/list-axioms.smt               | 2 +-
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 83520a14520721fca771131f7dabb55f391f273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 09/68] fix: substitution respects the variable a Let binds

---
 metalift/ir.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5832c6a..244d98f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -536,6 +536,20 @@ class Expr:
                 return mappings[self.args[0]]
             else:
                 return self
+        elif isinstance(self, Let):
+            # the bound variable is neither replaced nor allowed to capture
+            v, body = self.v(), self.e2()
+            inner = {k: e for k, e in mappings.items() if k != v.args[0]}
+            used: Dict[str, int] = {}
+            for e in inner.values():
+                e.count_variable_uses(used)
+            if v.args[0] in used:
+                body.count_variable_uses(used)
+                fresh_name = v.args[0]
+                while fresh_name in used:
+                    fresh_name += "_"
+                inner[v.args[0]] = v = Var(fresh_name, v.type)
+            return Let(v, self.e().rewrite(mappings), body.rewrite(inner))
         else:
             return self.map_args(
                 lambda a: a.rewrite(mappings) if isinstance(a, Expr) else a
-- 
2.43.0


From bf944d3010826b4555394aa7ccb391c72fcdde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 10/68] fix: integer and Boolean literals are not equal
 expressions

---
 metalift/ir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 244d98f..a1fc1ac 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -309,6 +309,7 @@ class Expr:
                 # or self.type.erase() #TODO: add them back
                 # != other.type.erase()
                 or len(self.args) != len(other.args)
+                or (isinstance(self, Lit) and self.type != other.type)  # 1 == True
             ):
                 return False
             else:
-- 
2.43.0


From fe1dee4f0c5fa5d984668faa5ae11956324b9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 11/68] fix: a third equality for the same variable no longer
 ends equality propagation

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a1fc1ac..a513929 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -513,7 +513,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -521,7 +521,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From 55c3a6e5db8b5668c800851568846113a7e334f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 12/68] fix: equality propagation ends on cyclic equalities

---
 metalift/ir.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index a513929..a4eaba6 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -589,6 +589,15 @@ class Expr:
                     if rewrite_var in counts_rhs and counts_rhs[rewrite_var] > 1:
                         del rewrites[rewrite_var]
 
+            # x = y together with y = x would swap the two forever
+            for rewrite_var in list(rewrites.keys()):
+                target, visited = rewrites[rewrite_var], set()
+                while isinstance(target, Var) and target.args[0] not in visited:
+                    visited.add(target.args[0])
+                    target = rewrites.get(target.args[0], target)
+                if rewrite_var in visited:
+                    del rewrites[rewrite_var]
+
             self = self.rewrite(rewrites)
 
         return self.map_args(
-- 
2.43.0


From fe78488346508eefc5e5b4bbcb30d419b78f52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 13/68] fix: equality propagation counts variable uses after
 each rewrite

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index a4eaba6..f9c4c46 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -600,6 +600,12 @@ class Expr:
 
             self = self.rewrite(rewrites)
 
+            # later decisions need the number of uses after the rewrite
+            rewritten_counts: Dict[str, int] = {}
+            self.count_variable_uses(rewritten_counts)
+            for key in {**local_counts, **rewritten_counts}:
+                counts[key] += rewritten_counts.get(key, 0) - local_counts.get(key, 0)
+
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
             if isinstance(a, Expr)
-- 
2.43.0


From a7c0137bfe4d56c9c22aef3e2a37b142637090fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 14/68] fix: equality propagation leaves implications in
 negative positions alone

---
 metalift/ir.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f9c4c46..f9aac0e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -557,8 +557,12 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        positive: bool = True,
     ) -> "Expr":
+        # positive: making this expression weaker can only make the whole weaker
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
             if isinstance(self.args[0], Var) and counts[self.args[0].args[0]] == 1:
@@ -570,7 +574,7 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and positive:
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -606,11 +610,23 @@ class Expr:
             for key in {**local_counts, **rewritten_counts}:
                 counts[key] += rewritten_counts.get(key, 0) - local_counts.get(key, 0)
 
-        return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
-            if isinstance(a, Expr)
-            else a
-        ).simplify()
+        if isinstance(self, (And, Or)):
+            positions = [positive] * len(self.args)
+        elif isinstance(self, Implies):
+            positions = [False, positive]
+        elif isinstance(self, Ite):
+            positions = [False, positive, positive]
+        else:
+            positions = [False] * len(self.args)
+        remaining = iter(positions)
+
+        def optimize_arg(a: Any) -> Any:
+            arg_positive = next(remaining)
+            if isinstance(a, Expr):
+                return a.optimize_useless_equality(counts, new_vars, arg_positive)
+            return a
+
+        return self.map_args(optimize_arg).simplify()
 
     # convenience methods
     def __add__(self, other: "Expr") -> "Add":
-- 
2.43.0


From d1cf9ef503f6e1372447337766b6189881a059e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 15/68] fix: optimising the verification condition works on the
 expression the drivers pass

---
 metalift/synthesize_rosette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..3a0484f 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -578,9 +578,9 @@ def synthesize(
         while True:
             expr_count: Dict[str, int] = {}
 
-            vc.src.count_variable_uses(expr_count)  # type: ignore
+            vc.count_variable_uses(expr_count)
 
-            vc = vc.src.optimize_useless_equality(expr_count, new_vars)  # type: ignore
+            vc = vc.optimize_useless_equality(expr_count, new_vars)
 
             if vc.toSMT() == prev_vc:
                 break  # run to fixpoint
-- 
2.43.0


From 99a0c9765ed4354fe4d77a4bec72f3e360e30028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 16/68] fix: matrix and tensor types are told apart from flat
 lists in type checks

---
 metalift/ir.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f9aac0e..0b8734c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1585,7 +1585,7 @@ class Matrix(List[T], Generic[T], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type = type_args[0]
+        contained_type = List[type_args[0]]  # type: ignore
         if isinstance(contained_type, _GenericAlias):
             return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
         else:
@@ -1647,6 +1647,10 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"List {Matrix.cls_str(type_args)}"
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From 724f6c0b9893da715617d045323c1d0abab9d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 17/68] fix: arithmetic and order operators reject operands
 that are not integers

---
 metalift/ir.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 0b8734c..0635b31 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1992,6 +1992,8 @@ class Add(Expr):
         for arg in args:
             if arg.type != args[0].type:
                 raise Exception(f"Args types not equal: {arg.type} and {args[0].type}")
+        if args[0].type != Int:
+            raise Exception(f"Cannot apply ADD to values of type {args[0].type}")
         Expr.__init__(self, Int, args)
 
     def to_rosette(
@@ -2020,6 +2022,8 @@ class Sub(Expr):
                 raise Exception(
                     f"Args types not equal: {get_type_str(arg.type)} and {get_type_str(args[0].type)}"
                 )
+        if args[0].type != Int:
+            raise Exception(f"Cannot apply SUB to values of type {args[0].type}")
         Expr.__init__(self, Int, args)
 
     def to_rosette(
@@ -2048,6 +2052,8 @@ class Mul(Expr):
                 raise Exception(
                     f"Args types not equal: {get_type_str(arg.type)} and {get_type_str(args[0].type)}"
                 )
+        if args[0].type != Int:
+            raise Exception(f"Cannot apply MUL to values of type {args[0].type}")
         Expr.__init__(self, Int, args)
 
     def to_rosette(
@@ -2077,6 +2083,8 @@ class Div(Expr):
                 raise Exception(
                     f"Args types not equal: {get_type_str(arg.type)} and {get_type_str(args[0].type)}"
                 )
+        if args[0].type != Int:
+            raise Exception(f"Cannot apply DIV to values of type {args[0].type}")
         Expr.__init__(self, Int, args)
 
     def to_rosette(
@@ -2106,6 +2114,8 @@ class Mod(Expr):
                 raise Exception(
                     f"Args types not equal: {get_type_str(arg.type)} and {get_type_str(args[0].type)}"
                 )
+        if args[0].type != Int:
+            raise Exception(f"Cannot apply MOD to values of type {args[0].type}")
         Expr.__init__(self, Int, args)
 
     def to_rosette(
@@ -2168,6 +2178,8 @@ class Lt(Expr):
             raise Exception(
                 f"Cannot compare values of different types: {e1}: {get_type_str(e1.type)} and {e2}: {get_type_str(e2.type)}"
             )
+        if e1.type != Int:
+            raise Exception(f"Cannot apply LT to values of type {e1.type}")
         Expr.__init__(self, Bool, [e1, e2])
 
     def e1(self) -> Expr:
@@ -2199,6 +2211,8 @@ class Le(Expr):
             raise Exception(
                 f"Cannot compare values of different types: {e1}: {get_type_str(e1.type)} and {e2}: {get_type_str(e2.type)}"
             )
+        if e1.type != Int:
+            raise Exception(f"Cannot apply LE to values of type {e1.type}")
         Expr.__init__(self, Bool, [e1, e2])
 
     def e1(self) -> Expr:
@@ -2230,6 +2244,8 @@ class Gt(Expr):
             raise Exception(
                 f"Cannot compare values of different types: {e1}: {get_type_str(e1.type)} and {e2}: {get_type_str(e2.type)}"
             )
+        if e1.type != Int:
+            raise Exception(f"Cannot apply GT to values of type {e1.type}")
         Expr.__init__(self, Bool, [e1, e2])
 
     def e1(self) -> Expr:
@@ -2261,6 +2277,8 @@ class Ge(Expr):
             raise Exception(
                 f"Cannot compare values of different types: {e1}: {get_type_str(e1.type)} and {e2}: {get_type_str(e2.type)}"
             )
+        if e1.type != Int:
+            raise Exception(f"Cannot apply GE to values of type {e1.type}")
         Expr.__init__(self, Bool, [e1, e2])
 
     def e1(self) -> Expr:
-- 
2.43.0


From bc54b72d2851f8ed3b81c0c21c921cd05671c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 18/68] fix: Bool.And and Bool.Or accept the Python Booleans
 they declare

---
 metalift/ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 0635b31..002f4bb 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -914,12 +914,14 @@ class Bool(Object):
     def And(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(And(*get_object_exprs(self, *args)))  # type: ignore
+        bools = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(And(*get_object_exprs(self, *bools)))
 
     def Or(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(Or(*get_object_exprs(self, *args)))  # type: ignore
+        bools = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(Or(*get_object_exprs(self, *bools)))
 
     def Not(self) -> "Bool":
         return Bool(Not(self.src))
-- 
2.43.0


From 4d3b0bba71893f668185ac7788c2b28dd3b0b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 19/68] fix: set elements of list and tuple type keep their
 full type

---
 metalift/ir.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 002f4bb..e25ef89 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1689,16 +1689,16 @@ class Set(Generic[T], Object):
         return call("set-insert", self.type, value, self)  # type: ignore
 
     def remove(self, item: Object) -> "Set":  # type: ignore
-        if type(item) != self.containedT:
+        if item.type != self.containedT:
             raise TypeError(
-                f"Trying to remove element of type: {type(item)} from set containing: {self.containedT}"
+                f"Trying to remove element of type: {item.type} from set containing: {self.containedT}"
             )
         singleton_s = Set.singleton(item)
         return call("set-minus", self.type, self, singleton_s)  # type: ignore
 
     @staticmethod
     def singleton(item: Object) -> "Set":  # type: ignore
-        return call("set-singleton", Set[type(item)], item)  # type: ignore
+        return call("set-singleton", Set[item.type], item)  # type: ignore
 
     def union(self, s: "Set") -> "Set":  # type: ignore
         if self.type != s.type:
-- 
2.43.0


From 78cb7f181e37330228ead5c9800eed6fd9093a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 20/68] fix: indexing a tuple with a negative index is an error

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index e25ef89..4a053c7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1769,6 +1769,8 @@ class Tuple(Generic[TupleContainedT], Object):
 
         if isinstance(index, Int):
             index_lit = index.src.val()  # type: ignore
+            if not 0 <= index_lit < self.length:
+                raise IndexError(f"tuple index out of range: {index_lit}")
             item_type = self.containedT[index_lit]
             if issubclass(item_type, Object):
                 # TODO create a function to wrap objects around expession
-- 
2.43.0


From 51e791b8cb9b7571fdc05a8190c95e23ef2ec6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 21/68] fix: prepending to a matrix or tensor keeps empty rows
 in the Rosette runtime

---
 metalift/utils/utils.rkt | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metalift/utils/utils.rkt b/metalift/utils/utils.rkt
index bdcde6f..0dc885c 100644
--- a/metalift/utils/utils.rkt
+++ b/metalift/utils/utils.rkt
@@ -211,9 +211,7 @@
 )
 
 (define (matrix-prepend i l)
-  (if (list? i)
-    (if (> (length i ) 0)
-    (append (list i) l) (append l i)) (append (list i) l) ))
+  (cons i l))
 
 (define (matrix-take-noerr l i)
   (if (<= i 0) (list) (if (&& (>= i 0) (< i (length l))) (take l i) l )))
@@ -268,7 +266,7 @@
 )
 
 (define-bounded (matrix-transpose-noerr matrix)
-  (if (< (matrix-length matrix) 1)
+  (if (|| (< (matrix-length matrix) 1) (< (length (matrix-ref-noerr matrix 0)) 1))
     (matrix-empty)
     (matrix-prepend (firsts matrix) (matrix-transpose-noerr (rests matrix)))
   )
@@ -310,9 +308,7 @@
 )
 
 (define (tensor3d-prepend i l)
-  (if (list? i)
-    (if (> (length i ) 0)
-    (append (list i) l) (append l i)) (append (list i) l) ))
+  (cons i l))
 
 (define (tensor3d-append l i)
 (append l (list i)))
-- 
2.43.0


From 70ef533fba76f01a347ccc313e22d845a63c96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 22/68] fix: functions passed to functions are specialised per
 call in the verification query

---
 metalift/smt_util.py | 414 +++++++++----------------------------------
 1 file changed, 83 insertions(+), 331 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..ecc212e 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -8,97 +8,6 @@ from metalift import utils
 from metalift.ir import *
 
 
-def get_direct_calls(
-    target_lang: list[FnDecl | FnDeclRecursive],
-) -> dict[str, set[str]]:
-    """Returns a mapping from function names to a set of function names that call them."""
-
-    def get_fn_direct_calls(
-        expr: Expr | Any, fn_call: str, direct_calls: dict[str, set[str]]
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if expr.name() != fn_call:
-                if expr.name() not in direct_calls:
-                    direct_calls[expr.name()] = set()
-                direct_calls[expr.name()].add(fn_call)
-        return expr.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_call, direct_calls)
-        )
-
-    direct_calls: dict[str, set[str]] = {}
-    for fn_decl in target_lang:
-        fn_decl.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_decl.name(), direct_calls)
-        )
-    return direct_calls
-
-
-def get_direct_in_calls(
-    fn_decls: list[FnDecl | FnDeclRecursive],
-    in_calls: list[tuple[str, str]],
-) -> list[tuple[str, str]]:
-    """Sometimes, only indirect in calls are provided. For example, matrix selection two args takes in select_two_args_arg argument, and it is used in selection_two_args as well.
-
-    At the time of this function being invoked, in_calls should only have
-    (matrix_selection_two_args, select_two_args_arg), but we want in_calls to have (selection_two_args, select_two_args_arg) as well.
-    """
-
-    def get_fn_direct_in_calls(
-        *,
-        expr: Expr | Any,
-        fn_call: str,
-        in_call: str,
-        direct_in_calls: list[tuple[str, str]],
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if any(is_fn_decl_type(arg.type) for arg in expr.arguments()):
-                # Then this is a higher order function
-                fn_call = expr.name()
-            for arg in expr.arguments():
-                arg.map_args(
-                    lambda arg: get_fn_direct_in_calls(
-                        expr=arg,
-                        fn_call=expr.name(),
-                        in_call=in_call,
-                        direct_in_calls=direct_in_calls,
-                    )
-                )
-        elif isinstance(expr, CallValue):
-            direct_in_calls.append((fn_call, in_call))
-        return expr.map_args(
-            lambda expr: get_fn_direct_in_calls(
-                expr=expr,
-                fn_call=fn_call,
-                in_call=in_call,
-                direct_in_calls=direct_in_calls,
-            )
-        )
-
-    fn_name_to_in_calls: dict[str, set[str]] = {}
-    for fn_name, in_call in in_calls:
-        if fn_name not in fn_name_to_in_calls:
-            fn_name_to_in_calls[fn_name] = set()
-        fn_name_to_in_calls[fn_name].add(in_call)
-
-    direct_in_calls: list[tuple[str, str]] = []
-    for fn_decl in fn_decls:
-        relevant_in_calls = fn_name_to_in_calls.get(fn_decl.name(), set())
-        for in_call in relevant_in_calls:
-            fn_decl.map_args(
-                lambda expr: get_fn_direct_in_calls(
-                    expr=expr,
-                    fn_call=fn_decl.name(),
-                    in_call=in_call,
-                    direct_in_calls=direct_in_calls,
-                )
-            )
-    return direct_in_calls
-
-
 def get_dependent_fn_names(
     expr: Any, all_fn_names: List[str], dependent_fn_names: List[str]
 ) -> None:
@@ -111,18 +20,18 @@ def get_dependent_fn_names(
 
 
 def topological_sort(
-    fn_decls_and_axioms: List[Union[FnDecl, FnDeclRecursive, Axiom]]
-) -> List[Union[FnDecl, FnDeclRecursive, Axiom]]:
+    fn_decls_and_axioms: List[Union[FnDecl, FnDeclRecursive, Synth, Axiom]]
+) -> List[Union[FnDecl, FnDeclRecursive, Synth, Axiom]]:
     # First we construct a DAG
     graph = nx.DiGraph()
     edges: List[Tuple[str, str]] = []
     axioms: List[Axiom] = []
-    fn_decls: List[Union[FnDecl, FnDeclRecursive]] = []
+    fn_decls: List[Union[FnDecl, FnDeclRecursive, Synth]] = []
     for f in fn_decls_and_axioms:
-        if isinstance(f, FnDeclRecursive) or isinstance(f, FnDecl):
-            fn_decls.append(f)
-        else:
+        if isinstance(f, Axiom):
             axioms.append(f)
+        else:
+            fn_decls.append(f)
 
     all_fn_names = [fn_decl.name() for fn_decl in fn_decls]
     for fn_decl in fn_decls:
@@ -155,19 +64,6 @@ def filter_args(argList: typing.List[Expr]) -> typing.List[Expr]:
     return newArgs
 
 
-def filter_fn_args(expr: Expr) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        new_args = []
-        for arg in expr.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(filter_fn_args(arg))
-        return Call(expr.name(), expr.type, *new_args)
-    else:
-        return expr.map_args(lambda x: filter_fn_args(x))
-
-
 def replace_fn_name(
     *,
     expr: Expr,
@@ -226,81 +122,66 @@ def augment_arguments(
         )
 
 
-def replace_fn_name_with_in_call(
-    *, expr: Expr, new_fn_name: str, fn_name: str, in_call: str
-) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        final_fn_name = expr.name()
-        if expr.name() == fn_name and any(
-            is_fn_decl_type(arg.type) and arg.name() == in_call
-            for arg in expr.arguments()
-        ):
-            final_fn_name = new_fn_name
-        return Call(
-            final_fn_name,
-            expr.type,
-            *[
-                replace_fn_name_with_in_call(
-                    expr=arg, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-                )
-                for arg in expr.arguments()
-            ],
-        )
-    else:
-        return expr.map_args(
-            lambda x: replace_fn_name_with_in_call(
-                expr=x, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-            )
-        )
-
+def specialise_fn_args(
+    target_lang: typing.Sequence[FnDecl | FnDeclRecursive | Axiom],
+) -> tuple[
+    typing.Callable[[Any], Any], dict[tuple[str, ...], FnDecl | FnDeclRecursive]
+]:
+    """SMT-LIB functions cannot take functions as arguments, so every call that passes some is replaced by a
+    call of a copy of the called function in which they are inlined, e.g. map(l, f) becomes map_f(l).
 
-def filter_body(
-    *, fun_def: Expr, new_fn_call: str, fn_call: str, in_call: Optional[str] = None
-) -> Expr:
-    if (
-        (not isinstance(fun_def, Expr))
-        or isinstance(fun_def, Var)
-        or isinstance(fun_def, Lit)
-    ):
-        return fun_def
-    if isinstance(fun_def, Call):
-        new_args = []
-        for arg in fun_def.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(
-                    filter_body(
-                        fun_def=arg,
-                        new_fn_call=new_fn_call,
-                        fn_call=fn_call,
-                        in_call=in_call,
-                    )
-                )
-        fn_name = fun_def.name()
-        if fn_call == fn_name:
-            fn_name = new_fn_call
-        return Call(fn_name, fun_def.type, *new_args)
-    elif isinstance(fun_def, CallValue):
-        new_args = []
-        for arg in fun_def.arguments():
-            new_args.append(
-                filter_body(
-                    fun_def=arg,
-                    new_fn_call=new_fn_call,
-                    fn_call=fn_call,
-                    in_call=in_call,
-                )
+    Returns the rewriting of expressions and the copies made so far, indexed by the name of the original
+    function followed by the names of the functions passed to it.
+    """
+    fn_decls = {
+        t.name(): t
+        for t in target_lang
+        if not isinstance(t, Axiom) and t.body() is not None
+    }
+    names: dict[tuple[str, ...], str] = {}
+    copies: dict[tuple[str, ...], FnDecl | FnDeclRecursive] = {}
+
+    def specialise(key: tuple[str, ...]) -> str:
+        if key not in names:
+            new_fn_name = "_".join(key)
+            while new_fn_name in fn_decls or new_fn_name in names.values():
+                new_fn_name += "_"
+            names[key] = new_fn_name
+            fn = fn_decls[key[0]]
+            fn_params = [a.name() for a in fn.arguments() if is_fn_decl_type(a.type)]
+            new_body = rewrite(fn.body(), dict(zip(fn_params, key[1:])))
+            decl_type = (
+                FnDeclRecursive if isinstance(fn, FnDeclRecursive) else FnDecl
             )
-        if in_call is None:
-            raise Exception("in call is None!")
-        return Call(in_call, fun_def.type, *new_args)
-    else:
-        return fun_def.map_args(
-            lambda x: filter_body(
-                fun_def=x, new_fn_call=new_fn_call, fn_call=fn_call, in_call=in_call
+            copies[key] = decl_type(
+                new_fn_name,
+                fn.return_type(),
+                new_body,
+                *filter_args(fn.arguments()),
             )
-        )
+        return names[key]
+
+    def rewrite(expr: Any, fn_values: dict[str, str] = {}) -> Any:
+        if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
+            return expr
+        if isinstance(expr, CallValue):
+            fn_name = fn_values.get(expr.value().name(), expr.value().name())
+            args = [rewrite(arg, fn_values) for arg in expr.arguments()]
+            return Call(fn_name, expr.type, *args)
+        if isinstance(expr, Call):
+            fn_name = expr.name()
+            passed = [
+                fn_values.get(arg.name(), arg.name())
+                for arg in expr.arguments()
+                if is_fn_decl_type(arg.type)
+            ]
+            if len(passed) > 0 and fn_name in fn_decls:
+                fn_name = specialise((fn_name, *passed))
+            args = [rewrite(arg, fn_values) for arg in filter_args(expr.arguments())]
+            return Call(fn_name, expr.type, *args)
+        return expr.map_args(lambda arg: rewrite(arg, fn_values))
+
+    return rewrite, copies
 
 
 def toSMT(
@@ -322,160 +203,31 @@ def toSMT(
             out.write(resources.read_text(utils, "list-axioms.smt"))
             # out.write(resources.read_text(utils, "map-axioms.smt"))
 
-        early_candidates_names = set()
-
-        fn_decls: list[FnDecl | FnDeclRecursive] = []
+        rewrite, specialised_fns = specialise_fn_args(target_lang)
+        decls: list[FnDecl | FnDeclRecursive | Synth] = []
         axioms: list[Axiom] = []
-        target_lang = topological_sort(target_lang)
-
-        direct_calls = get_direct_calls(
-            [fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)]
-        )
-        direct_in_calls = get_direct_in_calls(
-            fn_decls=[
-                fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)
-            ],
-            in_calls=in_calls,
-        )
-
-        rewritten_fn_decls: set[Expr] = set()
-        in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-        # First, we want to replace all the direct in calls.
-        for t in target_lang:
-            if (
-                isinstance(t, FnDeclRecursive) or isinstance(t, FnDecl)
-            ) and t.name() in fn_calls:
-                for i in direct_in_calls:
-                    if i[0] == t.name():
-                        rewritten_fn_decls.add(t)
-                        early_candidates_names.add(i[1])
-                        # If we are doing the first round, then it means we are rewritting
-                        # functions that have direct calls to the inlined function. An example
-                        # of such a function is selection_two_args.
-                        new_fn_name = f"{t.name()}_{i[1]}"
-                        new_body = filter_body(
-                            fun_def=t.body(),
-                            new_fn_call=new_fn_name,
-                            fn_call=i[0],
-                            in_call=i[1],
-                        )
-                        # remove function type args
-                        new_args = filter_args(t.arguments())
-
-                        in_calls_to_renamed_fn_name[(t.name(), i[1])] = new_fn_name
-                        fn_decls.append(
-                            FnDeclRecursive(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                            if isinstance(t, FnDeclRecursive)
-                            else FnDecl(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                        )
-        # Now, we start iteratively replacing function calls with the inlined-function-rewritten versions.
-        while len(in_calls_to_renamed_fn_name) > 0:
-            # We need to rename all such functions in the synthesized ones.
-            for idx, cand in enumerate(inv_and_ps):
-                for (
-                    fn_name,
-                    in_call,
-                ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                    new_body = replace_fn_name_with_in_call(
-                        expr=cand.body(),
-                        new_fn_name=new_fn_name,
-                        fn_name=fn_name,
-                        in_call=in_call,
-                    )
-                    cand.set_body(new_body)
-                inv_and_ps[idx] = cand
-
-            new_in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-            for idx, t in enumerate(target_lang):
-                if isinstance(t, Axiom):
-                    axiom = t
-                    for (
-                        fn_name,
-                        in_call,
-                    ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                        axiom = replace_fn_name(
-                            expr=axiom, new_fn_name=new_fn_name, fn_name=fn_name
-                        )
-                        axiom = filter_fn_args(axiom)
-                    target_lang[idx] = axiom
-
-            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
-                fn_callers = direct_calls.get(fn_name, set())
-                for t in target_lang:
-                    if isinstance(t, Axiom):
-                        continue
-                    if t.name() not in fn_callers:
-                        continue
-                    new_body = filter_body(
-                        fun_def=t.body(),
-                        new_fn_call=new_fn_name,
-                        fn_call=fn_name,
-                        in_call=None,
-                    )
-
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
-                    new_body = filter_body(
-                        fun_def=new_body,
-                        new_fn_call=new_fn_name,
-                        fn_call=t.name(),
-                        in_call=None,
-                    )
-                    new_args = filter_args(t.arguments())
-
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
-                    rewritten_fn_decls.add(t)
-                    fn_decls.append(
-                        FnDeclRecursive(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                        if isinstance(t, FnDeclRecursive)
-                        else FnDecl(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                    )
-            in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
-
         for t in target_lang:
-            if t in rewritten_fn_decls:
+            if isinstance(t, Axiom):
+                axioms.append(Axiom(rewrite(t.e()), *filter_args(t.vars())))
+            elif isinstance(t, FnDecl) and t.body() is None:
+                # to be synthesized, so it is defined by a candidate
                 continue
-            if (isinstance(t, FnDecl) or isinstance(t, FnDecl)) and t.body() is None:
-                continue
-            elif isinstance(t, Axiom):
-                axioms.append(t)
-            else:
-                out.write("\n" + t.toSMT() + "\n")
-
-        vc = filter_fn_args(vc)
-
-        early_candidates: list[FnDeclRecursive | Synth] = []
-        candidates: list[FnDeclRecursive | Synth] = []
+            elif not any(is_fn_decl_type(arg.type) for arg in t.arguments()):
+                decls.append(t.map_args(rewrite))
         for cand in inv_and_ps:
-            cand = filter_fn_args(cand)
-            if cand.name() in early_candidates_names:
-                early_candidates.append(cand)
+            if isinstance(cand, Synth):
+                decls.append(
+                    Synth(cand.name(), rewrite(cand.body()), *cand.arguments())
+                )
             else:
-                candidates.append(cand)
-        candidates = topological_sort(candidates)
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in early_candidates]))
-        out.write("\n\n".join(["\n%s\n" % inlined.toSMT() for inlined in fn_decls]))
-        out.write("\n\n".join(["\n%s\n" % axiom.toSMT() for axiom in axioms]))
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in candidates]))
+                decls.append(cand.map_args(rewrite))
+        vc = rewrite(vc)
+
+        # every function comes after the ones it calls
+        for fn in topological_sort([*decls, *specialised_fns.values()]):
+            out.write("\n" + fn.toSMT() + "\n")
+        for axiom in axioms:
+            out.write("\n" + axiom.toSMT() + "\n")
 
         declarations: typing.List[tuple[str, ObjectT]] = []
         for v in vars:
-- 
2.43.0


From 71ad73745fcf03648fa3ca9dffba020703031a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 23/68] fix: axioms that leave out the functions to pass hold
 for every specialised copy

---
 metalift/smt_util.py | 62 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 6 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index ecc212e..e8bf079 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -122,6 +122,29 @@ def augment_arguments(
         )
 
 
+def leaves_out_fns(
+    call: Call, fn_decls: typing.Mapping[str, FnDecl | FnDeclRecursive]
+) -> bool:
+    """Whether the call leaves out all the functions that the called function takes."""
+    params = fn_decls[call.name()].arguments() if call.name() in fn_decls else []
+    return len(filter_args(params)) < len(params) and not any(
+        is_fn_decl_type(arg.type) for arg in call.arguments()
+    )
+
+
+def get_calls_leaving_out_fns(
+    expr: Any, fn_decls: typing.Mapping[str, FnDecl | FnDeclRecursive]
+) -> set[str]:
+    if not isinstance(expr, Expr):
+        return set()
+    names = set()
+    if isinstance(expr, Call) and leaves_out_fns(expr, fn_decls):
+        names.add(expr.name())
+    for arg in expr.args:
+        names |= get_calls_leaving_out_fns(arg, fn_decls)
+    return names
+
+
 def specialise_fn_args(
     target_lang: typing.Sequence[FnDecl | FnDeclRecursive | Axiom],
 ) -> tuple[
@@ -131,7 +154,8 @@ def specialise_fn_args(
     call of a copy of the called function in which they are inlined, e.g. map(l, f) becomes map_f(l).
 
     Returns the rewriting of expressions and the copies made so far, indexed by the name of the original
-    function followed by the names of the functions passed to it.
+    function followed by the names of the functions passed to it. Calls that leave out the functions to pass,
+    as in axioms, get the ones given to the rewriting.
     """
     fn_decls = {
         t.name(): t
@@ -161,12 +185,14 @@ def specialise_fn_args(
             )
         return names[key]
 
-    def rewrite(expr: Any, fn_values: dict[str, str] = {}) -> Any:
+    def rewrite(
+        expr: Any, fn_values: dict[str, str] = {}, left_out: tuple[str, ...] = ()
+    ) -> Any:
         if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
             return expr
         if isinstance(expr, CallValue):
             fn_name = fn_values.get(expr.value().name(), expr.value().name())
-            args = [rewrite(arg, fn_values) for arg in expr.arguments()]
+            args = [rewrite(arg, fn_values, left_out) for arg in expr.arguments()]
             return Call(fn_name, expr.type, *args)
         if isinstance(expr, Call):
             fn_name = expr.name()
@@ -175,11 +201,16 @@ def specialise_fn_args(
                 for arg in expr.arguments()
                 if is_fn_decl_type(arg.type)
             ]
+            if leaves_out_fns(expr, fn_decls):
+                passed = [*left_out]
             if len(passed) > 0 and fn_name in fn_decls:
                 fn_name = specialise((fn_name, *passed))
-            args = [rewrite(arg, fn_values) for arg in filter_args(expr.arguments())]
+            args = [
+                rewrite(arg, fn_values, left_out)
+                for arg in filter_args(expr.arguments())
+            ]
             return Call(fn_name, expr.type, *args)
-        return expr.map_args(lambda arg: rewrite(arg, fn_values))
+        return expr.map_args(lambda arg: rewrite(arg, fn_values, left_out))
 
     return rewrite, copies
 
@@ -208,7 +239,7 @@ def toSMT(
         axioms: list[Axiom] = []
         for t in target_lang:
             if isinstance(t, Axiom):
-                axioms.append(Axiom(rewrite(t.e()), *filter_args(t.vars())))
+                continue
             elif isinstance(t, FnDecl) and t.body() is None:
                 # to be synthesized, so it is defined by a candidate
                 continue
@@ -223,6 +254,25 @@ def toSMT(
                 decls.append(cand.map_args(rewrite))
         vc = rewrite(vc)
 
+        fn_decls = {t.name(): t for t in target_lang if not isinstance(t, Axiom)}
+        general_axioms: list[tuple[Axiom, set[str]]] = []
+        for t in target_lang:
+            if isinstance(t, Axiom):
+                leaving_out = get_calls_leaving_out_fns(t.e(), fn_decls)
+                if len(leaving_out) > 0:
+                    general_axioms.append((t, leaving_out))
+                else:
+                    axioms.append(Axiom(rewrite(t.e()), *filter_args(t.vars())))
+        # axioms that leave out the functions to pass are about every copy
+        for axiom, leaving_out in general_axioms:
+            passed_fns = {key[1:]: None for key in specialised_fns if key[0] in leaving_out}
+            for passed in passed_fns:
+                axioms.append(
+                    Axiom(
+                        rewrite(axiom.e(), left_out=passed), *filter_args(axiom.vars())
+                    )
+                )
+
         # every function comes after the ones it calls
         for fn in topological_sort([*decls, *specialised_fns.values()]):
             out.write("\n" + fn.toSMT() + "\n")
-- 
2.43.0


From cb633fc0789f028d29b2bfc3160589801cc613c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 24/68] fix: tensor operator axioms are limited to the indices
 for which they are true

---
 metalift/utils/tenspiler/axioms.py | 44 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..88feba6 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -112,7 +112,9 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(
+            index > 0, index < data.len(), index <= max_pos, max_pos >= 0
+        ),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
@@ -124,7 +126,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +134,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +142,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +152,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +162,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +170,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), x[0].len() == b.len(), b.len() > 0
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +182,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +192,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +200,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +208,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +220,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From c30b255ba12fe4e36f4a9863acee6864a84a002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 25/68] fix: tracker variables never share a name with another
 variable

---
 metalift/analysis.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 2d11089..14bffbc 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -428,11 +428,13 @@ class VariableTracker(object):
     groups: Dict[str, int]
     existing: Dict[str, int]
     var_to_type: Dict[str, ObjectT]
+    group_names: Set[str]
 
     def __init__(self) -> None:
         self.groups = {}
         self.existing = {}
         self.var_to_type = {}
+        self.group_names = set()
         return
 
     def group(self, name: str) -> "VariableGroup":
@@ -443,6 +445,12 @@ class VariableTracker(object):
         return VariableGroup(self, format_with_index(name, self.groups[name]))
 
     def variable(self, name: str, type: ObjectT) -> Var:
+        if name in self.var_to_type and self.var_to_type[name] != type:
+            raise TypeError(
+                f"variable {name} is already declared with type {self.var_to_type[name]}"
+            )
+        if name in self.group_names:
+            raise NameError(f"{name} is already the name of a group's variable")
         self.var_to_type[name] = type
         return Var(name, type)
 
@@ -462,7 +470,14 @@ class VariableGroup(object):
         else:
             self.tracker.existing[my_name] = 0
 
-        self.tracker.var_to_type[
+        # skip the names that other variables already have
+        while (
             format_with_index(my_name, self.tracker.existing[my_name])
-        ] = type
-        return Var(format_with_index(my_name, self.tracker.existing[my_name]), type)
+            in self.tracker.var_to_type
+        ):
+            self.tracker.existing[my_name] += 1
+
+        full_name = format_with_index(my_name, self.tracker.existing[my_name])
+        self.tracker.var_to_type[full_name] = type
+        self.tracker.group_names.add(full_name)
+        return Var(full_name, type)
-- 
2.43.0


From cc5c7889ca227b88f0df6dbc0af70078292d60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 26/68] fix: states of different analyses no longer share their
 preconditions and assertions

---
 metalift/frontend/python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..4027f57 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,14 +106,14 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
+        self.precond = precond if precond is not None else []
+        self.vars = vars if vars is not None else {}
+        self.asserts = asserts if asserts is not None else []
         self.has_returned = has_returned if not has_returned else has_returned
 
     def read(self, var: str) -> Object:
-- 
2.43.0


From 5d6b6f0bfd00748fcdd4cbcab7088fd7ab7242ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 27/68] fix: chained comparisons mean all of their comparisons

---
 metalift/frontend/python.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4027f57..988da3f 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -684,12 +684,11 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     # a < b < c is equiv to a < b and b < c
     def visit_comparison_expr(self, o: ComparisonExpr) -> Bool:
         operands = [e.accept(self) for e in o.operands]
-        e = self.process_comparison(o.operators[0], operands[0], operands[1])
-        for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
-            )
-        return e
+        comparisons = [
+            self.process_comparison(o.operators[i], operands[i], operands[i + 1])
+            for i in range(len(o.operators))
+        ]
+        return comparisons[0] if len(comparisons) == 1 else and_objects(*comparisons)
 
     # ">" | "<" | "==" | ">=" | "<=" | "!=" | "is" ["not"] | ["not"] "in"
     def process_comparison(self, op: str, left: Object, right: Object) -> Bool:
-- 
2.43.0


From 9bfbf80a3d4161fdfb4641244a479f26569d3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 28/68] fix: merging the branches of an if keeps their
 assertions, facts and values

---
 metalift/frontend/python.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 988da3f..fabc1ac 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                break  # the remaining statements are never reached
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -626,17 +628,27 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        # both branches started from the asserts and preconditions of the current state
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += (
+            c_state.asserts[num_asserts:] + a_state.asserts[num_asserts:]
+        )
 
         if c_state.has_returned and a_state.has_returned:
-            return
+            self.state.has_returned = True
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            # what a branch established (by its loops) holds if the branch was taken
+            num_preconds = len(self.state.precond) + 1
+            self.state.precond += [
+                implies(cond, e) for e in c_state.precond[num_preconds:]
+            ] + [implies(cond.Not(), e) for e in a_state.precond[num_preconds:]]
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
@@ -647,7 +659,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
-- 
2.43.0


From 7bda0bae663fe6438d6c8e5ed1a275c95d04a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 29/68] fix: loop bodies keep their obligations and modified
 variables get fresh names

---
 metalift/analysis.py        |  7 ++++++
 metalift/frontend/python.py | 48 +++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 14bffbc..46b8ff0 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -454,6 +454,13 @@ class VariableTracker(object):
         self.var_to_type[name] = type
         return Var(name, type)
 
+    # a variable with this name, or a variation of it if another variable has the name
+    def fresh(self, name: str, type: ObjectT) -> Var:
+        idx = 0
+        while format_with_index(name, idx) in self.var_to_type:
+            idx += 1
+        return self.variable(format_with_index(name, idx), type)
+
     def all(self) -> List[Var]:
         return [Var(name, self.var_to_type[name]) for name in self.var_to_type]
 
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index fabc1ac..3672994 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -457,7 +457,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
-        o.accept(v)
+        o.expr.accept(v)
+        o.body.accept(v)
 
         writes = list(v.writes)
         writes.sort()
@@ -504,11 +505,16 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
-            self.driver.add_var_object(new_value)
-            self.state.write(var[0], new_value)
+        for name, type in writes:
+            new_var = self.var_tracker.fresh(name, to_object_type(type))
+            self.state.write(name, create_object(new_var.type, new_var))
 
+        # the body is run from a state where the inv and the loop condition hold
+        cond = cast(Bool, o.expr.accept(self))
+        inv_call = inv.call(self.state)
+        num_asserts = len(self.state.asserts)
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cond, inv_call]
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -516,7 +522,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -527,24 +533,24 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        # obligations from within the body
+        self.state.asserts += body_visitor.state.asserts[num_asserts:]
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_visitor.state.has_returned:
+            self.state.asserts.append(
+                implies(
+                    and_objects(*body_visitor.state.precond),
+                    inv.call(body_visitor.state),
+                )
+            )
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
-        self.state.precond.append(
-            and_objects(cast(Bool, cond).Not(), inv.call(self.state))
-        )
+        self.state.precond.append(and_objects(cond.Not(), inv_call))
+
+        if o.else_body:
+            o.else_body.accept(self)
 
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
-- 
2.43.0


From 55838be289a3aa2a3d258bd945f91a85bb2378a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 30/68] fix: the variables in scope of a loop are those of its
 own function

---
 metalift/frontend/python.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3672994..4cffe6a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -201,6 +201,16 @@ class RWVarsVisitor(TraverserVisitor):
             a.accept(self)
 
 
+class NamesVisitor(TraverserVisitor):
+    names: List[NameExpr]
+
+    def __init__(self) -> None:
+        self.names = []
+
+    def visit_name_expr(self, o: NameExpr) -> None:
+        self.names.append(o)
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -448,11 +458,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
+        arg_names = cast(List[str], self.fn_type.arg_names)
+        r = {(n, t) for n, t in zip(arg_names, self.fn_type.arg_types) if n in vars}
+        # only the names in this fn: others can have different types
+        names = NamesVisitor()
+        self.ast.body.accept(names)
+        for e in names.names:
+            if e.name in vars and e.name not in arg_names and e in types:
+                r.add((e.name, types[e]))
         return r
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
-- 
2.43.0


From 2340dac37d6509ad2b021af68f1e04cc1b1078f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 31/68] fix: modifying an argument or a collection in place is
 tracked under its own name

---
 metalift/frontend/python.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4cffe6a..f1f1568 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -399,7 +399,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                     raise RuntimeError(
                         f"expect {actual} to have type {to_object_type(formal[1])} rather than {actual.type}"
                     )
-                self.state.write(formal[0], actual)
+                if isinstance(actual.src, Var):
+                    self.driver.add_var_object(actual)
+                # a new object, as lists are modified in place
+                self.state.write(formal[0], create_object(actual.type, actual.src))
 
             if fn_type.ret_type is None:
                 raise RuntimeError(f"fn must return a value: {fn_type}")
@@ -409,12 +412,20 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.pred_tracker.postcondition(
                 o,
                 [return_arg],
-                self.args,
+                self.formal_objects(),
                 self.ps_grammar,
             )
 
             o.body.accept(self)
 
+    # the parameters of the fn, named as in the source
+    def formal_objects(self) -> List[Object]:
+        arg_names = cast(List[str], self.fn_type.arg_names)
+        return [
+            create_object(to_object_type(type), name)
+            for name, type in zip(arg_names, self.fn_type.arg_types)
+        ]
+
     def visit_overloaded_func_def(self, o: OverloadedFuncDef) -> None:
         raise NotImplementedError()
 
@@ -501,7 +512,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            args=self.formal_objects(),
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
@@ -812,10 +823,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
-            list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
-            return list_after_append
+            return callee_expr.append(elem_to_append)  # in place
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
         ):
@@ -834,8 +842,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
-            return set_after_modification
+            callee_expr.src = set_after_modification.src  # in place
+            return callee_expr
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
             args = [a.accept(self) for a in o.args]
-- 
2.43.0


From 06c95056e0c84829a4075be2a44ccb68088cca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 32/68] fix: the summary of an earlier call is assumed of its
 arguments and a fresh result

---
 metalift/frontend/python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index f1f1568..7fc26a8 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1017,10 +1017,10 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
-        self.driver.add_var_object(ret_val)
+        ret_var = self.driver.var_tracker.fresh(f"{self.name}_rv", object_type)
+        ret_val = create_object(object_type, ret_var)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From d82439c9c269e0e6ee4f8fb986c3d88cf2cf2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 33/68] fix: the front end reads functional list and set types
 numbered by clang

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 4a053c7..ef8a2c3 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -674,7 +674,7 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
         return Int
     elif ty_str in {"i1", "i8", "i8*"}:
         return Bool
-    elif ty_str in {"%struct.list*", "%struct.list**"}:
+    elif re.fullmatch(r"%struct\.list(\.\d+)?\*{1,2}", ty_str):
         # TODO: add generic type support
         # TODO: retire struct.list and use STL?
         return List[Int]
@@ -685,7 +685,7 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
     elif re.match('%"class.std::__1::vector"*', ty_str):
         return List[List[Int]]
 
-    elif ty_str in {"%struct.set*"}:
+    elif re.fullmatch(r"%struct\.set(\.\d+)?\*", ty_str):
         # TODO : how to support different contained types
         return Set[Int]
     elif ty_str in {"%struct.tup*"}:
-- 
2.43.0


From 497ebb2827ae9559936a871889e7ed61511f3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 34/68] fix: loop invariant grammars may come from a default
 dictionary

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..180ea7c 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -997,6 +997,13 @@ class VCVisitor:
                 relevant_loops.append(loop)
         return relevant_loops
 
+    def find_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        # Index instead of calling get, so that default dictionaries give their default.
+        try:
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     def get_havocs(
         self, block_name: str, loop_info: LoopInfo
     ) -> Tuple[List[Object], List[Object]]:
@@ -1195,7 +1202,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1232,7 +1239,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From 5cd07d212f533712f7b0d997a229871f69a0bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 35/68] fix: appending to a vector keeps the vector's element
 type

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 180ea7c..ce8de9b 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -226,7 +226,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From f34a772a8d13ed55f98c3e07757e641e111f015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 36/68] fix: a function returning a vector through sret returns
 its current value

---
 metalift/frontend/llvm.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index ce8de9b..2d85b2e 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1411,14 +1411,12 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
+            # We have to fetch the current value, whose type might have changed from the beginning.
             # This is because for list type, at first we assume it's an int list. We only infer the
             # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
+            ret_val = self.load_var_from_block(
                 block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            )
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From e007becfc71039dc223f41e1b89a4bb83570472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 37/68] fix: each loop head gives the modified variables fresh
 values

---
 metalift/frontend/llvm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 2d85b2e..5630509 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1188,12 +1188,19 @@ class VCVisitor:
         header_loops = self.find_header_loops(block.name)
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
+            # Each loop head gives a variable a value of its own: facts about the value it had at
+            # another loop head must not carry over.
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                fresh = self.var_tracker.fresh(havoc.var_name(), havoc.type)
+                self.write_var_to_block(
+                    block.name, havoc.var_name(), create_object(havoc.type, fresh)
+                )
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                fresh = self.var_tracker.fresh(havoc.var_name(), havoc.type)
+                self.store_var_to_block(
+                    block.name, havoc.var_name(), create_object(havoc.type, fresh)
+                )
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
-- 
2.43.0


From 3677340a8f14a49d37f958d16cb5d6b177e16aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 38/68] fix: the summary of one return path is not assumed on
 the others

---
 metalift/frontend/llvm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 5630509..2741be1 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1456,7 +1456,6 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From 0c96e14de3029e6a74bf904ac8e6fa14a2ff8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 39/68] fix: list_append leaves the list it appends to
 unchanged

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 2741be1..fd3519b 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -153,8 +153,9 @@ def list_append(
     assert len(args) == 2
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
+    # append updates a list in place, but what is appended to here keeps its value
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.deepcopy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From f787d9365997f49987d502f1bf5bd20e1423e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 40/68] fix: a conditional branch with equal targets keeps one
 merge entry per edge

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..cd99634 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,18 @@ namespace
       return bb;
     }
 
+    // Changes one incoming edge of each PHI node: when both branches lead to the same block, its
+    // PHI nodes have one entry for each of them.
+    void redirectPhiEdge(BasicBlock * succ, BasicBlock * from, BasicBlock * to)
+    {
+      for (auto &phi : succ->phis())
+      {
+        int i = phi.getBasicBlockIndex(from);
+        if (i >= 0)
+          phi.setIncomingBlock(i, to);
+      }
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +69,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              redirectPhiEdge(op->getSuccessor(0), &B, trueBB);
+              redirectPhiEdge(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From a5fd5a6d843d2a52f181b53ee318709583e4883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 41/68] fix: list-append in a solution is read back

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3a0484f..3952009 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -170,7 +170,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From e0305d5614948cb273009b6b6691ee6287f41937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 42/68] fix: a row of a matrix read back from a solution has
 the row's type

---
 metalift/synthesize_rosette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3952009..509aa51 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -45,6 +45,7 @@ from metalift.ir import (
     Var,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -228,9 +229,12 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            elem_type = get_list_element_type(list_expr.type)
+            if is_matrix_type(list_expr.type):
+                elem_type = mlList[elem_type]  # type: ignore
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                elem_type,
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From 7d511efeba190973973e2460527510464c3edf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 43/68] fix: tensor slices in a solution are read back

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 509aa51..4359c93 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -318,6 +318,24 @@ def to_expr(
                 to_expr(ast[2], fnsType, varType, choices),
                 to_expr(ast[3], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "vec-slice-with-length-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
-- 
2.43.0


From 8d53e11fb9c7f4b06950ab5769eb2c7108a34862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 44/68] fix: a parameter named like a function is read back as
 the parameter

---
 metalift/synthesize_rosette.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 4359c93..0ccc4f1 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -541,10 +541,11 @@ def to_expr(
             return BoolLit(True)
         elif ast == "false":
             return BoolLit(False)
-        elif ast in fnsType.keys():
-            return Var(ast, fnsType[ast])
-        else:
+        elif ast in varType.keys():
+            # a parameter or bound variable hides a function of the same name
             return Var(ast, varType[ast])
+        else:
+            return Var(ast, fnsType[ast])
 
 
 def to_synthesize(
-- 
2.43.0


From e3cf48eae179f364f129f25189fb26ee0585e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 45/68] fix: choosing arbitrarily resolves nested choices

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ef8a2c3..8ca886f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3078,7 +3078,7 @@ class Choose(Expr):
         return retT
 
     def chooseArbitrarily(self) -> "Expr":
-        return self.args[0]  # type: ignore
+        return self.args[0].chooseArbitrarily()  # type: ignore
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Choose(self)
-- 
2.43.0


From cace5ac5b1bd0aca2c07c0579f7137f9e6aa9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 46/68] fix: keep the only row of a symbolic matrix when the
 list bound is 1

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..8e2e10e 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 2b9737d2a9a3593a5bd8c7c84123030ed65b7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 47/68] fix: symbolic tuples have components of the tuple's own
 types

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8e2e10e..d16b77c 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        for i, t in enumerate(typing.get_args(get_element_type(v.type))):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From b8b36db779138c3a7fdabe9bd6015320081c27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 48/68] fix: Rosette synthesis ends when the synthesiser ended
 without a further solution

---
 metalift/synthesize_rosette.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 0ccc4f1..9803b73 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -651,15 +651,22 @@ def synthesize(
     )
     process_tracker.all_processes.append(proc_synthesis)
     # both last_processed_sol_idx and rounds_to_guess are 0-indexed
-    while (
-        exit_code := proc_synthesis.poll()
-    ) is None or last_processed_sol_idx + 1 < rounds_to_guess + 1:
-        time.sleep(2)
+    while True:
+        # Poll before looking for the solution: a process that has ended by now
+        # will not write it any more.
+        exit_code = proc_synthesis.poll()
 
         curr_sol_idx = last_processed_sol_idx + 1
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                _, err_synth = proc_synthesis.communicate()
+                raise SynthesisFailed(
+                    f"Rosette failed: exit code {exit_code}\n"
+                    + err_synth.decode("utf-8")
+                )
+            time.sleep(2)
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -815,14 +822,3 @@ def synthesize(
                 raise VerificationFailed("Verification failed")
 
         last_processed_sol_idx = curr_sol_idx
-
-        # exit_code = proc_synthesis.poll()
-
-    # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
-- 
2.43.0


From 5b2288eb451d89ba5a470ec5f6a31f20022ff0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 49/68] fix: pass to_rosette the arguments it takes when a
 candidate is verified with Rosette

---
 metalift/synthesis_common.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 4f93ffb..685957c 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -170,6 +170,7 @@ def verify_synth_result(
         verifFile = synthDir + basename + f"_{uid}" + ".smt"
     if use_rosette:
         to_rosette(
+            basename,
             verifFile,
             targetLang,
             vars,
@@ -177,10 +178,17 @@ def verify_synth_result(
             preds,  # type: ignore
             vc,
             [],
-            [],
-            True,
+            rounds_to_guess=0,
+            fns_to_guess=[],
+            fn_defs_to_exclude=[],
+            unbounded_ints=True,
             list_bound=4,  # TODO: bench to find what this value should be
             verify_mode=True,
+            uninterp_fns=[
+                f.name()
+                for f in targetLang
+                if not isinstance(f, Axiom) and f.body() is None
+            ],
         )
     else:
         inCalls: typing.List[Any] = []
-- 
2.43.0


From 2ce1128a9033c6c212a5cd3bba4369ee70af502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 50/68] fix: CVC5 synthesis takes the arguments the drivers
 pass

---
 metalift/synthesize_cvc5.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..0077a3c 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -230,20 +230,23 @@ def toExpr(
 
 def synthesize(
     basename: str,
-    targetLang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
+    target_lang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
     vars: typing.Set[Var],
-    invAndPs: typing.List[Synth],
+    inv_and_ps: typing.List[Synth],
     preds: typing.List[Expr],
     vc: Expr,
-    loopAndPsInfo: typing.Sequence[Union[CodeInfo, Expr]],
-    cvcPath: str,
+    loop_and_ps_info: typing.Sequence[Union[CodeInfo, Expr]],
+    cvc_path: str,
     uid: int = 0,
-    noVerify: bool = False,  # currently ignored
-    unboundedInts: bool = False,  # currently ignored
+    no_verify: bool = False,  # currently ignored
+    unbounded_ints: bool = False,  # currently ignored
     optimize_vc_equality: bool = False,
-    listBound: int = 2,  # currently ignored
+    list_bound: int = 2,  # currently ignored
     log: bool = True,  # currently ignored
     uninterp_fns: List[str] = [],  # currently ignored
+    rounds_to_guess: int = 0,  # currently ignored
+    fns_to_guess: List[FnDeclRecursive] = [],  # currently ignored
+    fn_defs_to_exclude: List[FnDeclRecursive] = [],  # currently ignored
 ) -> typing.List[FnDeclRecursive]:
     synthDir = "./synthesisLogs/"
     if not os.path.exists(synthDir):
@@ -273,20 +276,20 @@ def synthesize(
 
     # Generate sygus file for synthesis
     toSMT(
-        targetLang,
+        target_lang,
         vars,
-        invAndPs,
+        inv_and_ps,
         preds,
         vc,
         sygusFile,
         [],
-        [f.name() for f in targetLang],
+        [f.name() for f in target_lang],
         True,
     )
 
     # Run synthesis subprocess
     proc = subprocess.Popen(
-        [cvcPath, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
+        [cvc_path, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
         stdout=subprocess.PIPE,
         stderr=subprocess.PIPE,
     )
@@ -294,7 +297,7 @@ def synthesize(
     process_tracker.all_processes.append(proc)
 
     try:
-        funName, returnType = extractFuns(targetLang)
+        funName, returnType = extractFuns(target_lang)
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
@@ -303,19 +306,19 @@ def synthesize(
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
-                    invAndPs, line, funName, returnType
+                    inv_and_ps, line, funName, returnType
                 )
             elif line.strip() == "(":
-                fnsType = generate_types(targetLang)
+                fnsType = generate_types(target_lang)
 
                 resultVerify, verifyLogs = verify_synth_result(
                     basename,
-                    targetLang,
+                    target_lang,
                     vars,
                     preds,
                     vc,
-                    loopAndPsInfo,
-                    cvcPath,
+                    loop_and_ps_info,
+                    cvc_path,
                     synthDir,
                     candidatesSMT,
                     candidateDict,
-- 
2.43.0


From 9cad7b5b0aa89654d4ff03054ceb2b876951bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 51/68] fix: CVC5 synthesis ends with the solver and takes
 candidates by their exact names

---
 metalift/synthesize_cvc5.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 0077a3c..76e9758 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -84,8 +84,8 @@ def generateCandidates(
     ast = generateAST(line)
     for ce in invAndPs:
         name = ce.name()
-        for a in ast[0]:
-            if name in a:
+        for a in ast[0][1:]:
+            if a[0] == name:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
@@ -299,16 +299,18 @@ def synthesize(
     try:
         funName, returnType = extractFuns(target_lang)
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
+        candidatesSMT: typing.List[FnDeclRecursive] = []
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if line == "" or line.strip() in ("fail", "infeasible"):
+                # the end of the output, or no solution exists
                 break
-            elif "sygus-candidate" in line:
+            elif line.startswith("(sygus-candidate "):
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
                     inv_and_ps, line, funName, returnType
                 )
-            elif line.strip() == "(":
+            elif line.strip() == "(" and len(candidatesSMT) > 0:
                 fnsType = generate_types(target_lang)
 
                 resultVerify, verifyLogs = verify_synth_result(
@@ -340,10 +342,6 @@ def synthesize(
                     )
                     print("\n".join(verifyLogs))
                     raise VerificationFailed("Verification failed")
-            else:
-                code = proc.poll()
-                if code is not None and code > 0:
-                    break
 
         raise SynthesisFailed("SyGuS failed")
     finally:
-- 
2.43.0


From 5b7cbacd84310bea6c4dafc686d134fb6a71d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 52/68] fix: read every arithmetic operator and constant
 function in CVC5's candidates

---
 metalift/synthesize_cvc5.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 76e9758..f2761bb 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -14,6 +14,7 @@ from metalift.ir import (
     Bool,
     BoolLit,
     Call,
+    Div,
     Eq,
     Expr,
     FnDecl,
@@ -26,6 +27,7 @@ from metalift.ir import (
     Ite,
     Le,
     Lt,
+    Mod,
     Mul,
     Not,
     ObjectT,
@@ -114,6 +116,8 @@ def toExpr(
         "+": Add,
         "-": Sub,
         "*": Mul,
+        "div": Div,
+        "mod": Mod,
         "<": Lt,
         "<=": Le,
         ">": Gt,
@@ -125,18 +129,18 @@ def toExpr(
     expr_uni = {"not": Not}
     if isinstance(ast, list):
         if ast[0] in expr_bi.keys():
-            if len(ast) == 3:
-                return expr_bi[ast[0]](
-                    toExpr(ast[1], funName, returnType, varType, letVars),
-                    toExpr(ast[2], funName, returnType, varType, letVars),
-                )
-            elif len(ast) == 2 and ast[0] == "-":
+            if len(ast) == 2 and ast[0] == "-":
                 return expr_bi[ast[0]](
                     IntLit(0),
                     toExpr(ast[1], funName, returnType, varType, letVars),
                 )
             else:
-                raise ValueError("Unexpected number of arguments", ast)
+                return expr_bi[ast[0]](
+                    *[
+                        toExpr(arg, funName, returnType, varType, letVars)
+                        for arg in ast[1:]
+                    ]
+                )
         elif ast[0] in expr_uni.keys():
             return expr_uni[ast[0]](
                 toExpr(ast[1], funName, returnType, varType, letVars)
@@ -224,6 +228,8 @@ def toExpr(
             return BoolLit(True)
         elif ast in letVars:
             return letVars[ast]
+        elif ast in funName and ast not in varType:
+            return Call(ast, get_fn_return_type(returnType[funName.index(ast)]))
         else:
             return Var(ast, varType[ast])
 
-- 
2.43.0


From 38e5867170e15e6274c0f100db8c4e541bf57db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 53/68] fix: an SMT verification of a language model's solution
 succeeds only on unsat

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From eef1dc4876e226f940fa287fcbeaead09d121b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 54/68] fix: Claude's solutions are one text, as the other
 models'

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..c3ec38d 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -579,8 +579,8 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         system=TEMPLATE_SYS,
         messages=messages,
     )
-    raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    raw_solution = "\n\n".join(extract_all_python_functions(message.content[0].text))
+    return replace_ite(raw_solution)
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From a73bdbcb1b8ebc4cf1d65c045f1d2809f1aaa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 55/68] fix: read list literals with their elements

---
 llmlift_scripts/parser.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..9e0271b 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -28,6 +28,7 @@ from mypy.nodes import (
     OpExpr,
     ReturnStmt,
     SliceExpr,
+    StarExpr,
     UnaryExpr,
 )
 from mypy.options import Options
@@ -435,7 +436,21 @@ def mypy_node_to_ir(
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
             node_type = mypy_type_to_ir_type(types[node])
-            return node_type.empty(get_args(node_type)[0]).src
+            list_object = node_type.empty(get_args(node_type)[0])
+            for item in reversed(node.items):
+                if isinstance(item, StarExpr):
+                    rest_expr = parse_node(item.expr)
+                    if item is node.items[-1] and rest_expr.type == node_type:
+                        list_object = create_object(node_type, rest_expr)
+                        continue
+                    raise Exception(
+                        "Only lists can be unpacked, and only at the end of a list"
+                    )
+                item_expr = parse_node(item)
+                list_object = list_object.prepend(
+                    create_object(item_expr.type, item_expr)
+                )
+            return list_object.src
         elif isinstance(node, ConditionalExpr):
             return ite(
                 parse_node(node.cond),
-- 
2.43.0


From 9c6c6b9b8a700a83983b1513157c03280d86efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 56/68] fix: reject negative subscripts and slices with a step
 when reading solutions

---
 llmlift_scripts/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 9e0271b..055844e 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -494,6 +494,14 @@ def mypy_node_to_ir(
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
             if isinstance(node.index, SliceExpr):
+                indices = [node.index.begin_index, node.index.end_index]
+            else:
+                indices = [node.index]
+            if any(isinstance(idx, UnaryExpr) and idx.op == "-" for idx in indices):
+                raise Exception("Negative indices are not supported")
+            if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a step are not supported")
                 # Parse begin index
                 if node.index.begin_index is None:
                     begin_index = None
-- 
2.43.0


From 1afac152b61a65ed654b417a6fa33d833113578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 57/68] fix: read keyword arguments by their names

---
 llmlift_scripts/parser.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 055844e..9f8f502 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,8 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_NAMED,
+    ARG_POS,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -325,8 +327,26 @@ def mypy_node_to_ir(
                 ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
                 arguments_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
 
+                # Arguments can be given by position or by name. Put them in the order of the parameters.
+                arg_nodes: dict[int, Node] = {}
+                for idx, (arg, kind, name) in enumerate(
+                    zip(node.args, node.arg_kinds, node.arg_names)
+                ):
+                    if kind == ARG_NAMED and name in arg_names:
+                        idx = arg_names.index(name)
+                    elif kind != ARG_POS:
+                        raise Exception(
+                            f"Only positional and keyword arguments are supported for function {func_name}"
+                        )
+                    if idx in arg_nodes:
+                        raise Exception(
+                            f"Multiple values for argument {arg_names[idx]} of function {func_name}"
+                        )
+                    arg_nodes[idx] = arg
+                args = [arg_nodes[idx] for idx in sorted(arg_nodes)]
+
                 # Check number of arguments
-                actual_num_args = len(node.args)
+                actual_num_args = len(args)
                 expected_num_args = len(func_type.arg_names)
                 if actual_num_args != expected_num_args:
                     raise Exception(
@@ -336,7 +356,7 @@ def mypy_node_to_ir(
                 # Check argument types and make argument objects
                 arg_exprs: List[Expr] = []
                 for idx, (arg, expected_ir_type, expected_type) in enumerate(
-                    zip(node.args, arguments_ir_types, func_type.arg_types)
+                    zip(args, arguments_ir_types, func_type.arg_types)
                 ):
                     # We check if the IR types match but throw errors with python types.
                     # This is because multiple python types can map to the same IR type.
-- 
2.43.0


From fdc6c220dc82821db61a35a869f891b6d35c3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 58/68] fix: calls of the functions being read pass arguments
 in the order of their sorted parameters

---
 llmlift_scripts/parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 9f8f502..fcd38ed 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -240,6 +240,7 @@ def mypy_node_to_ir(
     in_calls: list[tuple[str, str]],
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
+    target_func_names: list[str],
 ) -> Expr:
     def parse_node(node: Node) -> Expr:
         # TODO: add support for non-lambda inline functions
@@ -396,6 +397,14 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
+                # Parameters of the functions we parse are sorted by name, so are the arguments
+                if func_name in target_func_names:
+                    arg_exprs = [
+                        arg_expr
+                        for _, arg_expr in sorted(
+                            zip(arg_names, arg_exprs), key=lambda x: x[0]
+                        )
+                    ]
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
             # Nothing can go wrong with a name expression (which are basically variables)
@@ -580,6 +589,7 @@ def check_solution(
     fn_decls: list[FnDeclRecursive] = []
     in_calls: list[tuple[str, str]] = []
 
+    target_func_names = [func_def.name for func_def in target_func_defs]
     for target_func_def in target_func_defs:
         mypy_node_to_ir(
             target_func_def,
@@ -589,6 +599,6 @@ def check_solution(
             in_calls,
             lambda_exprs,
             arg_name_to_count,
+            target_func_names,
         )
-    target_func_names = [func_def.name for func_def in target_func_defs]
     return target_func_names, fn_decls, in_calls
-- 
2.43.0


From 09deca87d960ecc3e4088cc6bd78844d067994bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 59/68] fix: reject global variables and calls of unnamed
 functions, read True and False as literals

---
 llmlift_scripts/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index fcd38ed..8c1fd21 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -11,6 +11,7 @@ from mypy.modulefinder import BuildSource
 from mypy.nodes import (
     ARG_NAMED,
     ARG_POS,
+    GDEF,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -406,8 +407,14 @@ def mypy_node_to_ir(
                         )
                     ]
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only functions that have a name can be called")
         elif isinstance(node, NameExpr):
-            # Nothing can go wrong with a name expression (which are basically variables)
+            if node.fullname in {"builtins.True", "builtins.False"}:
+                return Bool(node.name == "True").src
+            # Other than these, names are variables or functions. Global variables have no meaning outside the rewritten program.
+            if node.kind == GDEF and node.name not in func_sign.keys():
+                raise Exception(f"Global variable {node.name} is not supported")
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
         # TODO: check not
-- 
2.43.0


From 214ab98c3bfabd7d5038e974cb3ff93f01e400c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 60/68] fix: replace ite() with its arguments kept whole

---
 llmlift_scripts/utils.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..0b60f83 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -35,15 +35,30 @@ def extract_all_python_functions(s: str) -> list[str]:
 
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
+    # Find the arguments: they are separated by the commas that are in no inner brackets
+    args: list[str] = []
+    depth = 0
+    start = match.end()
+    for end in range(match.end(), len(ps_sol)):
+        char = ps_sol[end]
+        if char in ",)" and depth == 0:
+            args.append(replace_ite(ps_sol[start:end].strip()))
+            start = end + 1
+            if char == ")":
+                break
+        elif char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
 
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    if len(args) != 3:
+        return ps_sol[: match.end()] + replace_ite(ps_sol[match.end() :])
+    cond, a, b = args
+    return f"{ps_sol[: match.start()]}(({a}) if ({cond}) else ({b})){replace_ite(ps_sol[start:])}"
 
 
 def get_inv_args(
-- 
2.43.0


From b27fc47c5f66491085bd693346390cd838575571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 61/68] fix: nonterminals of a synthesised function's grammar
 no longer capture its variables

---
 metalift/ir.py | 71 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8ca886f..3f1d23b 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -215,13 +215,17 @@ class Expr:
         commonExprs: typing.List[Union["Expr", Any]],
         mode: PrintMode,
         skipTop: bool = False,
+        suffix: str = "",
     ) -> Union["Expr", ValueRef]:
         # skipTop is used to ignore the top-level match when simplifying a common expr
         if all([not Expr.__eq__(e, expr) for expr in commonExprs]) or skipTop:  # type: ignore
             if isinstance(e, Expr):
-                newArgs = [Expr.replaceExprs(arg, commonExprs, mode) for arg in e.args]
+                newArgs = [
+                    Expr.replaceExprs(arg, commonExprs, mode, suffix=suffix)
+                    for arg in e.args
+                ]
                 if isinstance(e, Object):
-                    return Expr.replaceExprs(e.src, commonExprs, mode)
+                    return Expr.replaceExprs(e.src, commonExprs, mode, suffix=suffix)
                 if isinstance(e, Var):
                     return Var(typing.cast(str, newArgs[0]), e.type)
                 elif isinstance(e, Lit):
@@ -276,10 +280,11 @@ class Expr:
                 return e  # ValueRef or TypeRef
         else:
             assert isinstance(e, Expr)
+            nonterminal = "v%d%s" % (commonExprs.index(e), suffix)
             if mode == PrintMode.Rosette:
-                return Var("(v%d)" % commonExprs.index(e), e.type)
+                return Var("(%s)" % nonterminal, e.type)
             else:
-                return Var("v%d" % commonExprs.index(e), e.type)
+                return Var(nonterminal, e.type)
 
     def __repr__(self) -> str:
         fn: Callable[[Union[ValueRef, Var]], Any] = (
@@ -2927,6 +2932,30 @@ class Synth(Expr):
     def set_body(self, body: Expr) -> None:
         self.args[1] = body
 
+    def get_nonterminal_suffix(self, num_choices: int) -> str:
+        # the non-terminals of the grammar must not capture the names used in it
+        used: typing.Set[str] = set()
+
+        def collect(e: Any) -> None:
+            if isinstance(e, str):
+                used.add(e)
+            elif isinstance(e, ValueRef):
+                used.add(e.name)
+            elif isinstance(e, Object):
+                collect(e.src)
+            elif isinstance(e, Expr):
+                for arg in e.args:
+                    collect(arg)
+
+        collect(self.body())
+        for arg in self.arguments():
+            collect(arg)
+
+        suffix = ""
+        while used & {f"rv{suffix}", *(f"v{i}{suffix}" for i in range(num_choices))}:
+            suffix += "_"
+        return suffix
+
     def to_rosette(
         self, writeChoicesTo: typing.Optional[Dict[str, "Expr"]] = None
     ) -> str:
@@ -2937,11 +2966,16 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.Rosette)
+        suffix = self.get_nonterminal_suffix(len(commonExprs))
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.Rosette, suffix=suffix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.Rosette, skipTop=True, suffix=suffix
+            )
             for e in commonExprs
         ]
 
@@ -2954,14 +2988,14 @@ class Synth(Expr):
             for a in self.args[2:]
         )
 
-        defs = "[rv (choose %s)]\n" % rewritten.to_rosette()
+        defs = "[rv%s (choose %s)]\n" % (suffix, rewritten.to_rosette())
 
         if writeChoicesTo != None:
             for i, e in enumerate(commonExprs):
-                writeChoicesTo[f"v{i}"] = e  # type: ignore
+                writeChoicesTo[f"v{i}{suffix}"] = e  # type: ignore
 
         defs = defs + "\n".join(
-            "%s %s)]" % ("[v%d (choose" % i, e.to_rosette())
+            "%s %s)]" % ("[v%d%s (choose" % (i, suffix), e.to_rosette())
             for i, e in enumerate(commonExprs)
         )
 
@@ -2975,11 +3009,16 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.SMT)
+        suffix = self.get_nonterminal_suffix(len(commonExprs))
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.SMT, suffix=suffix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.SMT, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.SMT, skipTop=True, suffix=suffix
+            )
             for e in commonExprs
         ]
 
@@ -2990,14 +3029,16 @@ class Synth(Expr):
             expr_smt_type = expr_type.toSMTType(get_args(expr_type))  # type: ignore
             common_exprs_types.append(expr_smt_type)
 
-        decls = "((rv %s) %s)" % (
+        decls = "((rv%s %s) %s)" % (
+            suffix,
             return_type,
             " ".join(
-                "(%s %s)" % ("v%d" % i, smt_type)
+                "(%s %s)" % ("v%d%s" % (i, suffix), smt_type)
                 for i, smt_type in enumerate(common_exprs_types)
             ),
         )
-        defs = "(rv %s %s)\n" % (
+        defs = "(rv%s %s %s)\n" % (
+            suffix,
             return_type,
             rewritten.toSMT()
             if isinstance(rewritten, Choose)
@@ -3006,7 +3047,7 @@ class Synth(Expr):
         defs = defs + "\n".join(
             "(%s %s %s)"
             % (
-                "v%d" % i,
+                "v%d%s" % (i, suffix),
                 common_exprs_types[i],
                 e.toSMT() if isinstance(e, Choose) else f"({e.toSMT()})",
             )
-- 
2.43.0


From a7d3278b41b88c23a0fff0c584f2c7a41f7bcd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 62/68] fix: candidate tensor expressions of nesting 3 and more
 can be built and keep the operand itself

---
 metalift/utils/tenspiler/tenspiler_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 41eac5c..3c0ab2b 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1999,11 +1999,11 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             call_scalar_rsub(scalar, matrix_or_vec),
             call_scalar_rdiv(scalar, matrix_or_vec),
         )
-        if not matrix_or_vec.is_nested:
+        if not matrix_or_vec.is_matrix:
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-                    call_matrix_vec_mul(additional_matrix, matrix_or_vec)
+                    matrix_or_vec, call_matrix_vec_mul(additional_matrix, matrix_or_vec)
                 )
     return matrix_or_vec
 
-- 
2.43.0


From e5a7dbc2cb061940416333a741e53373edf657ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 63/68] fix: only names ending in _ps are taken for summaries

---
 metalift/frontend/llvm.py   | 4 ++--
 metalift/frontend/python.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index fd3519b..052d2fd 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1577,7 +1577,7 @@ class Driver:
         We want to rewrite it in a way suitable for code generation, which includes extracting the actual return type and the body.
         """
         for fname, f in self.synthesized_fns.items():
-            m = re.match("(\w+)_ps", fname)  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", fname)  # ignore the invariants
             if m:
                 if isinstance(f.body(), Eq):
                     body = cast(Eq, f.body()).e2()
@@ -1627,7 +1627,7 @@ class Driver:
             self.synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 7fc26a8..0cc3155 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -928,7 +928,7 @@ class Driver:
         )
 
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
-- 
2.43.0


From a3cdf69674cac6d39f9d958933f600e67ecafbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 64/68] fix: code generation before synthesis raises in the
 LLVM front end too

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 052d2fd..73868b5 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1706,7 +1706,7 @@ class MetaliftFunc:
         self.target_lang_fn = target_lang_fn
         self.inv_grammars = inv_grammars
         self.ps_grammar = ps_grammar
-        self.synthesized = []
+        self.synthesized = None
 
         # Parse and process loops
         raw_loops: List[RawLoopInfo] = parse_loops(loops_filepath, fn_ref.name)
-- 
2.43.0


From 5d34603f3ff3b1a5c59906fe1370a0b9c0c153d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 65/68] fix: drivers hand over shared target language functions
 once

---
 metalift/frontend/llvm.py   | 3 ++-
 metalift/frontend/python.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 73868b5..e3768a4 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1534,7 +1534,8 @@ class Driver:
     def target_lang_fns(self) -> List[FnDecl | FnDeclRecursive]:
         fns: List[FnDecl | FnDeclRecursive] = []
         for fn in self.fns.values():
-            fns.extend(fn.target_lang_fn())
+            # analyzed functions may share target functions
+            fns.extend([f for f in fn.target_lang_fn() if f not in fns])
         return fns
 
     def variable(self, name: str, type: ObjectT) -> Var:
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0cc3155..58f71fa 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -913,7 +913,8 @@ class Driver:
 
         target = []
         for fn in self.fns.values():
-            target += fn.target_lang_fn()
+            # analyzed functions may share target functions
+            target += [f for f in fn.target_lang_fn() if f not in target]
 
         synthesized: List[FnDeclRecursive] = run_synthesis(
             basename="test",
-- 
2.43.0


From 220663adee709864bfb06a1c2fd1a8181f46ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 66/68] fix: a function named like another's invariant keeps
 its own summary in the LLVM front end

---
 metalift/frontend/llvm.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index e3768a4..0512784 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -851,11 +851,13 @@ class PredicateTracker:
         in_scope: List[Object],
         grammar: Optional[GrammarT],
     ) -> Predicate:
-        if fn_name in self.predicates:
-            return self.predicates[fn_name]
+        # a function's own name may be that of an invariant of another function
+        ps_name = f"{fn_name}_ps"
+        if ps_name in self.predicates:
+            return self.predicates[ps_name]
         else:
-            ps = Predicate(ins + outs, outs, ins, in_scope, f"{fn_name}_ps", grammar)
-            self.predicates[fn_name] = ps
+            ps = Predicate(ins + outs, outs, ins, in_scope, ps_name, grammar)
+            self.predicates[ps_name] = ps
             return ps
 
 
@@ -1436,7 +1438,7 @@ class VCVisitor:
         # Add postcondition
         return_arg = create_object(ret_val.type, f"{self.fn_name}_rv")
         self.driver.add_var_object(return_arg)
-        self.pred_tracker.postcondition(
+        ps_pred = self.pred_tracker.postcondition(
             self.fn_name,
             [return_arg],  # TODO: I feel like this flow could be better
             self.fn_args,
@@ -1447,7 +1449,7 @@ class VCVisitor:
         # Call postcondition
         # TODO use the call method of the predicate
         ps = call(
-            self.pred_tracker.predicates[self.fn_name].name,
+            ps_pred.name,
             Bool,
             *self.fn_args,
             ret_val,
-- 
2.43.0


From 7727b1dbe452bad4e89381634f867530b80441c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 67/68] fix: a language function that a proposal passes by name
 is not taken for a function of the proposal

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 8c1fd21..62796b3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -382,13 +382,13 @@ def mypy_node_to_ir(
                                 lambda_exprs[arg_expr] = arg_fn_name
                             arg_expr = copy.deepcopy(arg_expr)
                             arg_expr.set_name(arg_fn_name)
+                            fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
-- 
2.43.0


From ead3f341b674ae1bb33ac56ea8ffb822338f4251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 68/68] fix: list concatenation and negation in a proposal are
 read as expressions, not objects around them

---
 llmlift_scripts/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 62796b3..95e7c8d 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -442,7 +442,7 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    return call("list_concat", List[Int], left_expr, right_expr).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
@@ -465,7 +465,7 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Unary operator - is only supported on integers, not {types[node]}"
                     )
-                return Sub(Int(0), node_expr)
+                return Sub(Int(0).src, node_expr)
             else:
                 raise Exception(f"Unary operator {node.op} is not supported")
         elif isinstance(node, IntExpr):
-- 
2.43.0


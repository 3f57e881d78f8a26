From b97e2ca29c294bc928abfe79d84d0e524926c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 01/88] fix: infinite recursion when type-casting a transposed
 linear operator

---
 src/probnum/linops/_linear_operator.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..22e389e 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1482,11 +1482,6 @@ class TransposedLinearOperator(LambdaLinearOperator):
             diagonal=self._linop.diagonal,
         )
 
-    def _astype(
-        self, dtype: np.dtype, order: str, casting: str, copy: bool
-    ) -> LinearOperator:
-        return self._linop.astype(dtype, order=order, casting=casting, copy=copy).T
-
     def __repr__(self) -> str:
         return f"Transpose of {self._linop}"
 
-- 
2.43.0


From 94c353103eea4c578d805e96ba05653eaeedded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 02/88] fix: Cholesky factor of a transposed linear operator
 recursed forever

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 22e389e..efa2c62 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1486,7 +1486,7 @@ class TransposedLinearOperator(LambdaLinearOperator):
         return f"Transpose of {self._linop}"
 
     def _cholesky(self, lower: bool = True) -> LinearOperator:
-        return super().cholesky(lower)
+        return super()._cholesky(lower)
 
 
 class _InverseLinearOperator(LambdaLinearOperator):
-- 
2.43.0


From 29080e504d9b886bbe1a6ad090dfac7d2c600be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 03/88] fix: transposing a linear operator failed if the
 transpose knows more properties

---
 src/probnum/linops/_linear_operator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index efa2c62..2b2cc07 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -943,10 +943,15 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
         transposed = self._transpose()
 
-        transposed.is_upper_triangular = self.is_lower_triangular
-        transposed.is_lower_triangular = self.is_upper_triangular
-        transposed.is_symmetric = self.is_symmetric
-        transposed.is_positive_definite = self.is_positive_definite
+        # Only propagate what is known: the transpose might know more than `self`
+        if self.is_lower_triangular is not None:
+            transposed.is_upper_triangular = self.is_lower_triangular
+        if self.is_upper_triangular is not None:
+            transposed.is_lower_triangular = self.is_upper_triangular
+        if self.is_symmetric is not None:
+            transposed.is_symmetric = self.is_symmetric
+        if self.is_positive_definite is not None:
+            transposed.is_positive_definite = self.is_positive_definite
 
         return transposed
 
-- 
2.43.0


From b3e31749e630dfafc048e717c5b50260fc4c7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 04/88] fix: linear operators of different types compared equal
 or failed to compare

---
 src/probnum/linops/_linear_operator.py | 9 ++++++++-
 src/probnum/linops/_scaling.py         | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 2b2cc07..40373c8 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1143,7 +1143,7 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
     def _is_type_shape_dtype_equal(self, other: "LinearOperator") -> bool:
         return (
-            isinstance(self, type(other))
+            isinstance(other, type(self))
             and self.shape == other.shape
             and self.dtype == other.dtype
         )
@@ -1665,6 +1665,13 @@ class Matrix(LambdaLinearOperator):
         if not self._is_type_shape_dtype_equal(other):
             return False
 
+        if isinstance(self.A, scipy.sparse.spmatrix) or isinstance(
+            other.A, scipy.sparse.spmatrix
+        ):
+            return np.array_equal(
+                self.todense(cache=False), other.todense(cache=False)
+            )
+
         return np.all(self.A == other.A)
 
     def __neg__(self) -> "Matrix":
diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 038b566..a0f5c97 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -200,7 +200,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
         if self.is_isotropic and other.is_isotropic:
             return self.scalar == other.scalar
 
-        if not self.is_isotropic and not self.is_isotropic:
+        if not self.is_isotropic and not other.is_isotropic:
             return np.all(self.factors == other.factors)
 
         return False
-- 
2.43.0


From 77554b6f879a6872ef38840479de9b906ac8ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 05/88] fix: adding linear operators of different shapes
 broadcast silently

---
 src/probnum/linops/_arithmetic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 00ec028..e99a5b2 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -465,8 +465,11 @@ def _operands_to_compatible_linops(
         op1 = _operand_to_linop(op1, shape=op2.shape)
     elif not isinstance(op2, LinearOperator):
         op2 = _operand_to_linop(op2, shape=op1.shape)
-    else:
-        # TODO: check whether both have the same shape
-        pass
+
+    if op1 is not None and op2 is not None and op1.shape != op2.shape:
+        raise ValueError(
+            f"The operands must have the same shape, but got {op1.shape} and "
+            f"{op2.shape}."
+        )
 
     return op1, op2
-- 
2.43.0


From ed5448a816da3f8feb0f727fae5548917d262e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 06/88] fix: product of a scaling and a (sparse) matrix ignored
 shapes and sparsity

---
 src/probnum/linops/_arithmetic.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index e99a5b2..b477832 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -249,10 +249,26 @@ _matmul_fns[(IdentityKronecker, Kronecker)] = Kronecker._matmul_kronecker
 
 # Matrix
 def _matmul_scaling_matrix(scaling: Scaling, matrix: Matrix) -> Matrix:
+    if scaling.shape[1] != matrix.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {scaling.shape} @ {matrix.shape}"
+        )
+
+    if isinstance(matrix.A, scipy.sparse.spmatrix):
+        return Matrix(A=scipy.sparse.diags(scaling.factors) @ matrix.A)
+
     return Matrix(A=np.multiply(scaling.factors[:, np.newaxis], matrix.A))
 
 
 def _matmul_matrix_scaling(matrix: Matrix, scaling: Scaling) -> Matrix:
+    if matrix.shape[1] != scaling.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {matrix.shape} @ {scaling.shape}"
+        )
+
+    if isinstance(matrix.A, scipy.sparse.spmatrix):
+        return Matrix(A=matrix.A @ scipy.sparse.diags(scaling.factors))
+
     return Matrix(A=np.multiply(matrix.A, scaling.factors))
 
 
-- 
2.43.0


From 8c98ef94d2f49e1573c1e27111ca2d35d5a20f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 07/88] fix: products of sparse matrices with selections,
 embeddings and wrapped operators

---
 src/probnum/linops/_arithmetic.py | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index b477832..89eaecd 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -279,10 +279,27 @@ _matmul_fns[(Scaling, Matrix)] = _matmul_scaling_matrix
 _matmul_fns[(Matrix, Scaling)] = _matmul_matrix_scaling
 
 
-_matmul_fns[(Selection, Matrix)] = lambda sel, mat: Matrix(sel @ mat.A)
-_matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
-_matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
-_matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
+
+def _matmul_indexing_matrix(
+    op: Union[Selection, Embedding], mat: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if isinstance(mat.A, scipy.sparse.spmatrix):
+        return NotImplemented
+    return Matrix(op @ mat.A)
+
+
+def _matmul_matrix_indexing(
+    mat: Matrix, op: Union[Selection, Embedding]
+) -> Union[Matrix, NotImplementedType]:
+    if isinstance(mat.A, scipy.sparse.spmatrix):
+        return NotImplemented
+    return Matrix(mat.A @ op)
+
+
+_matmul_fns[(Selection, Matrix)] = _matmul_indexing_matrix
+_matmul_fns[(Embedding, Matrix)] = _matmul_indexing_matrix
+_matmul_fns[(Matrix, Selection)] = _matmul_matrix_indexing
+_matmul_fns[(Matrix, Embedding)] = _matmul_matrix_indexing
 
 _add_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A + mat2.A)
 _sub_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A - mat2.A)
@@ -291,7 +308,9 @@ _sub_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A - mat2.A)
 def _matmul_matrix_wrapped(
     mat: Matrix, wrapped: Union[_InverseLinearOperator, TransposedLinearOperator]
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and not isinstance(
+        mat.A, scipy.sparse.spmatrix
+    ):
         return Matrix(mat.A @ wrapped)
     return NotImplemented
 
@@ -299,7 +318,9 @@ def _matmul_matrix_wrapped(
 def _matmul_wrapped_matrix(
     wrapped: Union[_InverseLinearOperator, TransposedLinearOperator], mat: Matrix
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and not isinstance(
+        mat.A, scipy.sparse.spmatrix
+    ):
         return Matrix(wrapped @ mat.A)
     return NotImplemented
 
-- 
2.43.0


From 8b7908a805589f5039d5cef2ec16f5832432caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 08/88] fix: inverse and determinant of square products with
 non-square factors

---
 src/probnum/linops/_arithmetic_fallbacks.py | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/probnum/linops/_arithmetic_fallbacks.py b/src/probnum/linops/_arithmetic_fallbacks.py
index 0b05771..61edcd1 100644
--- a/src/probnum/linops/_arithmetic_fallbacks.py
+++ b/src/probnum/linops/_arithmetic_fallbacks.py
@@ -203,16 +203,28 @@ class ProductLinearOperator(LambdaLinearOperator):
             transpose=lambda: ProductLinearOperator(
                 *(factor.T for factor in reversed(self._factors))
             ),
-            inverse=lambda: ProductLinearOperator(
+            **self._factorwise_fns(),
+        )
+
+    def _factorwise_fns(self):
+        # These identities only hold if all factors are square
+        if not all(factor.is_square for factor in self._factors):
+            return {}
+
+        return {
+            "inverse": lambda: ProductLinearOperator(
                 *(factor.inv() for factor in reversed(self._factors))
             ),
-            det=lambda: functools.reduce(
+            "det": lambda: functools.reduce(
                 operator.mul, (factor.det() for factor in self._factors)
             ),
-            logabsdet=lambda: functools.reduce(
+            "logabsdet": lambda: functools.reduce(
                 operator.add, (factor.logabsdet() for factor in self._factors)
             ),
-        )
+            "solve": lambda B: functools.reduce(
+                lambda b, op: op.solve(b), self._factors, B
+            ),
+        }
 
     @property
     def factors(self) -> Tuple[LinearOperator, ...]:
@@ -237,9 +249,6 @@ class ProductLinearOperator(LambdaLinearOperator):
         res += "\n]"
         return res
 
-    def _solve(self, B: np.ndarray) -> np.ndarray:
-        return functools.reduce(lambda b, op: op.solve(b), self._factors, B)
-
 
 def _matmul_fallback(
     op1: BinaryOperandType, op2: BinaryOperandType
-- 
2.43.0


From 36d0ef5bbf0e15ebf27580f0b5795ad016581e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 09/88] fix: arithmetic of scalings truncated the result to the
 first data type

---
 src/probnum/linops/_scaling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index a0f5c97..f7e7d4a 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -212,9 +212,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors + other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors + other.factors, shape=self.shape)
 
     def _sub_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -223,9 +221,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors - other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors - other.factors, shape=self.shape)
 
     def _mul_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -234,9 +230,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors * other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors * other.factors, shape=self.shape)
 
     def _matmul_scaling(self, other: "Scaling") -> "Scaling":
         return self._mul_scaling(other)
-- 
2.43.0


From 4eeb45f0d88a1fc4848f89ba7ee28098014329b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:13 +0000
Subject: [PATCH 10/88] fix: transpose and dense form of selections and
 embeddings ignored indices

---
 src/probnum/linops/_arithmetic.py      |  6 ++--
 src/probnum/linops/_linear_operator.py | 38 +++++++++++++++++++-------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 89eaecd..9a04901 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -356,8 +356,10 @@ def _matmul_selection_embedding(
     selection: Selection, embedding: Embedding
 ) -> Union[NotImplementedType, Identity]:
 
-    if (embedding.shape[-1] == selection.shape[-2]) and np.all(
-        selection.indices == embedding._put_indices
+    if (
+        embedding.shape[-1] == selection.shape[-2]
+        and selection.indices == embedding._put_indices
+        and embedding._take_indices == tuple(range(embedding.shape[-1]))
     ):
         return Identity(shape=(selection.shape[-2], embedding.shape[-1]))
 
diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 40373c8..e300c87 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1800,11 +1800,7 @@ class Selection(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _selection_matmul(self.indices, x),
             todense=self._todense,
-            transpose=lambda: Embedding(
-                take_indices=np.arange(len(self._indices)),
-                put_indices=self._indices,
-                shape=(self.shape[1], self.shape[0]),
-            ),
+            transpose=self._transpose_selection,
         )
 
     @property
@@ -1813,8 +1809,20 @@ class Selection(LambdaLinearOperator):
         vector."""
         return self._indices
 
+    def _transpose_selection(self) -> LinearOperator:
+        if len(set(self._indices)) < len(self._indices):
+            # Entries which are selected repeatedly accumulate in the transpose
+            return TransposedLinearOperator(self)
+
+        return Embedding(
+            take_indices=np.arange(len(self._indices)),
+            put_indices=self._indices,
+            shape=(self.shape[1], self.shape[0]),
+            dtype=self.dtype,
+        )
+
     def _todense(self):
-        res = np.eye(self.shape[1], self.shape[1])
+        res = np.eye(self.shape[1], self.shape[1], dtype=self.dtype)
         return _selection_matmul(self.indices, res)
 
 
@@ -1858,13 +1866,23 @@ class Embedding(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _embedding_matmul(self, x),
             todense=self._todense,
-            transpose=lambda: Selection(
-                indices=put_indices, shape=(self.shape[1], self.shape[0])
-            ),
+            transpose=self._transpose_embedding,
+        )
+
+    def _transpose_embedding(self) -> LinearOperator:
+        if sorted(self._take_indices) != list(range(self.shape[1])):
+            return TransposedLinearOperator(self)
+
+        return Selection(
+            indices=np.array(self._put_indices)[np.argsort(self._take_indices)],
+            shape=(self.shape[1], self.shape[0]),
+            dtype=self.dtype,
         )
 
     def _todense(self):
-        return self.T.todense().T
+        res = np.zeros(self.shape, dtype=self.dtype)
+        res[np.array(self._put_indices), np.array(self._take_indices)] = 1
+        return res
 
 
 def _embedding_matmul(embedding, M):
-- 
2.43.0


From 3e9cab4a79c4f546406494e19543c27e1cb82593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:41 +0000
Subject: [PATCH 11/88] fix: type-cast linear operators discarded the imaginary
 part of eigenvalues

---
 src/probnum/linops/_linear_operator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index e300c87..9aa857a 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1579,7 +1579,7 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             transpose=lambda: self._linop.T.astype(dtype),
             inverse=lambda: self._linop.inv().astype(self._inexact_dtype),
             rank=self._linop.rank,
-            eigvals=lambda: self._linop.eigvals().astype(self._inexact_dtype),
+            eigvals=self._eigvals_astype,
             cond=lambda p: self._linop.cond(p=p).astype(self._inexact_dtype),
             det=lambda: self._linop.det().astype(self._inexact_dtype),
             logabsdet=lambda: self._linop.logabsdet().astype(self._inexact_dtype),
@@ -1587,6 +1587,17 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             diagonal=lambda: self._linop.diagonal().astype(dtype),
         )
 
+    def _eigvals_astype(self) -> np.ndarray:
+        eigvals = self._linop.eigvals()
+
+        if np.issubdtype(eigvals.dtype, np.complexfloating):
+            # Do not discard the imaginary parts of complex eigenvalues
+            return eigvals.astype(
+                np.result_type(self._inexact_dtype, np.complex64), copy=False
+            )
+
+        return eigvals.astype(self._inexact_dtype)
+
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-- 
2.43.0


From d90f592a948556b116e7878360c473a3b0f9ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:41 +0000
Subject: [PATCH 12/88] fix: Cholesky factor of Kronecker products with
 negative definite factors

---
 src/probnum/linops/_kronecker.py | 40 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/probnum/linops/_kronecker.py b/src/probnum/linops/_kronecker.py
index f62598c..03e6efe 100644
--- a/src/probnum/linops/_kronecker.py
+++ b/src/probnum/linops/_kronecker.py
@@ -224,15 +224,23 @@ class Kronecker(_linear_operator.LinearOperator):
 
         return NotImplemented
 
-    def _cholesky(self, lower: bool = True) -> Kronecker:
-        # A Kronecker product is symmetric iff its factors are symmetric, since
-        # (A (x) B)^T = A^T (x) B^T
-        assert self.A.is_symmetric and self.B.is_symmetric
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if not (self.A.is_symmetric and self.B.is_symmetric):
+            # The symmetry of the factors is unknown
+            return super()._cholesky(lower)
 
-        return Kronecker(
-            A=self.A.cholesky(lower),
-            B=self.B.cholesky(lower),
-        )
+        try:
+            return Kronecker(
+                A=self.A.cholesky(lower),
+                B=self.B.cholesky(lower),
+            )
+        except np.linalg.LinAlgError:
+            # The product is also positive definite if both factors are negative
+            # definite, since A (x) B = (-A) (x) (-B)
+            return Kronecker(
+                A=_negate_symmetric(self.A).cholesky(lower),
+                B=_negate_symmetric(self.B).cholesky(lower),
+            )
 
     def _symmetrize(self) -> _linear_operator.LinearOperator:
         # This is only an approximation to the closest symmetric matrix in the
@@ -247,6 +255,14 @@ class Kronecker(_linear_operator.LinearOperator):
         return super()._symmetrize()
 
 
+def _negate_symmetric(
+    linop: _linear_operator.LinearOperator,
+) -> _linear_operator.LinearOperator:
+    negated = -linop
+    negated.is_symmetric = True
+    return negated
+
+
 def _kronecker_matmul(
     A: _linear_operator.LinearOperator,
     B: _linear_operator.LinearOperator,
@@ -441,8 +457,12 @@ class SymmetricKronecker(_linear_operator.LinearOperator):
         return super()._cond(p)
 
     def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
-        if self._identical_factors:
-            return SymmetricKronecker(A=self.A.cholesky(lower))
+        if self._identical_factors and self.A.is_symmetric:
+            try:
+                return SymmetricKronecker(A=self.A.cholesky(lower))
+            except np.linalg.LinAlgError:
+                # The product is also positive definite if A is negative definite
+                return SymmetricKronecker(A=_negate_symmetric(self.A).cholesky(lower))
 
         return super()._cholesky(lower)
 
-- 
2.43.0


From cd94e06e1f9cd0c2034c820c6ce44c28b9f2e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 13/88] fix: Cholesky factors of linear-operator covariances
 were rejected by type

---
 src/probnum/randvars/_normal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..2d736bb 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -149,7 +149,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             # shape, dtype.
             if cov_cholesky is not None:
 
-                if not isinstance(cov_cholesky, type(cov)):
+                if not isinstance(
+                    cov_cholesky,
+                    linops.LinearOperator if cov_operator else type(cov),
+                ):
                     raise TypeError(
                         f"The covariance matrix is of type `{type(cov)}`, so its "
                         f"Cholesky decomposition must be of the same type, but an "
-- 
2.43.0


From 4ca65fb607d054366f2dfafad164fdc882dcfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 14/88] fix: dividing a normal random variable with a
 linear-operator covariance

---
 src/probnum/randvars/_arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..fe798c2 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -368,13 +368,13 @@ def _truediv_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Norma
             raise ZeroDivisionError
 
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = norm_rv.cov_cholesky / constant_rv.support
+            cov_cholesky = (1 / constant_rv.support) * norm_rv.cov_cholesky
         else:
             cov_cholesky = None
 
         return _Normal(
             mean=norm_rv.mean / constant_rv.support,
-            cov=norm_rv.cov / (constant_rv.support**2),
+            cov=(1 / constant_rv.support**2) * norm_rv.cov,
             cov_cholesky=cov_cholesky,
         )
 
-- 
2.43.0


From 5b1fa05396bf0ec2b7fad9d604000bda23b234e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:36 +0000
Subject: [PATCH 15/88] fix: matrix products of normal random variables with
 precomputed Cholesky factor

---
 src/probnum/randvars/_arithmetic.py | 49 +++++++++++++++++++----------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index fe798c2..12ecdae 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -274,6 +274,24 @@ _mul_fns[(_Normal, _Constant)] = _mul_normal_constant
 _mul_fns[(_Constant, _Normal)] = _swap_operands(_mul_normal_constant)
 
 
+def _transform_cov_cholesky(linear_map, norm_rv: _Normal, cov):
+    """Cholesky factor of the covariance ``cov`` of a linearly transformed normal random
+    variable, if the factor of the original covariance is available."""
+    if not norm_rv.cov_cholesky_is_precomputed:
+        return None
+
+    cov_sqrtm = linear_map @ norm_rv.cov_cholesky
+    if isinstance(cov_sqrtm, _linear_operators.LinearOperator):
+        cov_sqrtm = cov_sqrtm.todense()
+
+    cov_cholesky = _utils.linalg.cholesky_update(np.atleast_2d(cov_sqrtm))
+    cov_cholesky = cov_cholesky.reshape(cov.shape)
+
+    if isinstance(cov, _linear_operators.LinearOperator):
+        return _linear_operators.aslinop(cov_cholesky)
+    return cov_cholesky
+
+
 def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     """Normal random variable multiplied with a vector or matrix.
 
@@ -281,20 +299,17 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
     is a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[0] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support.T @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
-
         mean = norm_rv.mean @ constant_rv.support
         cov = constant_rv.support.T @ (norm_rv.cov @ constant_rv.support)
 
         if cov.shape == () and mean.shape == (1,):
             cov = cov.reshape((1, 1))
 
-        return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
+        return _Normal(
+            mean=mean,
+            cov=cov,
+            cov_cholesky=_transform_cov_cholesky(constant_rv.support.T, norm_rv, cov),
+        )
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
@@ -326,16 +341,16 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
     a matrix- or multi-variate normal random variable and :math:`A` a constant.
     """
     if norm_rv.ndim == 1 or (norm_rv.ndim == 2 and norm_rv.shape[1] == 1):
-        if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = _utils.linalg.cholesky_update(
-                constant_rv.support @ norm_rv.cov_cholesky
-            )
-        else:
-            cov_cholesky = None
+        mean = constant_rv.support @ norm_rv.mean
+        cov = constant_rv.support @ (norm_rv.cov @ constant_rv.support.T)
+
+        if cov.shape == () and mean.shape == (1,):
+            cov = cov.reshape((1, 1))
+
         return _Normal(
-            mean=constant_rv.support @ norm_rv.mean,
-            cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
-            cov_cholesky=cov_cholesky,
+            mean=mean,
+            cov=cov,
+            cov_cholesky=_transform_cov_cholesky(constant_rv.support, norm_rv, cov),
         )
 
     # This part does not do the Cholesky update,
-- 
2.43.0


From b6fae19c251985b09d99a04b5404cde5083c5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 16/88] fix: entropy and support tests of random variables
 rejected valid scalar results

---
 src/probnum/randvars/_random_variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..70c90c8 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -397,13 +397,13 @@ class RandomVariable(Generic[ValueType]):
 
         in_support = self.__in_support(self._as_value_type(x))
 
-        if not isinstance(in_support, bool):
+        if not isinstance(in_support, (bool, np.bool_)):
             raise ValueError(
                 f"The function `in_support` must return a `bool`, but its return value "
-                f"is of type `{type(x)}`."
+                f"is of type `{type(in_support)}`."
             )
 
-        return in_support
+        return bool(in_support)
 
     def sample(self, rng: np.random.Generator, size: ShapeLike = ()) -> ValueType:
         """Draw realizations from a random variable.
@@ -812,7 +812,7 @@ class RandomVariable(Generic[ValueType]):
     def _ensure_numpy_float(
         cls, name: str, value: Any, force_scalar: bool = False
     ) -> Union[np.float_, np.ndarray]:
-        if np.isscalar(value):
+        if np.ndim(value) == 0:
             if not isinstance(value, np.float_):
                 try:
                     value = _utils.as_numpy_scalar(value, dtype=np.float_)
-- 
2.43.0


From e21a55ac147bbb47a0dade191240406f7d0dbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 17/88] fix: shape of samples of normal random variables

---
 src/probnum/randvars/_normal.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 2d736bb..cc16c0c 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -487,7 +487,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+        if size == (1,):
+            # As in SciPy, a single sample does not have a sample axis.
+            size = ()
+
+        return np.reshape(sample, size + self.shape)
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
@@ -595,7 +599,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -603,4 +607,4 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        return self.dense_mean + samples_scaled.T.reshape(size + (n, n))
-- 
2.43.0


From 2009c179518f56790c51ff073738021ab9bc42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 18/88] fix: indexing normal random variables with partial
 keys, slices and masks

---
 src/probnum/randvars/_normal.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cc16c0c..f883313 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -305,18 +305,17 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             while marginalizing over all other entries.
         """
 
-        if not isinstance(key, tuple):
-            key = (key,)
-
         # Select entries from mean
         mean = self.dense_mean[key]
 
-        # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        # Select the corresponding submatrix from the covariance matrix
+        idcs = np.arange(self.size).reshape(self.shape)[key]
+        cov = self.dense_cov.reshape(self.size, self.size)
 
         if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+            cov = cov[np.ix_(idcs.ravel(), idcs.ravel())]
+        else:
+            cov = cov[idcs, idcs]
 
         return Normal(
             mean=mean,
-- 
2.43.0


From 29da474d7468045906b78de6d464001e03d9fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 19/88] fix: reshaping a normal random variable with a single
 entry to a scalar

---
 src/probnum/randvars/_normal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index f883313..0609755 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -335,6 +335,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
         if reshaped_mean.ndim > 0 and reshaped_cov.ndim == 0:
             reshaped_cov = reshaped_cov.reshape(1, 1)
+        elif reshaped_mean.ndim == 0:
+            reshaped_cov = reshaped_cov.reshape(())
 
         return Normal(
             mean=reshaped_mean,
-- 
2.43.0


From 6baa331b459f2e1b4b00a2c4b74055e6d3650c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 20/88] fix: transposing a random variable via .T ignored the
 subclass

---
 src/probnum/randvars/_random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 70c90c8..342a167 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -583,7 +583,10 @@ class RandomVariable(Generic[ValueType]):
             as_value_type=self.__as_value_type,
         )
 
-    T = property(transpose)
+    @property
+    def T(self) -> "RandomVariable":
+        """Transpose of the random variable."""
+        return self.transpose()
 
     # Unary arithmetic operations
 
-- 
2.43.0


From 83f57c4b81b3b8fded0d78f550e36afe1009add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 21/88] fix: samples of indexed and transposed random variables
 mixed up sample axes

---
 src/probnum/randvars/_random_variable.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 342a167..b82f336 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -524,10 +524,14 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        idcs = np.arange(self.size).reshape(self.shape)[key]
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape)[key].shape,
+            shape=idcs.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
+            sample=lambda rng, size: np.reshape(
+                self.sample(rng, size), size + (self.size,)
+            )[..., idcs],
             mode=lambda: self.mode[key],
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
@@ -569,10 +573,14 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+        idcs = np.arange(self.size).reshape(self.shape).transpose(*axes)
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape).transpose(*axes).shape,
+            shape=idcs.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=lambda rng, size: np.reshape(
+                self.sample(rng, size), size + (self.size,)
+            )[..., idcs],
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-- 
2.43.0


From 19b3581acf556bc4a72c395edd1e839eca14dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 22/88] fix: wrapping SciPy distributions advanced the global
 random state

---
 src/probnum/randvars/_scipy_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_scipy_stats.py b/src/probnum/randvars/_scipy_stats.py
index a8ae635..b066103 100644
--- a/src/probnum/randvars/_scipy_stats.py
+++ b/src/probnum/randvars/_scipy_stats.py
@@ -205,8 +205,8 @@ def _rv_init_kwargs_from_scipy_rv(
     scipy_rv
         SciPy random variable.
     """
-    # Infer shape and dtype
-    sample = _return_numpy(scipy_rv.rvs)()
+    # Infer shape and dtype (without advancing the global random state)
+    sample = _return_numpy(scipy_rv.rvs)(random_state=np.random.default_rng(0))
 
     shape = sample.shape
     dtype = sample.dtype
-- 
2.43.0


From f09a06733fa9057e676aab8176e559fb77e22e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 23/88] fix: as_colvec left random variables unchanged

---
 src/probnum/utils/arrayutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/utils/arrayutils.py b/src/probnum/utils/arrayutils.py
index 279de4d..13fea72 100644
--- a/src/probnum/utils/arrayutils.py
+++ b/src/probnum/utils/arrayutils.py
@@ -61,7 +61,7 @@ def as_colvec(
     """
     if isinstance(vec, probnum.randvars.RandomVariable):
         if vec.shape != (vec.shape[0], 1):
-            vec.reshape(newshape=(vec.shape[0], 1))
+            return vec.reshape(newshape=(vec.shape[0], 1))
     elif vec.ndim == 1:
         return vec[:, None]
     return vec
-- 
2.43.0


From a37b54d99a73279a750ef2328704b376c448540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:18 +0000
Subject: [PATCH 24/88] fix: shape of wrapped SciPy distributions that draw a
 sample axis by default

---
 src/probnum/randvars/_scipy_stats.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_scipy_stats.py b/src/probnum/randvars/_scipy_stats.py
index b066103..be6e9e0 100644
--- a/src/probnum/randvars/_scipy_stats.py
+++ b/src/probnum/randvars/_scipy_stats.py
@@ -206,7 +206,13 @@ def _rv_init_kwargs_from_scipy_rv(
         SciPy random variable.
     """
     # Infer shape and dtype (without advancing the global random state)
-    sample = _return_numpy(scipy_rv.rvs)(random_state=np.random.default_rng(0))
+    rvs = _return_numpy(scipy_rv.rvs)
+
+    try:
+        sample = rvs(size=(), random_state=np.random.default_rng(0))
+    except (TypeError, ValueError):
+        # Some multivariate distributions do not accept an empty sample size.
+        sample = rvs(random_state=np.random.default_rng(0))
 
     shape = sample.shape
     dtype = sample.dtype
-- 
2.43.0


From d54c14348ccf5fa0e6a965a1733c721dcbf0f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:26 +0000
Subject: [PATCH 25/88] fix: Cholesky update with a tall first and any second
 matrix square root

---
 src/probnum/utils/linalg/_cholesky_updates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..e8ac2d2 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -69,11 +69,10 @@ def cholesky_update(
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
     if S1.ndim == 1:
         lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
-        lower_sqrtm = upper_sqrtm.T
     else:
+        # The square roots may have fewer columns than rows.
         lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+        lower_sqrtm[:, : upper_sqrtm.shape[0]] = upper_sqrtm.T
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From 28566823a2c8c0ec7e49a46396582e9315ff1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:23 +0000
Subject: [PATCH 26/88] fix: force vector of time-invariant SDEs was reversed
 in the discretisation

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..5d951fe 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,7 +158,9 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_rev = np.eye(
+                self.state_dimension, 2 * self.state_dimension, k=self.state_dimension
+            )
             ah = proj @ ah_stack @ proj.T
             sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
-- 
2.43.0


From c618e9392c69511d953240c40f14c4874746e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:23 +0000
Subject: [PATCH 27/88] fix: smoothing gains passed to integrator transitions
 were wrongly preconditioned

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 2 +-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 2 +-
 src/probnum/randprocs/markov/integrator/_matern.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..9655525 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..fea58ff 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..ba6d8e4 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt)
             if gain is not None
             else None
         )
-- 
2.43.0


From 0fe22540638f5dae762946c82bc584c6e15982f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 28/88] fix: square-root moment equations of linear SDEs
 flipped signs of shrinking covariances

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..bab7567 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,8 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From abb25c99277b3b87953a8e3a492bfa8f3ca25122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:38 +0000
Subject: [PATCH 29/88] fix: Kalman filter evaluated time-varying transitions
 and measurement models at wrong times

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From 7d05ec5b740302bfe482c376fa666fee76ce96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:38 +0000
Subject: [PATCH 30/88] fix: interpolating a smoothing posterior counted future
 observations twice

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..f0b2a31 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -236,7 +236,9 @@ class SmoothingPosterior(KalmanPosterior):
             return extrapolated_rv_right
 
         # Final case: we are interpolating. Both locations are not None.
-        # In this case, filter from the the left to the middle point;
+        # In this case, filter from the the left to the middle point
+        # (starting at the filtering distribution: the data on the right of the
+        # middle point enters through the smoothing update only);
         # And compute a smoothing update from the middle to the RHS point.
         if np.abs(previous_index - next_index) > 1.1:
             raise ValueError
@@ -245,7 +247,7 @@ class SmoothingPosterior(KalmanPosterior):
         assert dt_left > 0.0
         assert dt_right > 0.0
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From 3c6bb6c7b7cd5a285dc535b06afd6c39b3dfbceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 31/88] fix: prior samples reused the first base-measure
 realization for the second state

---
 src/probnum/randprocs/markov/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/_transition.py b/src/probnum/randprocs/markov/_transition.py
index 25c94f0..b11edab 100644
--- a/src/probnum/randprocs/markov/_transition.py
+++ b/src/probnum/randprocs/markov/_transition.py
@@ -471,7 +471,7 @@ class Transition(abc.ABC):
             curr_sample = (
                 curr_rv.mean
                 + curr_rv.cov_cholesky
-                @ base_measure_realizations[idx - 1].reshape((-1,))
+                @ base_measure_realizations[idx].reshape((-1,))
             )
             out_samples.append(curr_sample)
         return out_samples
-- 
2.43.0


From e3760668e882cb16b5193a21e398df9d71731ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 32/88] fix: running mean of constant diffusion estimates
 discarded the first estimate

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..ee677e7 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From 76615c782fddcf1702978ae305d6f46324ab211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 33/88] fix: piecewise constant diffusion returned its last
 value at the initial time

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index ee677e7..9808cac 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -142,7 +142,7 @@ class PiecewiseConstantDiffusion(Diffusion):
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
         indices = np.searchsorted(self.locations, t) - 1
-        indices[t < self.t0] = 0
+        indices[t <= self.t0] = 0
         indices[t > self.tmax] = -1
 
         if t_has_been_promoted:
-- 
2.43.0


From 9b84adacb8a87bc97500d6aaffa91035f78b81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 34/88] fix: sampling Markov processes with multi-dimensional
 sample sizes

---
 src/probnum/randprocs/markov/_markov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 7939edd..44b9cdb 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -72,7 +72,7 @@ class _MarkovBase(_random_process.RandomProcess):
                 )
             )
 
-        return np.stack(
+        samples = np.stack(
             [
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_real,
@@ -80,9 +80,12 @@ class _MarkovBase(_random_process.RandomProcess):
                     initrv=self.initrv,
                     _diffusion_list=np.ones_like(args[:-1]),
                 )
-                for base_real in base_measure_realizations
+                for base_real in base_measure_realizations.reshape(
+                    (-1,) + args.shape + self.initrv.shape
+                )
             ]
         )
+        return samples.reshape(size + samples.shape[1:])
 
     class Kernel(kernels.Kernel):
         def __init__(
-- 
2.43.0


From 08e8c99083e9be7d412117c893a06aab7c23c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:23 +0000
Subject: [PATCH 35/88] fix: smoothing posteriors used the diffusion of the
 neighbouring interval

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index f0b2a31..34bdf7c 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,12 +196,9 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
-        if diffusion_index >= len(self.locations) - 1:
-            diffusion_index = -1
+        # The i-th diffusion belongs to the interval between the i-th and the
+        # (i+1)-th gridpoint; right of the domain, the last diffusion matters.
+        diffusion_index = previous_index if next_index is not None else -1
         if self.diffusion_model_has_been_provided:
             squared_diffusion = self.diffusion_model[diffusion_index]
         else:
@@ -301,7 +298,7 @@ class SmoothingPosterior(KalmanPosterior):
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
         # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[1:])
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
-- 
2.43.0


From cc6a6465d4b65dde74afe69ba9cc69469e5e1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 36/88] fix: posterior samples at unsorted times were returned
 in sorted order

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 34bdf7c..597beec 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -87,7 +87,7 @@ class KalmanPosterior(_timeseriesposterior.TimeSeriesPosterior, abc.ABC):
         # Compute the union (as sets) of t and self.locations
         # This allows that samples "always pass" the grid points.
         all_locations = np.union1d(t, self.locations)
-        slice_these_out = np.where(np.isin(all_locations, t))[0]
+        slice_these_out = np.searchsorted(all_locations, np.atleast_1d(t))
         base_measure_realizations = stats.norm.rvs(
             size=(size + all_locations.shape + single_rv_shape),
             random_state=rng,
-- 
2.43.0


From 903a2f728b30fcb607ba0494a9de6bb0938f7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 37/88] fix: particle filter continued from the particles
 before resampling

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From 08c6214700a1a8f84a1ae073919fe292d5dd35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 38/88] fix: bootstrap particle filter forgot the weights of
 previous steps

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..2b60248 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,7 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
-- 
2.43.0


From 4b91015aadcc865d1d7795c3388f964c7ee5ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 39/88] fix: particle weights underflowed to NaN for unlikely
 observations

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index 4509de3..40f792c 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -178,7 +178,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
 
             dt = t - t_old
             new_particles = particles.copy()
-            new_weights = weights.copy()
+            new_log_weights = np.zeros_like(weights)
 
             # Capture the inputs in a variable for more compact code layout
             inputs = measmod, particles, weights, data, t_old, dt, t
@@ -203,11 +203,10 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                         old_weight=w,
                     )
                 )
-                new_weight = np.exp(loglikelihood + log_correction_factor)
-
                 new_particles[idx] = new_particle
-                new_weights[idx] = new_weight
+                new_log_weights[idx] = loglikelihood + log_correction_factor
 
+            new_weights = np.exp(new_log_weights - np.amax(new_log_weights))
             weights = new_weights / np.sum(new_weights)
             particles = new_particles
             new_rv = randvars.Categorical(support=particles, probabilities=weights)
-- 
2.43.0


From e364b97d09fcbc2f2caaa799dc8c9dd3e01d1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:17 +0000
Subject: [PATCH 40/88] fix: probability mass of categorical variables with
 array-valued or repeated categories

---
 src/probnum/randvars/_categorical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..6446502 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,8 +67,8 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            mask = np.asarray(x == self.support).reshape((num_categories, -1)).all(axis=1)
+            return np.sum(self.probabilities[mask])
 
         def _mode_categorical():
             mask = np.argmax(self.probabilities)
-- 
2.43.0


From b36b8275f4854d44d5d6e0d6ad3bd36a56e5f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 41/88] fix: categorical variables rejected their own
 categories of different string lengths

---
 src/probnum/randvars/_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index 6446502..cd85006 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -61,7 +61,7 @@ class Categorical(DiscreteRandomVariable):
             # This implementation is defense against cryptic warnings such as:
             # https://stackoverflow.com/questions/45020217/numpy-where-function-throws-a-futurewarning-returns-scalar-instead-of-list
             x = np.asarray(x)
-            if x.dtype != self.dtype:
+            if x.dtype.type != self.dtype.type:
                 raise ValueError(
                     "The data type of x does not match with the data type of the "
                     "support."
-- 
2.43.0


From cd0faa1ca1506ce5de9c75d7323bc1dd1632799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:26 +0000
Subject: [PATCH 42/88] fix: covariance of transposed random variables was not
 permuted

---
 src/probnum/randvars/_random_variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index b82f336..a78d27e 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -584,7 +584,9 @@ class RandomVariable(Generic[ValueType]):
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=lambda: self.cov[np.ix_(idcs.ravel(), idcs.ravel())]
+            if self.ndim > 0
+            else self.cov,
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
-- 
2.43.0


From fc5ef667c0d2f99e7536d4a3506e6e3a5bba61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:26 +0000
Subject: [PATCH 43/88] fix: covariance of normal random variables transposed
 with negative axes

---
 src/probnum/randvars/_normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 0609755..c31f5bb 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -352,6 +352,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean_t = self.dense_mean.transpose(*axes).copy()
 
         # Transpose covariance
+        axes = tuple(axis % mean_t.ndim for axis in axes)
         cov_axes = axes + tuple(mean_t.ndim + axis for axis in axes)
         cov_t = self.dense_cov.reshape(self.shape + self.shape)
         cov_t = cov_t.transpose(*cov_axes).copy()
-- 
2.43.0


From a4630a7cf40e9af29d6cc2d389ed6e6b9c84529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:26 +0000
Subject: [PATCH 44/88] fix: indexed random variables reported the entropy of
 all entries

---
 src/probnum/randvars/_random_variable.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index a78d27e..131db19 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -536,7 +536,6 @@ class RandomVariable(Generic[ValueType]):
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
             std=lambda: self.std[key],
-            entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
-- 
2.43.0


From af3eddd5fbaa6baf7bc512e3944ffa795e11a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 45/88] fix: covariance functions failed or truncated their
 values at integer inputs

---
 .../covfuncs/_covariance_function.py          | 22 +++++++++++--------
 .../covfuncs/_covariance_linear_operator.py   |  2 +-
 .../randprocs/covfuncs/_white_noise.py        |  6 +----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 77898ec..a92476f 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -766,12 +766,14 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         input dimension."""
 
         if x1 is None:
-            return np.zeros_like(  # pylint: disable=unexpected-keyword-arg
-                x0,
-                shape=x0.shape[: x0.ndim - self.input_ndim],
+            return np.zeros(
+                x0.shape[: x0.ndim - self.input_ndim],
+                dtype=np.result_type(x0.dtype, np.single),
             )
 
-        sqdiffs = x0 - x1
+        sqdiffs = np.subtract(
+            x0, x1, dtype=np.result_type(x0.dtype, x1.dtype, np.single)
+        )
 
         if scale_factors is not None:
             sqdiffs *= scale_factors
@@ -792,9 +794,9 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         dimension."""
 
         if x1 is None:
-            return np.zeros_like(  # pylint: disable=unexpected-keyword-arg
-                x0,
-                shape=x0.shape[: x0.ndim - self.input_ndim],
+            return np.zeros(
+                x0.shape[: x0.ndim - self.input_ndim],
+                dtype=np.result_type(x0.dtype, np.single),
             )
 
         return np.sqrt(
@@ -822,10 +824,12 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         if len(x1.shape) < 2:
             x1 = x1.reshape(-1, 1)
 
-        sqdiffs = Vi(x0) - Vj(x1)
+        dtype = np.result_type(x0.dtype, x1.dtype, np.single)
+
+        sqdiffs = Vi(x0.astype(dtype)) - Vj(x1.astype(dtype))
 
         if scale_factors is not None:
-            sqdiffs *= Pm(scale_factors)
+            sqdiffs *= Pm(np.asarray(scale_factors, dtype=dtype)[()])
 
         sqdiffs *= sqdiffs
 
diff --git a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
index 6d00de2..c27f4d9 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
@@ -62,7 +62,7 @@ class CovarianceLinearOperator(linops.LinearOperator):
         self._keops_lazy_tensor = keops_lazy_tensor
         self._use_keops = _USE_KEOPS and self._keops_lazy_tensor is not None
         dtype = np.promote_types(x0.dtype, x1.dtype) if x1 is not None else x0.dtype
-        super().__init__(shape, dtype)
+        super().__init__(shape, np.result_type(dtype, np.single))
 
     @property
     def keops_lazy_tensor(self) -> Optional["LazyTensor"]:
diff --git a/src/probnum/randprocs/covfuncs/_white_noise.py b/src/probnum/randprocs/covfuncs/_white_noise.py
index ae5377c..d73754c 100644
--- a/src/probnum/randprocs/covfuncs/_white_noise.py
+++ b/src/probnum/randprocs/covfuncs/_white_noise.py
@@ -37,11 +37,7 @@ class WhiteNoise(CovarianceFunction):
 
     def _evaluate(self, x0: np.ndarray, x1: Optional[np.ndarray]) -> np.ndarray:
         if x1 is None:
-            return np.full_like(  # pylint: disable=unexpected-keyword-arg
-                x0,
-                self.sigma_sq,
-                shape=x0.shape[: x0.ndim - self.input_ndim],
-            )
+            return np.full(x0.shape[: x0.ndim - self.input_ndim], self.sigma_sq)
 
         if self.input_shape == ():
             return self.sigma_sq * (x0 == x1)
-- 
2.43.0


From 68e1d78116b388aefccf9c47d844fdeea871621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 46/88] fix: covariance operators could not be multiplied with
 integer vectors

---
 src/probnum/randprocs/covfuncs/_covariance_linear_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
index c27f4d9..4ce432f 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_linear_operator.py
@@ -76,8 +76,8 @@ class CovarianceLinearOperator(linops.LinearOperator):
         return self._evaluate_dense_matrix(self._x0, self._x1)
 
     def _matmul(self, x: np.ndarray) -> np.ndarray:
-        if self._use_keops:
-            return self.keops_lazy_tensor @ x
+        if self._use_keops and not np.iscomplexobj(x):
+            return self.keops_lazy_tensor @ x.astype(self.dtype, copy=False)
         return self.todense() @ x
 
     def _transpose(self) -> linops.LinearOperator:
-- 
2.43.0


From 4a480862eaaa917d361d54be201765c2a9d265f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 47/88] fix: Matern covariance with large non-half-integer nu
 was NaN at small distances

---
 src/probnum/randprocs/covfuncs/_matern.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_matern.py b/src/probnum/randprocs/covfuncs/_matern.py
index d48e97a..8921e7b 100644
--- a/src/probnum/randprocs/covfuncs/_matern.py
+++ b/src/probnum/randprocs/covfuncs/_matern.py
@@ -271,9 +271,11 @@ def _matern_bessel(scaled_dists: np.ndarray, nu: ScalarType) -> np.ndarray:
     # The modified Bessel function K_nu is not defined for z=0
     scaled_dists = np.maximum(scaled_dists, np.finfo(scaled_dists.dtype).eps)
 
-    return (
-        2 ** (1.0 - nu)
-        / scipy.special.gamma(nu)
-        * scaled_dists**nu
-        * scipy.special.kv(nu, scaled_dists)
+    bessel = scipy.special.kv(nu, scaled_dists)
+
+    # K_nu overflows for small z, where the limit of the covariance function is 1
+    return np.where(
+        np.isinf(bessel),
+        1.0,
+        2 ** (1.0 - nu) / scipy.special.gamma(nu) * scaled_dists**nu * bessel,
     )
-- 
2.43.0


From 4802df6a150241c83440e906ab38de539a8da33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 48/88] fix: Gaussian processes could not be evaluated at a
 single input and mixed up vector-valued outputs

---
 src/probnum/randprocs/_gaussian_process.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randprocs/_gaussian_process.py b/src/probnum/randprocs/_gaussian_process.py
index aea560d..d1c59c5 100644
--- a/src/probnum/randprocs/_gaussian_process.py
+++ b/src/probnum/randprocs/_gaussian_process.py
@@ -73,7 +73,15 @@ class GaussianProcess(_random_process.RandomProcess[ArrayLike, np.ndarray]):
         )
 
     def __call__(self, args: ArrayLike) -> randvars.Normal:
-        return randvars.Normal(
-            mean=np.array(self.mean(args), copy=False),  # pylint: disable=not-callable
-            cov=self.cov.matrix(args),
-        )
+        mean = np.array(self.mean(args), copy=False)  # pylint: disable=not-callable
+        cov = self.cov.matrix(args)
+
+        if mean.ndim == 0:
+            cov = cov.reshape(())
+        elif self.output_ndim == 1:
+            # The covariance matrix enumerates the outputs first, the mean the inputs
+            (output_dim,) = self.output_shape
+            cov = cov.reshape(2 * (output_dim, mean.size // output_dim))
+            cov = cov.transpose((1, 0, 3, 2)).reshape(2 * (mean.size,))
+
+        return randvars.Normal(mean=mean, cov=cov)
-- 
2.43.0


From b0064187bf1dbe28af1daf28b618aafbc1b2463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 49/88] fix: variance of random processes at inputs that are
 not arrays

---
 src/probnum/randprocs/_random_process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/randprocs/_random_process.py b/src/probnum/randprocs/_random_process.py
index 3086137..d11fd6b 100644
--- a/src/probnum/randprocs/_random_process.py
+++ b/src/probnum/randprocs/_random_process.py
@@ -238,6 +238,7 @@ class RandomProcess(Generic[InputType, OutputType], abc.ABC):
             *shape=* ``batch_shape +`` :attr:`output_shape` -- Variance of the process
             at ``args``.
         """
+        args = np.asarray(args)
         pointwise_covs = self.cov(args, None)  # pylint: disable=not-callable
 
         assert (
-- 
2.43.0


From 212c7ea81cbff61408fbc71e976b59d1e594471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:40 +0000
Subject: [PATCH 50/88] fix: adding zero functions ignored mismatching shapes

---
 src/probnum/functions/_algebra.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/probnum/functions/_algebra.py b/src/probnum/functions/_algebra.py
index 4b757e8..5362d46 100644
--- a/src/probnum/functions/_algebra.py
+++ b/src/probnum/functions/_algebra.py
@@ -4,6 +4,14 @@ from ._algebra_fallbacks import SumFunction
 from ._function import Function
 from ._zero import Zero
 
+
+def _check_same_shapes(op1: Function, op2: Function) -> None:
+    if (op1.input_shape, op1.output_shape) != (op2.input_shape, op2.output_shape):
+        raise ValueError(
+            "The functions to be added must all have the same in- and output shape."
+        )
+
+
 ############
 # Function #
 ############
@@ -20,7 +28,8 @@ def _(self, other: SumFunction) -> SumFunction:
 
 
 @Function.__add__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    _check_same_shapes(self, other)
     return self
 
 
@@ -30,7 +39,8 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Function.__sub__.register  # pylint: disable=no-member
-def _(self, other: Zero) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Zero) -> Function:
+    _check_same_shapes(self, other)
     return self
 
 
@@ -60,10 +70,12 @@ def _(self, other: Function) -> SumFunction:
 
 
 @Zero.__add__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    _check_same_shapes(self, other)
     return other
 
 
 @Zero.__sub__.register  # pylint: disable=no-member
-def _(self, other: Function) -> Function:  # pylint: disable=unused-argument
+def _(self, other: Function) -> Function:
+    _check_same_shapes(self, other)
     return -other
-- 
2.43.0


From 5f178df57b210920bef89bc3ae5903f53a5a6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 51/88] fix: diffusion of nonlinear Gaussian transitions scaled
 the noise mean and squared the scale

---
 src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
index c92cf05..2b703fe 100644
--- a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
+++ b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
@@ -66,7 +66,9 @@ class NonlinearGaussian(_transition.Transition):
         self, realization, t, compute_gain=False, _diffusion=1.0, **kwargs
     ):
         fun_eval = self.transition_fun(t, realization)
-        noise = _diffusion * self.noise_fun(t)
+        noise = self.noise_fun(t)
+        # The (squared) diffusion scales the covariance of the noise, not its mean.
+        noise = noise.mean + np.sqrt(_diffusion) * (noise - noise.mean)
         return fun_eval + noise, {}
 
     def forward_rv(self, rv, t, compute_gain=False, _diffusion=1.0, **kwargs):
-- 
2.43.0


From b4c7eb817a3c96429818bdc99adf3219846f3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 52/88] fix: unscented Kalman filter required the Jacobian it
 never uses

---
 src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
index 92a2a60..7782aa3 100644
--- a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
+++ b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
@@ -26,7 +26,7 @@ class DiscreteUKFComponent(
             input_dim=non_linear_model.input_dim,
             output_dim=non_linear_model.output_dim,
             transition_fun=non_linear_model.transition_fun,
-            transition_fun_jacobian=non_linear_model.transition_fun_jacobian,
+            transition_fun_jacobian=non_linear_model._transition_fun_jacobian,
             noise_fun=non_linear_model.noise_fun,
         )
 
-- 
2.43.0


From e1d796e75fe7ebbf480aee9e5e809419dfa9fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 53/88] fix: stopping criterion of iterated smoothers depended
 on the sign of the states and stayed exhausted

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..6d8da3b 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -22,6 +22,7 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
         maximum number of iterations is reached.
         """
         if self.iterations > self.maxit:
+            self.iterations = 0
             errormsg = f"Maximum number of iterations (N={self.maxit}) reached."
             raise RuntimeError(errormsg)
         magnitude = self.evaluate_error(error=error, reference=reference)
@@ -33,6 +34,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From b69621b82152d62db5b9f1b2347cf014d553ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:15 +0000
Subject: [PATCH 54/88] fix: iterated smoothing did not linearise the backward
 pass at the previous posterior

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index c0fdeed..cfe066b 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -170,7 +170,9 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             _previous_posterior=_previous_posterior,
         )
         filter_posterior, info_dicts = filter_result
-        smooth_posterior = self.smooth(filter_posterior)
+        smooth_posterior = self.smooth(
+            filter_posterior, _previous_posterior=_previous_posterior
+        )
         return smooth_posterior, info_dicts
 
     def filter(
@@ -311,6 +313,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             filter_posterior.states,
             filter_posterior.locations,
             _diffusion_list=diffusion_list,
+            _previous_posterior=_previous_posterior,
         )
 
         return _kalmanposterior.SmoothingPosterior(
-- 
2.43.0


From 2d37ebb723f9f96ddd87e916b30b5580f241e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:01 +0000
Subject: [PATCH 55/88] fix: particle filter with a single particle lost the
 particle axis

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index 40f792c..1a91592 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -172,7 +172,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
         else:
             particles = self.prior_process.initrv.sample(
                 rng=self.rng, size=(self.num_particles,)
-            )
+            ).reshape(particle_set_shape)
 
         for t, data, measmod in regression_problem:
 
-- 
2.43.0


From 9e29fcac75a17313fbed9efa4d77a2cb76fcc6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 56/88] fix: ODE solvers stepped beyond the final time, into
 degenerate steps, or past stop locations

---
 src/probnum/diffeq/_odesolver.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..64813c3 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -76,9 +76,12 @@ class ODESolver(ABC):
         dt = self.steprule.firststep
 
         # Use state.ivp in case a callback modifies the IVP
-        while state.t < state.ivp.tmax:
+        while not _has_been_reached(state.ivp.tmax, t=state.t, ivp=state.ivp):
+            dt = min(dt, state.ivp.tmax - state.t)
             if stopper_state is not None:
-                dt, stopper_state = _adjust_time_step(stopper_state, t=state.t, dt=dt)
+                dt, stopper_state = _adjust_time_step(
+                    stopper_state, t=state.t, dt=dt, ivp=state.ivp
+                )
 
             state, dt = self.perform_full_step(state, dt)
 
@@ -101,7 +104,7 @@ class ODESolver(ABC):
         if stop_at_locations is not None:
             loc_iter = iter(stop_at_locations)
             time_stopper = _TimeStopperState(
-                locations=loc_iter, next_location=next(loc_iter)
+                locations=loc_iter, next_location=next(loc_iter, np.inf)
             )
         else:
             time_stopper = None
@@ -179,14 +182,19 @@ class _TimeStopperState:
     next_location: FloatLike
 
 
-def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
+def _has_been_reached(location, *, t, ivp):
+    """Whether a location has been reached, up to (accumulated) rounding errors."""
+    resolution = max(
+        1e-12 * (ivp.tmax - ivp.t0),
+        10.0 * np.spacing(max(abs(ivp.t0), abs(ivp.tmax))),
+    )
+    return location - t <= resolution
+
+
+def _adjust_time_step(stopper_state, t, dt, ivp):
+    next_location = stopper_state.next_location
+    while _has_been_reached(next_location, t=t, ivp=ivp):
+        next_location = next(stopper_state.locations, np.inf)
 
     if t + dt > next_location:
         dt = next_location - t
-- 
2.43.0


From aebb1dc7039d74394e03fecf871a37908e3f1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 57/88] fix: error norm of adaptive steps depended on the sign
 of the state

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..3b89b03 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -146,7 +146,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From 859ffc7ed5f861c4f8860adb8c0ba29789977ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 58/88] fix: adaptive steps looped forever on error estimates
 that are not numbers

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 3b89b03..c019c9c 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -136,6 +136,8 @@ class AdaptiveSteps(StepRule):
         else:
             step = change * laststep
 
+        if np.isnan(step):
+            raise RuntimeError("Step-size is not a number")
         if step < self.minstep:
             raise RuntimeError("Step-size smaller than minimum step-size")
         if step > self.maxstep:
-- 
2.43.0


From 38fd244340aa170590573e3c6b5425bdadb0fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 59/88] fix: proposed first step was zero or not finite for
 vanishing initial values or slopes

---
 src/probnum/diffeq/stepsize/_propose_firststep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/diffeq/stepsize/_propose_firststep.py b/src/probnum/diffeq/stepsize/_propose_firststep.py
index 8b5f8b5..fe68977 100644
--- a/src/probnum/diffeq/stepsize/_propose_firststep.py
+++ b/src/probnum/diffeq/stepsize/_propose_firststep.py
@@ -11,4 +11,6 @@ def propose_firststep(ivp):
     """
     norm_y0 = np.linalg.norm(ivp.y0)
     norm_dy0 = np.linalg.norm(ivp.f(ivp.t0, ivp.y0))
+    if norm_y0 < 1e-5 or norm_dy0 < 1e-5:
+        return 1e-6
     return 0.01 * norm_y0 / norm_dy0
-- 
2.43.0


From 16ad69f0330e4b0b441bb4d470f7f012788d7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 60/88] fix: ODE filters evaluated non-autonomous vector fields
 without a time

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..517932b 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain, t=state.t + dt
         )
 
         t_new = state.t + dt
-- 
2.43.0


From 55430412a517474689ef5485040f84ddf3b797d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:06 +0000
Subject: [PATCH 61/88] fix: dynamic diffusion of ODE filters was stored for
 the preceding interval

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 517932b..34f7dfc 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
-- 
2.43.0


From 98de4eb741b95c93db9f062466eefb895c2bd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 62/88] fix: smoothed ODE solutions ignored the calibration of
 the filtering states

---
 src/probnum/diffeq/odefilter/_odefilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 34f7dfc..e613232 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -390,7 +390,9 @@ class ODEFilter(_odesolver.ODESolver):
 
             squared_diffusion_list = self.diffusion_model(locations[1:])
             rv_list = self.prior_process.transition.smooth_list(
-                rv_list, locations, _diffusion_list=squared_diffusion_list
+                kalman_posterior.states,
+                locations,
+                _diffusion_list=squared_diffusion_list,
             )
             kalman_posterior = filtsmooth.gaussian.SmoothingPosterior(
                 filtering_posterior=kalman_posterior,
-- 
2.43.0


From 0b8ef207292e1014bf4ddff640e2817e04ded715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 63/88] fix: Runge-Kutta steps after a callback used the slope
 of the state before it

---
 .../diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 6f2dd88..62dc152 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -82,6 +82,12 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
+        # The stored slope belongs to the end of the previous step, which is not where
+        # this step starts if a callback replaced the state.
+        if self.solver.y_old is not None and state.t != self.solver.t_old:
+            if not np.array_equal(state.rv.mean, self.solver.y):
+                self.solver.f = self.solver.fun(state.t, state.rv.mean)
+
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
-- 
2.43.0


From e662ef448ca23bcc1891b86674457628d698ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 64/88] fix: dense output of perturbed solvers used the
 perturbations of rejected steps

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..fdeb15d 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._latest_scale = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -117,8 +118,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         """
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
-        scale = noisy_step / dt
-        self.scales.append(scale)
+        self._latest_scale = noisy_step / dt
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -132,6 +132,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
 
     def method_callback(self, state):
         """Call dense output after each step and store the interpolants."""
+        self.scales.append(self._latest_scale)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From cc8d681a357905237c09a9828344367f3fb74bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:51 +0000
Subject: [PATCH 65/88] fix: ODE filters broke down on solutions that the prior
 predicts exactly

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 9808cac..8899a02 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -197,4 +197,6 @@ def _compute_local_quasi_mle(meas_rv):
     std_like = meas_rv.cov_cholesky
     whitened_res = scipy.linalg.solve_triangular(std_like, meas_rv.mean, lower=True)
     ssq = whitened_res @ whitened_res / meas_rv.size
-    return ssq
+
+    # A residual of exactly zero must not lead to a degenerate (noise-free) process.
+    return np.maximum(ssq, np.finfo(np.float64).eps ** 2)
-- 
2.43.0


From 42a77dee57372eb6b14ea84686bfac6829d53fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:13 +0000
Subject: [PATCH 66/88] fix: regression problems of ODEs with measurement noise
 were shifted by the initial value

---
 src/probnum/diffeq/odefilter/utils/_problem_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/utils/_problem_utils.py b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
index a396b56..bdb12d0 100644
--- a/src/probnum/diffeq/odefilter/utils/_problem_utils.py
+++ b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
@@ -118,6 +118,9 @@ def _construct_measurement_models_gaussian_likelihood(
     diff = ode_measurement_variance * np.eye(ode_information_operator.output_dim)
     diff_cholesky = np.sqrt(diff)
     noise = randvars.Normal(mean=shift_vector, cov=diff, cov_cholesky=diff_cholesky)
+    noise_ode = randvars.Normal(
+        mean=np.zeros(shift_vector.shape), cov=diff, cov_cholesky=diff_cholesky
+    )
 
     measmod_initial_condition = randprocs.markov.discrete.LTIGaussian(
         transition_matrix=transition_matrix,
@@ -126,7 +129,7 @@ def _construct_measurement_models_gaussian_likelihood(
     if approx_strategy is not None:
         ode_information_operator = approx_strategy(ode_information_operator)
     measmod_ode = ode_information_operator.as_transition(
-        noise_fun=lambda t: noise,
+        noise_fun=lambda t: noise_ode,
     )
 
     return measmod_initial_condition, measmod_ode
-- 
2.43.0


From 7f035a0fc1bf0393229966a7074fb5b8163e58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:03 +0000
Subject: [PATCH 67/88] fix: perturbed solutions could not be extrapolated

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py
index a92798e..21f1c00 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolution.py
@@ -36,6 +36,12 @@ class PerturbedStepSolution(_odesolution.ODESolution):
         if t == self.locations[-1]:
             return self.states[-1]
 
+        # Beyond the locations, the first or the last interpolant is extrapolated.
+        if previous_index is None:
+            previous_index = 0
+        elif previous_index == -1:
+            previous_index = len(self.interpolants) - 1
+
         interpolant = self.interpolants[previous_index]
         relative_time = (t - self.locations[previous_index]) * self.scales[
             previous_index
-- 
2.43.0


From 7a5b86395020cd4a9dd13884806f1fdbcfea150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:50 +0000
Subject: [PATCH 68/88] fix: initialisation with the Jacobian returned too many
 states for a single derivative

---
 src/probnum/diffeq/odefilter/init_routines/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/init_routines/_stack.py b/src/probnum/diffeq/odefilter/init_routines/_stack.py
index 2bb00dd..5c72991 100644
--- a/src/probnum/diffeq/odefilter/init_routines/_stack.py
+++ b/src/probnum/diffeq/odefilter/init_routines/_stack.py
@@ -65,4 +65,4 @@ class StackWithJacobian(_StackBase):
             [0.0 * ivp.y0, 0.0 * fy, 0.0 * dfy]
             + [self._scale_cholesky * np.ones(d)] * (n - 3)
         )
-        return mean, std
+        return mean[:n], std[:n]
-- 
2.43.0


From 919852569a8fe64f6087b6885b00d6cd984dc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:50 +0000
Subject: [PATCH 69/88] fix: perturbed solvers failed late without a step size
 for constant steps

---
 src/probnum/diffeq/_perturbsolve_ivp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/diffeq/_perturbsolve_ivp.py b/src/probnum/diffeq/_perturbsolve_ivp.py
index fcb3741..47e61d3 100644
--- a/src/probnum/diffeq/_perturbsolve_ivp.py
+++ b/src/probnum/diffeq/_perturbsolve_ivp.py
@@ -249,5 +249,7 @@ def _create_steprule(adaptive, atol, ivp, rtol, step):
         firststep = step if step is not None else stepsize.propose_firststep(ivp)
         steprule = stepsize.AdaptiveSteps(firststep=firststep, atol=atol, rtol=rtol)
     else:
+        if step is None:
+            raise ValueError("Constant steps require a 'step' argument.")
         steprule = stepsize.ConstantSteps(step)
     return steprule
-- 
2.43.0


From ded3e7fdf0bc80f4b9cf8c71a8ccb64dd2abfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 70/88] fix: linear solvers diverged when an action repeated
 earlier ones

---
 .../matrix_based/_matrix_based_linear_belief_update.py       | 5 ++++-
 .../_symmetric_matrix_based_linear_belief_update.py          | 5 ++++-
 .../solution_based/_projected_residual_belief_update.py      | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py b/src/probnum/linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py
index 0dad566..ab41c15 100644
--- a/src/probnum/linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py
+++ b/src/probnum/linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py
@@ -74,7 +74,10 @@ class MatrixBasedLinearBeliefUpdate(LinearSolverBeliefUpdate):
         resid = observ - pred
         covfactor_Ms = matrix.cov.B @ action
         gram = action.T @ covfactor_Ms
-        gram_pinv = 1.0 / gram if gram > 0.0 else 0.0
+        # Pseudo-inverse: directions already observed only leave round-off behind
+        tol = np.sqrt(np.finfo(float).eps)
+        tol *= np.linalg.norm(action) * np.linalg.norm(covfactor_Ms)
+        gram_pinv = 1.0 / gram if gram > tol else 0.0
         gain = covfactor_Ms * gram_pinv
         covfactor_update = linops.aslinop(gain[:, None]) @ linops.aslinop(
             covfactor_Ms[None, :]
diff --git a/src/probnum/linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py b/src/probnum/linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py
index 94d239e..0e9d9cf 100644
--- a/src/probnum/linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py
+++ b/src/probnum/linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py
@@ -76,7 +76,10 @@ class SymmetricMatrixBasedLinearBeliefUpdate(LinearSolverBeliefUpdate):
         resid = observ - pred
         covfactor_Ms = matrix.cov.A @ action
         gram = action.T @ covfactor_Ms
-        gram_pinv = 1.0 / gram if gram > 0.0 else 0.0
+        # Pseudo-inverse: directions already observed only leave round-off behind
+        tol = np.sqrt(np.finfo(float).eps)
+        tol *= np.linalg.norm(action) * np.linalg.norm(covfactor_Ms)
+        gram_pinv = 1.0 / gram if gram > tol else 0.0
         gain = covfactor_Ms * gram_pinv
         covfactor_update = linops.aslinop(gain[:, None]) @ linops.aslinop(
             covfactor_Ms[None, :]
diff --git a/src/probnum/linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py b/src/probnum/linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py
index 1d6a763..3d50ab6 100644
--- a/src/probnum/linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py
+++ b/src/probnum/linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py
@@ -51,7 +51,10 @@ class ProjectedResidualBeliefUpdate(LinearSolverBeliefUpdate):
         action_A = solver_state.action.T @ solver_state.problem.A
         cov_xy = solver_state.belief.x.cov @ action_A.T
         gram = action_A @ cov_xy + self.noise_var
-        gram_pinv = 1.0 / gram if gram > 0.0 else 0.0
+        # Pseudo-inverse: directions already observed only leave round-off behind
+        tol = np.sqrt(np.finfo(float).eps)
+        tol *= np.linalg.norm(action_A) * np.linalg.norm(cov_xy)
+        gram_pinv = 1.0 / gram if gram > tol else 0.0
         gain = cov_xy * gram_pinv
         cov_update = np.outer(gain, cov_xy)
 
-- 
2.43.0


From 59935101fabdb5c5f63df6d6aa97c18b5b3067b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 71/88] fix: row-norm sampling of unit vectors used the norms
 of the columns

---
 src/probnum/linalg/solvers/policies/_random_unit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_random_unit_vector.py b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
index f183c48..b4666e2 100644
--- a/src/probnum/linalg/solvers/policies/_random_unit_vector.py
+++ b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
@@ -45,7 +45,8 @@ class RandomUnitVectorPolicy(_linear_solver_policy.LinearSolverPolicy):
             if self.probabilities == "uniform":
                 solver_state.cache["row_sample_probs"] = np.ones(nrows) / nrows
             elif self.probabilities == "rownorm":
-                sampling_probs = (solver_state.problem.A**2).T @ np.ones(shape=nrows)
+                A = solver_state.problem.A
+                sampling_probs = (A**2) @ np.ones(shape=A.shape[1])
                 solver_state.cache["row_sample_probs"] = (
                     sampling_probs / sampling_probs.sum()
                 )
-- 
2.43.0


From c04d051539ad2a81882a87cbe7ddba828def2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 72/88] fix: problinsolve returned the prior uncertainty after
 a single iteration

---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d51d3bc 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From e94b938ea1dbe35544f1cfdd7d386e6ee41e3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 73/88] fix: problinsolve rejected arrays as prior for the
 inverse

---
 src/probnum/linalg/solvers/matrixbased.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index d51d3bc..49efd31 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -333,6 +333,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
                 Ainv0_covfactor = Ainv0.cov.A
             else:
                 self.is_calib_covclass = True
+                Ainv0 = linops.aslinop(Ainv0)
                 Ainv0_mean = Ainv0
                 Ainv0_covfactor = Ainv0  # Symmetric posterior correspondence
             try:
-- 
2.43.0


From e7512bb9a36f27e8ae0a0fbd554d9a92990eef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 74/88] fix: problinsolve broke down on zero right-hand sides
 with an initial guess

---
 src/probnum/linalg/solvers/matrixbased.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index 49efd31..bded652 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -94,7 +94,8 @@ class MatrixBasedSolver(abc.ABC):
         elif bx0 == 0:
             if np.all(b == np.zeros_like(b)):
                 print("Right-hand-side is zero. Initializing with solution x0 = 0.")
-                x0 = b
+                identity = linops.Identity(shape=self.n)
+                return identity, identity
             else:
                 print("Better initialization found, setting x0 = (b'b/b'Ab) * b.")
                 bAb = np.squeeze(b.T @ (A @ b))
@@ -254,9 +255,9 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         self.Ainv_mean0 = Ainv_mean0
         self.Ainv_covfactor = Ainv_covfactor0
         self.Ainv_covfactor0 = Ainv_covfactor0
-        if isinstance(x0, np.ndarray):
+        if isinstance(x0, np.ndarray) and np.any(self.b != 0):
             self.x_mean = x0
-        elif x0 is None:
+        elif x0 is None or isinstance(x0, np.ndarray):
             self.x_mean = Ainv_mean0 @ self.b
         else:
             raise NotImplementedError
-- 
2.43.0


From 53ece9f33f7eea90156f39bda9e147503b10177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 75/88] fix: problinsolve flattened solutions of right-hand
 sides with a single column

---
 src/probnum/linalg/_problinsolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/probnum/linalg/_problinsolve.py b/src/probnum/linalg/_problinsolve.py
index 134caae..a2845a2 100644
--- a/src/probnum/linalg/_problinsolve.py
+++ b/src/probnum/linalg/_problinsolve.py
@@ -180,6 +180,7 @@ def problinsolve(
         )
 
     # Transform the linear system to an appropriate form
+    shape = b.shape
     A, b, x0 = _preprocess_linear_system(A=A, b=b, x0=x0)
 
     # Parameter initialization
@@ -226,6 +227,9 @@ def problinsolve(
             maxiter=maxiter, atol=atol, rtol=rtol, callback=callback, **kwargs
         )
 
+    # Shape of the solution matches the right hand side
+    x = x.reshape(shape)
+
     # Check result and issue warnings (e.g. singular or ill-conditioned matrix)
     _postprocess(info=info, A=A)
 
-- 
2.43.0


From ebb6678c5eeeeaf8060b19683eeab5ca5e46ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 76/88] fix: problinsolve missed its tolerances for several
 right-hand sides

---
 src/probnum/linalg/_problinsolve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/_problinsolve.py b/src/probnum/linalg/_problinsolve.py
index a2845a2..75135fe 100644
--- a/src/probnum/linalg/_problinsolve.py
+++ b/src/probnum/linalg/_problinsolve.py
@@ -196,6 +196,7 @@ def problinsolve(
     if nrhs > 1:
         # Iteratively solve for multiple right hand sides (with posteriors as new
         # priors)
+        x_means = []
         for i in range(nrhs):
             if i > 0:
                 x = None  # Only use prior information on Ainv for multiple rhs
@@ -213,9 +214,15 @@ def problinsolve(
             x, A0, Ainv0, info = linear_solver.solve(
                 maxiter=maxiter, atol=atol, rtol=rtol, callback=callback, **kwargs
             )
+            x_means.append(x.mean)
 
-        # Return Ainv @ b for multiple rhs
+        # Return Ainv @ b for multiple rhs, unless a solve came closer to the solution
         x = Ainv0 @ b
+        x_means = np.column_stack(x_means)
+        is_closer = np.linalg.norm(A @ x_means - b, axis=0) < np.linalg.norm(
+            A @ x.mean - b, axis=0
+        )
+        x = randvars.Normal(mean=np.where(is_closer, x_means, x.mean), cov=x.cov)
     else:
         # Single right hand side
         linear_solver = _init_solver(
-- 
2.43.0


From 735f6f5123e078304998f47a01159037e04e2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 77/88] fix: Bayesian quadrature with acquisition policies
 received classes instead of instances

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..7b737db 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -230,14 +230,14 @@ class BayesianQuadrature:
             assert policy[-5:] == "_rand"
             policy = RandomMaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy[:-5]],
+                acquisition_func=acquisition_dict[policy[:-5]](),
                 n_candidates=n_candidates,
             )
         # all max acquisition policies with optimizer
         elif policy in ["us", "mi", "ivr"]:
             policy = MaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy],
+                acquisition_func=acquisition_dict[policy](),
                 n_restarts=n_restarts,
             )
         else:
-- 
2.43.0


From 33f2a9cad01f7704cdcab4e6fdfdddf8a6d87786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:50 +0000
Subject: [PATCH 78/88] fix: orthogonalising integer vectors failed

---
 src/probnum/utils/linalg/_orthogonalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/utils/linalg/_orthogonalize.py b/src/probnum/utils/linalg/_orthogonalize.py
index 745cf1c..1c9ea6b 100644
--- a/src/probnum/utils/linalg/_orthogonalize.py
+++ b/src/probnum/utils/linalg/_orthogonalize.py
@@ -57,7 +57,7 @@ def gram_schmidt(
         inprod_fn = inner_product
         norm_fn = lambda v: np.sqrt(inprod_fn(v, v))
 
-    v_orth = v.copy()
+    v_orth = v.astype(np.result_type(v.dtype, 0.5))
 
     for u in orthogonal_basis:
         v_orth -= (inprod_fn(u, v)[..., None] / inprod_fn(u, u)) * u
@@ -116,7 +116,7 @@ def modified_gram_schmidt(
         inprod_fn = inner_product
         norm_fn = lambda v: np.sqrt(inprod_fn(v, v))
 
-    v_orth = v.copy()
+    v_orth = v.astype(np.result_type(v.dtype, 0.5))
 
     for u in orthogonal_basis:
         v_orth -= (inprod_fn(u, v_orth)[..., None] / inprod_fn(u, u)) * u
-- 
2.43.0


From 8bb9497e3a2e78ea8edcf78039d8987adadf3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:50 +0000
Subject: [PATCH 79/88] fix: configuration context changed options although it
 was refused

---
 src/probnum/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..1618074 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -75,10 +75,11 @@ class Configuration:
         """Context manager used to set values of registered config options."""
         old_options = {}
 
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
+        for key, value in kwargs.items():
             old_options[key] = self._options_registry[key].value
 
             self._options_registry[key].value = value
-- 
2.43.0


From 1bc80fccb4bd33018190ab575e88ffd97e5cf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:38 +0000
Subject: [PATCH 80/88] fix: sum_polynomials reported the wrong integral for
 var != 1 and constant factors

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index bf85339..cc1c4ba 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -217,8 +217,8 @@ def sum_polynomials(
 
     # Return function values as a 2d array with one column.
     delta = (np.remainder(b, 2) - 1) ** 2
-    doublefact = special.factorial2(b - 1)
-    solution = np.sum(np.prod(a * delta * (var**b) * doublefact, axis=1))
+    doublefact = np.where(b > 1, special.factorial2(np.maximum(b - 1, 1)), 1.0)
+    solution = np.sum(np.prod(a * delta * (var ** (b / 2)) * doublefact, axis=1))
     if isinstance(var, float):
         mean = 0.0
     else:
-- 
2.43.0


From 7fb8432b721f46dcee17fe4262f05bf26ece3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:38 +0000
Subject: [PATCH 81/88] fix: uniform_to_gaussian_quadprob refused a float mean
 with an array std and vice versa

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index cc1c4ba..301ccaf 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -117,8 +117,10 @@ def uniform_to_gaussian_quadprob(
     dim = lower_bd.shape[0]
 
     cov = std**2
-    if isinstance(std, np.ndarray):
+    if isinstance(std, np.ndarray) or isinstance(mean, np.ndarray):
         cov = np.eye(dim) * cov
+        if not isinstance(mean, np.ndarray):
+            mean = np.full(dim, mean)
     gaussian_measure = GaussianMeasure(mean=mean, cov=cov, input_dim=dim)
     return QuadratureProblem(
         fun=uniform_to_gaussian_integrand(fun=quadprob.fun, mean=mean, std=std),
-- 
2.43.0


From 122e9ef4c2d02bcfba51cab33f8fe4ce1f1b36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:38 +0000
Subject: [PATCH 82/88] fix: solution of the logistic IVP assumed that the
 initial time is zero

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 922ee7b..684d917 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -213,7 +213,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     .. math::
 
-        f(t) = \frac{b y_0 \exp(a t)}{b + y_0 \left[ \exp(at) - 1 \right]}
+        f(t) = \frac{b y_0 \exp(a (t - t_0))}
+            {b + y_0 \left[ \exp(a (t - t_0)) - 1 \right]}
 
     where :math:`y_0= y(t_0)` is the initial value.
 
@@ -251,8 +252,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     def sol(t):
         l0, l1 = params
-        nomin = l1 * y0 * np.exp(l0 * t)
-        denom = l1 + y0 * (np.exp(l0 * t) - 1)
+        nomin = l1 * y0 * np.exp(l0 * (t - t0))
+        denom = l1 + y0 * (np.exp(l0 * (t - t0)) - 1)
         return nomin / denom
 
     return InitialValueProblem(
-- 
2.43.0


From 3ff0937e34b1a32f3163166ade0ef1b02b65f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:38 +0000
Subject: [PATCH 83/88] fix: logistic_ode filtering problem ignored y0 and
 order in the initial random variable

---
 src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 3d0dbdf..38803f3 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -594,8 +594,8 @@ def logistic_ode(
 
     # Generate prior process
     if initrv is None:
-        initmean = np.array([0.1, 0, 0.0, 0.0])
-        initcov = np.diag([0.0, 1.0, 1.0, 1.0])
+        initmean = np.append(y0, np.zeros(order))
+        initcov = np.diag(np.append(0.0, np.ones(order)))
         initrv = randvars.Normal(initmean, initcov)
     dynamics_model = randprocs.markov.integrator.IntegratedWienerTransition(
         num_derivatives=order,
-- 
2.43.0


From d6ae73df3013904e0c67f1777f2f81d3a1628541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:39 +0000
Subject: [PATCH 84/88] fix: car_tracking observed position and velocity of one
 coordinate, not both positions

---
 .../problems/zoo/filtsmooth/_filtsmooth_problems.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 38803f3..3e69d5b 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -32,16 +32,16 @@ def car_tracking(
 
     A discrete, linear, time-invariant Gaussian state space model for car-tracking,
     based on Example 3.6 in Särkkä, 2013. [1]_
-    Let :math:`X = (\dot{x}_1, \dot{x}_2, \ddot{x}_1, \ddot{x}_2)`. Then the state
+    Let :math:`X = (x_1, \dot{x}_1, x_2, \dot{x}_2)`. Then the state
     space model has the following discretized formulation
 
     .. math::
 
         X(t_{n}) &=
         \begin{pmatrix}
-          1 & 0 & \Delta t& 0 \\
-          0 & 1 & 0 & \Delta t \\
-          0 & 0 & 1 & 0 \\
+          1 & \Delta t & 0 & 0 \\
+          0 & 1 & 0 & 0 \\
+          0 & 0 & 1 & \Delta t \\
           0 & 0 & 0 & 1
         \end{pmatrix} X(t_{n-1})
         +
@@ -49,7 +49,7 @@ def car_tracking(
         y_{n} &=
         \begin{pmatrix}
           1 & 0 & 0 & 0 \\
-          0 & 1 & 0 & 0 \\
+          0 & 0 & 1 & 0 \\
         \end{pmatrix} X(t_{n})
         + r_n
 
@@ -106,7 +106,7 @@ def car_tracking(
 
     discrete_dynamics_model = dynamics_model.discretise(dt=step)
 
-    measurement_matrix = np.eye(measurement_dim, model_dim)
+    measurement_matrix = dynamics_model.proj2coord(coord=0)
     measurement_cov = measurement_variance * np.eye(measurement_dim)
     measurement_model = randprocs.markov.discrete.LTIGaussian(
         transition_matrix=measurement_matrix,
-- 
2.43.0


From c1267a2ef7c0707fb6d84c4ffab7e968e68a7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:39 +0000
Subject: [PATCH 85/88] fix: car_tracking and ornstein_uhlenbeck ignored the
 diffusion of the dynamics

---
 .../zoo/filtsmooth/_filtsmooth_problems.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 3e69d5b..a51704d 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -104,7 +104,17 @@ def car_tracking(
         backward_implementation=backward_implementation,
     )
 
-    discrete_dynamics_model = dynamics_model.discretise(dt=step)
+    unit_dynamics_model = dynamics_model.discretise(dt=step)
+    discrete_dynamics_model = randprocs.markov.discrete.LTIGaussian(
+        transition_matrix=unit_dynamics_model.transition_matrix,
+        noise=randvars.Normal(
+            mean=unit_dynamics_model.noise.mean,
+            cov=process_diffusion**2 * unit_dynamics_model.noise.cov,
+            cov_cholesky=process_diffusion * unit_dynamics_model.noise.cov_cholesky,
+        ),
+        forward_implementation=forward_implementation,
+        backward_implementation=backward_implementation,
+    )
 
     measurement_matrix = dynamics_model.proj2coord(coord=0)
     measurement_cov = measurement_variance * np.eye(measurement_dim)
@@ -208,10 +218,10 @@ def ornstein_uhlenbeck(
         Cambridge University Press, 2019
     """
 
-    dynamics_model = randprocs.markov.integrator.IntegratedOrnsteinUhlenbeckTransition(
-        num_derivatives=0,
-        wiener_process_dimension=1,
-        driftspeed=driftspeed,
+    dynamics_model = randprocs.markov.continuous.LTISDE(
+        drift_matrix=-driftspeed * np.eye(1),
+        force_vector=np.zeros(1),
+        dispersion_matrix=process_diffusion * np.eye(1),
         forward_implementation=forward_implementation,
         backward_implementation=backward_implementation,
     )
-- 
2.43.0


From 11582afc147944404899023adfffdcd444eaa2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:16 +0000
Subject: [PATCH 86/88] fix: samples of products of random variables with
 different shapes broadcast over the sample axes

---
 src/probnum/randvars/_arithmetic.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 12ecdae..a211240 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -125,11 +125,27 @@ def _default_rv_binary_op_factory(op_fn) -> _RandomVariableBinaryOperator:
 
 
 def _make_rv_binary_op_result_shape_dtype_sample_fn(op_fn, rv1, rv2):
-    sample_fn = lambda rng, size: op_fn(
-        rv1.sample(rng, size=size),
-        rv2.sample(rng, size=size),
+    # Samples have leading sample axes, which must not take part in broadcasting
+    is_vectorized = rv1.ndim == rv2.ndim and (
+        op_fn is not operator.matmul or rv1.ndim >= 2
     )
 
+    def sample_fn(rng, size):
+        samples1 = rv1.sample(rng, size=size)
+        samples2 = rv2.sample(rng, size=size)
+
+        if is_vectorized or size == ():
+            return op_fn(samples1, samples2)
+
+        results = [
+            op_fn(sample1, sample2)
+            for sample1, sample2 in zip(
+                np.reshape(samples1, (-1,) + rv1.shape),
+                np.reshape(samples2, (-1,) + rv2.shape),
+            )
+        ]
+        return np.reshape(np.array(results, dtype=dtype), size + shape)
+
     # Infer shape and dtype
     infer_sample = sample_fn(np.random.default_rng(1), ())
 
-- 
2.43.0


From 0bb744e97253462f467366bbd799f6216e825205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:21 +0000
Subject: [PATCH 87/88] fix: covariance of a random variable reshaped between a
 scalar and a vector has the wrong shape

---
 src/probnum/randvars/_random_variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 131db19..e094af9 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -557,7 +557,9 @@ class RandomVariable(Generic[ValueType]):
             mode=lambda: self.mode.reshape(newshape),
             median=lambda: self.median.reshape(newshape),
             mean=lambda: self.mean.reshape(newshape),
-            cov=lambda: self.cov,
+            cov=lambda: self.cov
+            if (self.ndim == 0) == (len(newshape) == 0)
+            else np.reshape(self.cov, 2 * (self.size,) if newshape else ()),
             var=lambda: self.var.reshape(newshape),
             std=lambda: self.std.reshape(newshape),
             entropy=lambda: self.entropy,
-- 
2.43.0


From 76b5d6b202b1c61d0473cfeaa176d8496b2ab788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:14 +0000
Subject: [PATCH 88/88] fix: ODE solver callbacks given as an iterator only
 acted on the first step

---
 src/probnum/diffeq/_odesolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 64813c3..c4db23e 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -97,7 +97,7 @@ class ODESolver(ABC):
         """Process callbacks and time-stamps into a format suitable for solve()."""
 
         def promote_callback_type(cbs):
-            return cbs if isinstance(cbs, abc.Iterable) else [cbs]
+            return list(cbs) if isinstance(cbs, abc.Iterable) else [cbs]
 
         if callbacks is not None:
             callbacks = promote_callback_type(callbacks)
-- 
2.43.0


"""Random linear-operator expressions paired with the dense matrix they denote.

The dense matrix is built independently with numpy, from the documented meaning of
each operator, never by asking the operator.
"""
import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from probnum import linops

from pnmon.core import Skip


class Expr:
    """An operator under test, its dense meaning, and what it is made of."""

    def __init__(self, op, D, kind, parts=(), dt=None, approx_sym=False):
        self.op, self.D, self.kind, self.parts = op, np.asarray(D), kind, parts
        # precision the dense meaning is known to
        self.eps = max([_eps(self.D.dtype)] + [p.eps for p in parts])
        if dt is not None:
            self.eps = max(self.eps, _eps(np.dtype(dt)))
        self.approx_sym = approx_sym or any(p.approx_sym for p in parts)

    def label(self, depth=0):
        if not self.parts or depth > 3:
            return self.kind
        return self.kind + "(" + ",".join(p.label(depth + 1) for p in self.parts) + ")"


def _eps(dt):
    dt = np.dtype(dt)
    if dt == np.float32:
        return 1.2e-7
    if dt == np.float16:
        return 1e-3
    return 2.3e-16


def rand_matrix(rng, m, n, dtype=np.float64, well=True):
    """A dense matrix; square ones are well conditioned if ``well``."""
    if np.issubdtype(dtype, np.integer):
        A = rng.integers(-3, 4, size=(m, n))
        if well and m == n:
            A = A + (1 if rng.random() < 0.5 else -1) * (3 * n + 2) * np.eye(n, dtype=A.dtype)
        return A.astype(dtype)
    A = rng.standard_normal((m, n))
    if well and m == n:
        style = rng.integers(4)
        if style == 0:
            q, _ = np.linalg.qr(A)
            A = q * rng.uniform(0.5, 2.0, size=n)
        elif style == 1:
            A = A + np.sign(rng.standard_normal()) * (1.5 * n) * np.eye(n)
        elif style == 2:
            A = A @ A.T + 0.5 * n * np.eye(n)
        else:
            A = A + np.diag(np.sign(rng.standard_normal(n)) * 1.5 * n)
    return A.astype(dtype)


def spd(rng, n, dtype=np.float64):
    A = rng.standard_normal((n, n))
    return (A @ A.T / n + np.diag(rng.uniform(0.5, 2.0, n))).astype(dtype)


SPARSE = ("csr", "csc", "coo", "dia", "lil", "bsr", "dok")


def leaf_matrix(rng, m, n, dtype):
    A = rand_matrix(rng, m, n, dtype)
    k = rng.integers(8)
    if k == 0 and m == n:
        A = np.tril(A) if rng.random() < 0.5 else np.triu(A)
        lower = bool(np.allclose(A, np.tril(A)))
        op = linops.Matrix(A.copy())
        if lower:
            op.is_lower_triangular = True
        else:
            op.is_upper_triangular = True
        return Expr(op, A, "TriMatrix")
    if k == 1 and m == n:
        A = (A + A.T) if np.issubdtype(dtype, np.integer) else 0.5 * (A + A.T)
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        return Expr(op, A, "SymMatrix")
    if k == 2 and m == n:
        A = spd(rng, n) if not np.issubdtype(dtype, np.integer) else (A @ A.T + np.eye(n, dtype=dtype))
        A = A.astype(dtype)
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        if rng.random() < 0.5:
            op.is_positive_definite = True
        return Expr(op, A, "SpdMatrix")
    if k in (3, 4):
        mask = rng.random((m, n)) < 0.6
        if m == n:
            mask |= np.eye(n, dtype=bool)
        A = np.where(mask, A, 0).astype(dtype)
        fmt = str(rng.choice(SPARSE))
        op = linops.Matrix(scipy.sparse.csr_matrix(A).asformat(fmt))
        return Expr(op, A, "Sparse[" + fmt + "]")
    if k == 5:
        order = "F" if rng.random() < 0.5 else "C"
        big = np.array(rand_matrix(rng, 2 * m, n, dtype), order=order)
        view = big[::2]
        if m == n:
            view[...] = A
        A = view.copy()
        return Expr(linops.aslinop(view), A, "Matrix[strided]")
    return Expr(linops.Matrix(A.copy()), A, "Matrix")


def leaf_lambda(rng, m, n, dtype):
    A = rand_matrix(rng, m, n, dtype)
    k = rng.integers(4)
    if k == 0:
        op = linops.LambdaLinearOperator((m, n), A.dtype, matmul=lambda x: A @ x)
    elif k == 1:
        op = linops.LambdaLinearOperator(
            (m, n), A.dtype, matmul=linops.LinearOperator.broadcast_matvec(lambda v: A @ v)
        )
    elif k == 2:
        op = linops.LambdaLinearOperator(
            (m, n),
            A.dtype,
            matmul=linops.LinearOperator.broadcast_matmat(lambda M: A @ M),
            todense=lambda: A.copy(),
        )
    else:
        op = linops.aslinop(scipy.sparse.linalg.aslinearoperator(A.copy()))
    if m == n and rng.random() < 0.3 and k != 3:
        S = 0.5 * (A + A.T) if np.issubdtype(A.dtype, np.floating) else A + A.T
        S = S.astype(A.dtype)
        op = linops.LambdaLinearOperator((m, n), S.dtype, matmul=lambda x: S @ x)
        op.is_symmetric = True
        return Expr(op, S, "SymLambda")
    return Expr(op, A, "Lambda")


def leaf_scaling(rng, n, dtype, singular=False):
    integer = np.issubdtype(dtype, np.integer)
    k = rng.integers(4)
    if k == 0:
        s = dtype(rng.integers(1, 4)) if integer else dtype(rng.uniform(0.3, 2.5))
        if rng.random() < 0.35:
            s = dtype(-s)
        if rng.random() < 0.2:
            s = dtype(1)
        if singular and rng.random() < 0.3:
            s = dtype(0)
        shp = n if rng.random() < 0.5 else (n, n)
        return Expr(linops.Scaling(s, shape=shp), np.eye(n, dtype=dtype) * s, "Scaling[iso]")
    f = rng.integers(1, 5, n) if integer else rng.uniform(0.3, 2.5, n)
    if k == 1:
        f = f * rng.choice([-1, 1], n)
    if k == 2 and n > 1 and rng.random() < 0.5:
        f = np.full(n, f[0])
    if singular and rng.random() < 0.3:
        f[rng.integers(n)] = 0
    f = f.astype(dtype)
    return Expr(linops.Scaling(f.copy()), np.diag(f), "Scaling[aniso]")


def leaf_selection(rng, m, n, dtype):
    """m <= n; selects m of n coordinates, in any order, possibly repeated."""
    if rng.random() < 0.25:
        idx = rng.integers(0, n, size=m)
    else:
        idx = rng.permutation(n)[:m]
    D = np.zeros((m, n), dtype=dtype)
    D[np.arange(m), idx] = 1
    op = linops.Selection(idx if rng.random() < 0.5 else [int(i) for i in idx], (m, n), dtype=dtype)
    return Expr(op, D, "Selection")


def leaf_embedding(rng, m, n, dtype):
    """m >= n; writes the n coordinates to distinct rows."""
    put = rng.permutation(m)[:n]
    take = rng.permutation(n) if rng.random() < 0.5 else np.arange(n)
    D = np.zeros((m, n), dtype=dtype)
    D[put, take] = 1
    op = linops.Embedding(take_indices=take, put_indices=put, shape=(m, n), dtype=dtype)
    return Expr(op, D, "Embedding")


def factor_pairs(n):
    return [(a, n // a) for a in range(1, n + 1) if n % a == 0]


def splits(rng, n, k):
    """n into k positive parts."""
    if n < k:
        return None
    cuts = np.sort(rng.choice(np.arange(1, n), size=k - 1, replace=False)) if k > 1 else []
    return [int(v) for v in np.diff(np.concatenate(([0], cuts, [n])))]


def make(rng, m, n, depth=2, dtype=np.float64, singular=False, mix=False):
    """A random expression of shape (m, n)."""
    if mix:
        dtype = [np.float64, np.float64, np.float32, np.int64, np.int32][rng.integers(5)]
    sub = lambda a, b, d=depth - 1: make(rng, a, b, d, dtype, singular, mix)
    inexact = not np.issubdtype(dtype, np.integer)
    square = m == n
    opts = []
    if depth <= 0 or rng.random() < 0.25:
        opts += ["matrix", "matrix", "lambda"]
        if square:
            opts += ["scaling", "scaling", "identity"]
            if round(np.sqrt(n)) ** 2 == n and inexact:
                opts += ["symmetrize_op"] if singular else []
        if singular:
            opts += ["zero"]
        if m <= n:
            opts += ["selection"] if (m < n or singular) else ["permutation"]
        if m >= n:
            opts += ["embedding"]
    else:
        opts += ["kron", "blockdiag", "sum", "prod", "scaled", "neg", "T", "rscaled", "prod", "sum", "sub"]
        opts += ["astype"]
        if square:
            opts += ["idkron"]
            if round(np.sqrt(n)) ** 2 == n:
                opts += ["symkron", "symkron2"]
            if inexact and not singular and not mix:
                opts += ["inv", "symmetrize"]
            opts += ["kronsum", "idkronsum", "scalingsum", "addscalar"]
    k = str(rng.choice(opts))
    if k == "matrix":
        return leaf_matrix(rng, m, n, dtype)
    if k == "lambda":
        return leaf_lambda(rng, m, n, dtype)
    if k == "scaling":
        return leaf_scaling(rng, n, dtype, singular)
    if k == "identity":
        return Expr(linops.Identity(n, dtype=dtype), np.eye(n, dtype=dtype), "Identity")
    if k == "zero":
        return Expr(linops.Zero((m, n), dtype=dtype), np.zeros((m, n), dtype=dtype), "Zero")
    if k == "symmetrize_op":
        r = int(round(np.sqrt(n)))
        P = np.zeros((n, n))
        for i in range(r):
            for j in range(r):
                P[i * r + j, j * r + i] = 1
        return Expr(linops.Symmetrize(r, dtype=dtype), (0.5 * (np.eye(n) + P)).astype(dtype), "Symmetrize")
    if k in ("selection", "permutation"):
        if k == "permutation":
            idx = rng.permutation(n)
            D = np.eye(n, dtype=dtype)[idx]
            return Expr(linops.Selection(idx, (n, n), dtype=dtype), D, "Selection[perm]")
        return leaf_selection(rng, m, n, dtype)
    if k == "embedding":
        return leaf_embedding(rng, m, n, dtype)
    if k == "kron":
        (a1, b1), (a2, b2) = (factor_pairs(m), factor_pairs(n))[0:2] and (
            factor_pairs(m)[rng.integers(len(factor_pairs(m)))],
            factor_pairs(n)[rng.integers(len(factor_pairs(n)))],
        )
        if square:
            a2, b2 = a1, b1
        A, B = sub(a1, a2), sub(b1, b2)
        a_in = A.op if rng.random() < 0.7 else A.D.copy()
        return Expr(linops.Kronecker(a_in, B.op), np.kron(A.D, B.D), "Kron", (A, B), approx_sym=True)
    if k == "idkron":
        a, b = factor_pairs(n)[rng.integers(len(factor_pairs(n)))]
        B = sub(b, b)
        return Expr(
            linops.IdentityKronecker(a, B.op), np.kron(np.eye(a), B.D), "IdKron", (B,), approx_sym=True
        )
    if k in ("symkron", "symkron2"):
        r = int(round(np.sqrt(n)))
        A = sub(r, r)
        if k == "symkron":
            return Expr(linops.SymmetricKronecker(A.op), np.kron(A.D, A.D), "SymKron1", (A,), approx_sym=True)
        B = sub(r, r)
        D = 0.5 * (np.kron(A.D, B.D) + np.kron(B.D, A.D))
        if not singular and not _well(D):
            raise Skip
        return Expr(linops.SymmetricKronecker(A.op, B.op), D, "SymKron2", (A, B), approx_sym=True)
    if k == "blockdiag":
        nb = int(rng.integers(1, 4))
        ms, ns = splits(rng, m, nb), splits(rng, n, nb)
        if ms is None or ns is None:
            return leaf_matrix(rng, m, n, dtype)
        if square and not (singular and rng.random() < 0.3):
            ns = ms
        blocks = [sub(a, b) for a, b in zip(ms, ns)]
        D = np.zeros((m, n), dtype=np.result_type(*[b.D.dtype for b in blocks]))
        i = j = 0
        for b in blocks:
            D[i : i + b.D.shape[0], j : j + b.D.shape[1]] = b.D
            i += b.D.shape[0]
            j += b.D.shape[1]
        return Expr(linops.BlockDiagonalMatrix(*[b.op for b in blocks]), D, "BlockDiag", blocks)
    if k in ("sum", "sub"):
        A, B = sub(m, n), sub(m, n)
        D = A.D + B.D if k == "sum" else A.D - B.D
        if square and not singular and not _well(D):
            raise Skip
        b = B.op if rng.random() < 0.8 else B.D.copy()
        first = rng.random() < 0.85 or not isinstance(b, np.ndarray)
        if not first:
            op = (b + A.op) if k == "sum" else -(b - A.op)
        else:
            op = A.op + b if k == "sum" else A.op - b
        return Expr(op, D, k, (A, B))
    if k == "kronsum":
        a, b = factor_pairs(n)[rng.integers(len(factor_pairs(n)))]
        A, B, C = sub(a, a), sub(b, b), None
        sign = 1 if rng.random() < 0.6 else -1
        if rng.random() < 0.5:
            C = sub(b, b)
            op2, D2 = linops.Kronecker(A.op, C.op), np.kron(A.D, C.D)
        else:
            C = sub(a, a)
            op2, D2 = linops.Kronecker(C.op, B.op), np.kron(C.D, B.D)
        op1, D1 = linops.Kronecker(A.op, B.op), np.kron(A.D, B.D)
        D = D1 + sign * D2
        if not singular and not _well(D):
            raise Skip
        return Expr(op1 + op2 if sign > 0 else op1 - op2, D, "kron+-kron", (A, B, C), approx_sym=True)
    if k == "idkronsum":
        a, b = factor_pairs(n)[rng.integers(len(factor_pairs(n)))]
        a2, b2 = (a, b) if rng.random() < 0.7 else factor_pairs(n)[rng.integers(len(factor_pairs(n)))]
        B, C = sub(b, b), sub(b2, b2)
        o1, o2 = linops.IdentityKronecker(a, B.op), linops.IdentityKronecker(a2, C.op)
        D1, D2 = np.kron(np.eye(a), B.D), np.kron(np.eye(a2), C.D)
        which = rng.integers(3)
        if which == 0:
            op, D = o1 + o2, D1 + D2
        elif which == 1:
            op, D = o1 - o2, D1 - D2
        else:
            op, D = o1 @ o2, D1 @ D2
        if not singular and not _well(D):
            raise Skip
        return Expr(op, D, "idkron*idkron", (B, C), approx_sym=True)
    if k == "scalingsum":
        A, B = leaf_scaling(rng, n, dtype, singular), leaf_scaling(rng, n, dtype, singular)
        if mix:
            dt2 = [np.float64, np.float32, np.int64][rng.integers(3)]
            B = leaf_scaling(rng, n, dt2, singular)
        w = rng.integers(3)
        D = A.D + B.D if w == 0 else (A.D - B.D if w == 1 else A.D @ B.D)
        op = A.op + B.op if w == 0 else (A.op - B.op if w == 1 else A.op @ B.op)
        if not singular and not _well(D):
            raise Skip
        return Expr(op, D, "scaling-op-scaling", (A, B))
    if k == "addscalar":
        # documented: a scalar operand stands for a multiple of the identity
        A = sub(n, n)
        s = scalar(rng, mix or not inexact)
        w = rng.integers(4)
        E = np.eye(n) * s
        op = [lambda: A.op + s, lambda: s + A.op, lambda: A.op - s, lambda: s - A.op][w]()
        D = [A.D + E, E + A.D, A.D - E, E - A.D][w]
        if not singular and not _well(D):
            raise Skip
        return Expr(op, D, "op+-scalar", (A,), dt=np.float32 if isinstance(s, np.float32) else None)
    if k == "prod":
        r = m if square and not singular else int(rng.integers(1, max(m, n) + 2))
        A, B = sub(m, r), sub(r, n)
        op = A.op @ B.op
        return Expr(op, A.D @ B.D, "prod", (A, B))
    if k in ("scaled", "rscaled"):
        A = sub(m, n)
        s = scalar(rng, mix or not inexact)
        op = s * A.op if k == "scaled" else A.op * s
        return Expr(op, A.D * s, k, (A,), dt=np.float32 if isinstance(s, np.float32) else None)
    if k == "neg":
        A = sub(m, n)
        return Expr(-A.op, -A.D, "neg", (A,))
    if k == "T":
        A = sub(n, m)
        op = A.op.T if rng.random() < 0.7 else A.op.transpose()
        return Expr(op, A.D.T, "T", (A,))
    if k == "inv":
        A = sub(n, n)
        if not _well(A.D, 1e4):
            raise Skip
        return Expr(A.op.inv(), np.linalg.inv(A.D), "inv", (A,))
    if k == "symmetrize":
        A = sub(n, n)
        D = 0.5 * (A.D + A.D.T)
        if A.approx_sym or not _well(D):
            raise Skip
        return Expr(A.op.symmetrize(), D, "symmetrize", (A,))
    if k == "astype":
        A = sub(m, n)
        dt = [np.float64, np.float64, np.float32][rng.integers(3)] if inexact or mix else np.float64
        return Expr(A.op.astype(dt), A.D.astype(dt).astype(np.float64), "astype", (A,), dt=dt)
    raise AssertionError(k)


def scalar(rng, allow_types=False):
    v = float(np.round(rng.uniform(0.4, 2.2), 3)) * (1 if rng.random() < 0.6 else -1)
    k = rng.integers(6)
    if k == 0:
        return int(rng.integers(1, 4))
    if k == 1:
        return np.float64(v)
    if k == 2:
        return np.array(v)
    if k == 3:
        return np.int64(rng.integers(1, 4))
    if k == 4 and allow_types:
        return np.float32(v)
    return v


def _well(D, limit=1e6):
    if D.shape[0] != D.shape[1]:
        return True
    return np.linalg.cond(D.astype(float)) < limit


SIZES = [1, 2, 3, 4, 4, 5, 6, 6, 8, 9, 9, 12]


def random_expr(rng, square=None, depth=None, singular=False, mix=False, dtype=np.float64):
    if depth is None:
        depth = int(rng.integers(0, 4))
    n = int(rng.choice(SIZES))
    m = n
    if square is False or (square is None and rng.random() < 0.45):
        m = int(rng.choice(SIZES))
    return make(rng, m, n, depth, dtype, singular, mix)

"""L01: a linear-operator expression behaves like the matrix it denotes."""
import numpy as np
import scipy.sparse

import probnum
from probnum import linops

from pnmon import gen_linops as G
from pnmon.core import Skip, scenario

P = "L01"


def tol_of(e, amp=1.0):
    return max(1e-9, 2e4 * e.eps) * amp


def operand(rng, n, batch=True):
    """Vectors, matrices and stacks of matrices, several memory layouts."""
    k = rng.integers(6 if batch else 2)
    if k == 0:
        x = rng.standard_normal(n)
    elif k == 1:
        x = rng.standard_normal((n, int(rng.integers(1, 4))))
    elif k == 2:
        x = rng.standard_normal((int(rng.integers(1, 4)), n, int(rng.integers(1, 4))))
    elif k == 3:
        x = rng.standard_normal((2, int(rng.integers(1, 3)), n, int(rng.integers(1, 4))))
    elif k == 4:
        x = np.asfortranarray(rng.standard_normal((n, 3)))
    else:
        x = rng.standard_normal((2 * n, 4))[::2, ::2]
    if rng.random() < 0.15:
        x = rng.integers(-3, 4, size=x.shape)
    return x


def observe_action(mon, rng, e, T):
    """Compare every way of applying the operator with the dense matrix."""
    op, D = e.op, e.D
    m, n = D.shape
    mon.check("shape", op.shape == D.shape, f"{op.shape} vs {D.shape}")
    mon.check("ndim-size", op.ndim == 2 and op.size == m * n)
    actions = ["matmul", "rmatmul", "call", "todense", "todense_nc", "T", "matmul", "call_axis"]
    if m == n and G._well(D, 1e5):
        actions += ["solve", "inv", "invT"]
    rng.shuffle(actions)
    amp = 1.0
    if m == n:
        c = np.linalg.cond(D)
        amp = min(max(c, 1.0), 1e6) if np.isfinite(c) else 1.0
    observe_dtype(mon, rng, op)
    for a in actions:
        mon.event("apply:" + a)
        if a == "matmul":
            x = operand(rng, n)
            mon.close("matmul", op @ x, D @ x, T, a)
        elif a == "rmatmul":
            x = operand(rng, m)
            x = x if x.ndim == 1 else np.swapaxes(x, -1, -2)
            mon.close("rmatmul", x @ op, x @ D, T, a)
        elif a == "call":
            x = rng.standard_normal(tuple(rng.integers(1, 4, rng.integers(0, 3))) + (n,))
            mon.close("call", op(x), x @ D.T, T, a)
        elif a == "call_axis":
            nd = int(rng.integers(1, 5))
            ax = int(rng.integers(-nd, nd))
            shp = [int(v) for v in rng.integers(1, 4, nd)]
            shp[ax] = n
            x = rng.standard_normal(shp)
            want = np.moveaxis(np.tensordot(D, x, axes=(1, ax % nd)), 0, ax % nd)
            mon.close("call-axis", op(x, axis=ax), want, T, a)
        elif a == "todense":
            mon.close("todense", op.todense(), D, T, a)
        elif a == "todense_nc":
            mon.close("todense", op.todense(cache=False), D, T, a)
        elif a == "T":
            t = op.T
            mon.check("shape", t.shape == (n, m), "transpose shape")
            x = operand(rng, m)
            mon.close("transpose-matmul", t @ x, D.T @ x, T, a)
            mon.close("transpose-dense", t.todense(), D.T, T, a)
        elif a == "solve":
            x = operand(rng, n)
            want = np.linalg.solve(D, x) if x.ndim > 1 else np.linalg.solve(D, x[:, None])[:, 0]
            mon.close("solve", op.solve(x), want, T * amp, a)
        elif a == "inv":
            x = operand(rng, n)
            want = np.linalg.solve(D, x) if x.ndim > 1 else np.linalg.solve(D, x[:, None])[:, 0]
            mon.close("inverse-matmul", op.inv() @ x, want, T * amp, a)
        elif a == "invT":
            x = operand(rng, n)
            want = np.linalg.solve(D.T, x) if x.ndim > 1 else np.linalg.solve(D.T, x[:, None])[:, 0]
            mon.close("inverse-transpose", op.inv().T @ x, want, T * amp, a)


def observe_dtype(mon, rng, op):
    """The declared data type is that of the dense form, of the transpose and of the images; type casts cast."""
    m, n = op.shape
    for dt in (np.float32, np.float64):
        if not np.can_cast(op.dtype, dt, casting="same_kind"):
            continue
        c = op.astype(dt)
        mon.check("astype-dtype", c.dtype == dt, f"astype({np.dtype(dt)}) of {type(op).__name__} has type {c.dtype}")
        mon.check("astype-dense-dtype", c.todense().dtype == dt, f"dense {type(op).__name__} {c.todense().dtype} vs {np.dtype(dt)}")
        y = c @ np.ones(n, dtype=dt)
        mon.check("astype-image-dtype", y.dtype == dt, f"image of {type(op).__name__} {y.dtype} vs {np.dtype(dt)}")
    mon.check("transpose-dtype", op.T.dtype == op.dtype, f"{type(op).__name__}.T has {op.T.dtype}, operator {op.dtype}")
    d = op.todense(cache=False).dtype
    mon.check("dense-dtype", d == op.dtype, f"dense {type(op).__name__} has {d}, operator {op.dtype}")


def kinds(mon, e):
    mon.event("kind:" + e.kind)
    for p in e.parts:
        kinds(mon, p)


@scenario(P, "expressions", quick=2600)
def expressions(mon, rng):
    lazy = bool(rng.random() < 0.7)
    with probnum.config(lazy_matrix_matrix_matmul=lazy):
        e = G.random_expr(rng)
        mon.describe(expr=e.label(), shape=e.D.shape, lazy=lazy)
        kinds(mon, e)
        observe_action(mon, rng, e, tol_of(e))


@scenario(P, "singular-expressions", quick=1200)
def singular(mon, rng):
    with probnum.config(lazy_matrix_matrix_matmul=bool(rng.random() < 0.7)):
        e = G.random_expr(rng, singular=True)
        mon.describe(expr=e.label(), shape=e.D.shape)
        kinds(mon, e)
        observe_action(mon, rng, e, tol_of(e))


@scenario(P, "mixed-dtypes", quick=1600)
def mixed(mon, rng):
    """Number types mix without silently losing value."""
    e = G.random_expr(rng, mix=True, singular=True, depth=int(rng.integers(0, 3)))
    mon.describe(expr=e.label(), shape=e.D.shape, dtype=str(e.op.dtype))
    kinds(mon, e)
    observe_action(mon, rng, e, tol_of(e))
    # the advertised number type can hold the values of the matrix
    dense = e.op.todense(cache=False)
    mon.check(
        "dtype-of-dense",
        np.can_cast(dense.dtype, np.result_type(e.op.dtype, dense.dtype)) and dense.dtype.kind in "fiu",
        f"{dense.dtype} vs {e.op.dtype}",
    )
    if np.issubdtype(e.op.dtype, np.integer):
        mon.check(
            "integer-operator-has-integer-entries",
            np.array_equal(np.rint(e.D), e.D),
            f"operator of type {e.op.dtype} denotes a matrix with fractional entries",
        )


@scenario(P, "shape-mismatch", quick=700)
def mismatch(mon, rng):
    """Incompatible shapes are refused, never silently broadcast."""
    a = G.random_expr(rng, depth=int(rng.integers(0, 2)), singular=True)
    b = G.random_expr(rng, depth=int(rng.integers(0, 2)), singular=True)
    mon.describe(a=a.label(), b=b.label(), sa=a.D.shape, sb=b.D.shape)
    for name, fn, bad in (
        ("matmul", lambda: a.op @ b.op, a.D.shape[1] != b.D.shape[0]),
        ("add", lambda: a.op + b.op, a.D.shape != b.D.shape),
        ("sub", lambda: a.op - b.op, a.D.shape != b.D.shape),
        ("matmul-array", lambda: a.op @ b.D, a.D.shape[1] != b.D.shape[0]),
        ("rmatmul-array", lambda: a.D @ b.op, a.D.shape[1] != b.D.shape[0]),
        ("add-array", lambda: a.op + b.D.copy(), a.D.shape != b.D.shape),
        ("vec", lambda: a.op @ np.ones(a.D.shape[1] + 1), True),
    ):
        if not bad:
            continue
        try:
            res = fn()
        except (ValueError, TypeError, np.linalg.LinAlgError):
            mon.check("mismatch-refused", True)
            mon.event("refused:" + name)
            continue
        # constructing may be lazy: the result must then be unusable
        shp = getattr(res, "shape", None)
        mon.check(
            "mismatch-refused",
            False,
            f"{name} of shapes {a.D.shape} and {b.D.shape} returned an object of shape {shp}"
            f" ({a.label()} , {b.label()})",
        )


@scenario(P, "history-independence", quick=900)
def history(mon, rng):
    """The answer of an operator does not depend on what was asked before."""
    singular = bool(rng.random() < 0.4)
    e = G.random_expr(rng, square=True if rng.random() < 0.7 else None, singular=singular)
    mon.describe(expr=e.label(), shape=e.D.shape)
    op, D = e.op, e.D
    T = tol_of(e)
    m, n = D.shape
    queries = ["todense", "T", "trace", "rank", "det", "eigvals", "cond", "diagonal", "logabsdet",
               "chol", "inv", "neg", "add", "mul", "sym", "solve", "astype", "matmul", "TT"]
    rng.shuffle(queries)
    for q in queries[: int(rng.integers(3, 12))]:
        mon.event("query:" + q)
        try:
            if q == "todense":
                op.todense()
            elif q == "T":
                op.T @ np.ones(m)
            elif q == "TT":
                op.T.T @ np.ones(n)
            elif q in ("trace", "rank", "det", "eigvals", "cond", "diagonal", "logabsdet"):
                getattr(op, q)()
            elif q == "chol":
                op.cholesky(lower=bool(rng.random() < 0.5))
            elif q == "inv":
                op.inv() @ np.ones(n)
            elif q == "neg":
                (-op) @ np.ones(n)
            elif q == "add":
                (op + op) @ np.ones(n)
            elif q == "mul":
                (2.5 * op) @ np.ones(n)
            elif q == "sym":
                op.symmetrize() @ np.ones(n)
            elif q == "solve":
                op.solve(np.ones(n))
            elif q == "astype":
                op.astype(np.float32) @ np.ones(n)
            elif q == "matmul":
                op @ np.ones(n)
        except (np.linalg.LinAlgError, ValueError):
            mon.reject("query:" + q)
    observe_action(mon, rng, e, T)
    for p in e.parts:
        x = rng.standard_normal(p.D.shape[1])
        mon.close("operand-unchanged", p.op @ x, p.D @ x, tol_of(p), "operand after use: " + p.kind)


@scenario(P, "equality", quick=300)
def equality(mon, rng):
    """Operators that compare equal denote the same matrix."""
    n = int(rng.choice([1, 2, 3, 4]))
    es = []
    base = G.rand_matrix(rng, n, n)
    for _ in range(2):
        k = rng.integers(6)
        if k == 0:
            A = base if rng.random() < 0.5 else G.rand_matrix(rng, n, n)
            es.append(G.Expr(linops.Matrix(A.copy()), A, "Matrix"))
        elif k == 1:
            es.append(G.Expr(linops.Identity(n), np.eye(n), "Identity"))
        elif k in (2, 3):
            f = rng.integers(1, 3, n).astype(float)
            es.append(G.Expr(linops.Scaling(f.copy()), np.diag(f), "aniso"))
        else:
            s = float(rng.integers(0, 3))
            es.append(G.Expr(linops.Scaling(s, shape=n), s * np.eye(n), "iso"))
    a, b = es
    mon.describe(a=a.kind, b=b.kind, A=a.D, B=b.D)
    r = a.op == b.op
    if r is not NotImplemented and not isinstance(r, bool) and not isinstance(r, np.bool_):
        mon.check("equality-is-a-truth-value", False, f"== returned {type(r)}")
    if bool(r):
        mon.close("equal-means-same-matrix", a.D, b.D, 0.0, f"{a.kind}=={b.kind}")
    else:
        mon.check(
            "same-kind-same-matrix-is-equal",
            not (type(a.op) is type(b.op) and np.array_equal(a.D, b.D)),
            f"{a.kind} operators with identical matrices compare unequal",
        )


def lookalike(rng, n):
    """Two operators that are equal, or differ in one respect only (an entry, a sign, a transposition, the size)."""
    kind = str(rng.choice(["Scaling", "iso", "Matrix", "sparse", "Matrix/Scaling", "perm", "Identity/iso"]))
    how = str(rng.choice(["equal", "entry", "sign", "tiny", "transposed"]))
    D = np.diag(rng.integers(1, 4, n).astype(float)) if kind in ("Scaling", "Matrix/Scaling") else (
        np.eye(n) * float(rng.integers(1, 4)) if kind == "iso" else np.eye(n)[rng.permutation(n)] if kind == "perm"
        else np.eye(n) if kind == "Identity/iso" else rng.integers(-3, 4, (n, n)).astype(float))
    E = D.copy()
    if how == "transposed":
        E = D.T.copy()
    elif how == "sign":
        E = -E if kind == "iso" or rng.random() < 0.3 else E * np.where(np.arange(n) == rng.integers(n), -1.0, 1.0)[:, None]
    elif how in ("entry", "tiny"):
        d = 1.0 if how == "entry" else 1e-5
        if kind in ("iso", "Identity/iso"):
            E = E + d * np.eye(n)
        else:
            i = rng.integers(n)
            E[i, i] += d
    def build(M, first):
        off = np.count_nonzero(M - np.diag(np.diag(M)))
        if kind == "Scaling" or (kind == "Matrix/Scaling" and first):
            return linops.Scaling(np.diag(M).copy())
        if kind in ("iso", "Identity/iso") and not off and np.ptp(np.diag(M)) == 0:
            return linops.Identity(n) if kind == "Identity/iso" and first else linops.Scaling(M[0, 0], shape=n)
        if kind == "perm" and np.all((M == 0) | (M == 1)) and np.all(M.sum(1) == 1):
            return linops.Selection(np.argmax(M, axis=1), (n, n))
        return linops.Matrix(scipy.sparse.csr_matrix(M) if kind == "sparse" else M.copy())
    return build(D, True), D, build(E, False), E, kind + ":" + how


@scenario(P, "equality-shortcuts", quick=700)
def equality_shortcuts(mon, rng):
    """Operators that compare equal are the same matrix; combinations of look-alike factors use the true factors."""
    n = int(rng.integers(1, 5))
    A, DA, B, DB, what = lookalike(rng, n)
    mon.describe(pair=what, n=n)
    mon.event("pair:" + what)
    same = bool(A == B)
    mon.check("equal-operators-have-equal-matrices", not same or np.array_equal(DA, DB), what)
    mon.check("equal-to-itself", bool(A == A), what)
    b = int(rng.integers(1, 4))
    X, Y = rng.standard_normal((b, b)), rng.standard_normal((b, b))
    oX, oY = linops.Matrix(X), linops.Matrix(Y)
    sign = 1 if rng.random() < 0.5 else -1
    combos = [
        (linops.Kronecker(A, oX), np.kron(DA, X), linops.Kronecker(B, oY), np.kron(DB, Y), "left"),
        (linops.Kronecker(oX, A), np.kron(X, DA), linops.Kronecker(oY, B), np.kron(Y, DB), "right"),
        (linops.IdentityKronecker(b, A), np.kron(np.eye(b), DA), linops.IdentityKronecker(b, B), np.kron(np.eye(b), DB), "id"),
        (A, DA, B, DB, "plain"),
        (linops.SymmetricKronecker(A), np.kron(DA, DA), linops.SymmetricKronecker(B), np.kron(DB, DB), "sym"),
        (linops.SymmetricKronecker(A, B), 0.5 * (np.kron(DA, DB) + np.kron(DB, DA)),
         linops.SymmetricKronecker(B), np.kron(DB, DB), "sym2"),
    ]
    P1, D1, P2, D2, where = combos[rng.integers(len(combos))]
    op, D = (P1 + P2, D1 + D2) if sign > 0 else (P1 - P2, D1 - D2)
    v = rng.standard_normal(D.shape[1])
    mon.close("lookalike-sum", op @ v, D @ v, 1e-9, f"{where} {what} {sign}", scale=1 + np.abs(D1).sum())
    mon.close("lookalike-sum", op.todense(), D, 1e-9, f"{where} {what} {sign}", scale=1)
    if D1.shape[1] == D2.shape[0]:
        mon.close("lookalike-product", (P1 @ P2) @ v, D1 @ (D2 @ v), 1e-9, f"{where} {what}", scale=1 + np.abs(D1).sum() * np.abs(D2).sum())

"""L02: quantities, factorisations and matrix properties derived from an operator are true."""
import numpy as np
import probnum
from probnum import linops

from pnmon import gen_linops as G
from pnmon.core import Skip, scenario

P = "L02"


def tol_of(e):
    return max(1e-9, 2e4 * e.eps)


def flags(mon, op, D, T, where):
    """A property that is claimed must be true of the matrix."""
    sc = T * (1 + np.max(np.abs(D))) if D.size else T
    sq = D.shape[0] == D.shape[1]
    mon.check("flag-square", op.is_square == sq)
    if op.is_symmetric:
        mon.check("flag-symmetric", sq and np.max(np.abs(D - D.T)) <= sc, where)
    if op.is_symmetric is False and sq:
        mon.event("claimed-not-symmetric")
    if op.is_lower_triangular:
        mon.check("flag-lower-triangular", np.max(np.abs(np.triu(D, 1)), initial=0) <= sc, where)
    if op.is_upper_triangular:
        mon.check("flag-upper-triangular", np.max(np.abs(np.tril(D, -1)), initial=0) <= sc, where)
    if op.is_positive_definite and sq:
        ev = np.linalg.eigvalsh(0.5 * (D + D.T))
        mon.check("flag-positive-definite", ev[0] > -sc, f"{where}: smallest eigenvalue {ev[0]}")
    if op.is_positive_definite is False and op.is_symmetric and sq:
        ev = np.linalg.eigvalsh(0.5 * (D + D.T))
        mon.check(
            "flag-not-positive-definite",
            ev[0] <= 1e-7 * max(1.0, ev[-1]),
            f"{where}: claimed not positive definite, smallest eigenvalue {ev[0]}",
        )


def multiset_close(mon, got, want, T, msg):
    got, want = np.sort_complex(np.asarray(got)), np.sort_complex(np.asarray(want))
    if got.shape != want.shape:
        mon.check("eigenvalues", False, f"{msg}: {got.shape} vs {want.shape}")
        return
    # greedy matching, robust against ordering of nearly equal real parts
    left = list(want)
    worst = 0.0
    for g in got:
        j = int(np.argmin([abs(g - w) for w in left]))
        worst = max(worst, abs(g - left.pop(j)))
    sc = np.max(np.abs(want)) if want.size else 0.0
    mon.check("eigenvalues", worst <= T * (1 + sc), f"{msg}: distance {worst} scale {sc}")


def has_zero_rank(D, tol=1e-8):
    s = np.linalg.svd(D, compute_uv=False)
    return s


def observe(mon, rng, e, queries=None):
    op, D = e.op, np.asarray(e.D, dtype=float)
    T = tol_of(e)
    m, n = D.shape
    sq = m == n
    s = np.linalg.svd(D, compute_uv=False)
    smax = s[0] if s.size else 0.0
    cut = max(1e-7, 1e3 * e.eps) * max(smax, 1.0)
    gap_ok = not np.any((s > 1e-13 * max(smax, 1.0)) & (s < cut)) and e.eps < 1e-10
    rank = int(np.sum(s > cut))
    singular = sq and rank < n
    qs = ["rank", "diagonal", "flags", "T-flags"]
    if sq:
        qs += ["det", "logabsdet", "trace", "eigvals", "cond", "cond_p", "cholesky", "symmetrize",
               "inv-derived", "T-derived"]
    else:
        qs += ["refuse"]
    rng.shuffle(qs)
    if rng.random() < 0.5:
        qs = qs + qs[:3]  # ask again: cached answers
    flags(mon, op, D, T, "construction")
    for q in qs:
        mon.event("query:" + q)
        if q == "rank" and gap_ok:
            mon.check("rank", int(op.rank()) == rank, f"{op.rank()} vs {rank}")
        elif q == "diagonal":
            mon.close("diagonal", op.diagonal(), np.diagonal(D), T)
        elif q == "trace":
            mon.close("trace", op.trace(), np.trace(D), T, scale=np.abs(np.diagonal(D)).sum())
        elif q == "det":
            d = np.linalg.det(D)
            hadamard = np.prod(np.linalg.norm(D, axis=1)) if n else 1.0
            mon.close("det", op.det(), d, T * 10, scale=hadamard)
        elif q == "logabsdet":
            v = op.logabsdet()
            if singular:
                mon.check("logabsdet", v < np.log(max(np.prod(np.linalg.norm(D, axis=1)), 1e-300)) - 8
                          or v == -np.inf or not gap_ok, f"{v}")
            else:
                c = s[0] / s[-1]
                mon.close("logabsdet", v, np.linalg.slogdet(D)[1], T * max(1, min(c, 1e6)))
            if gap_ok and not singular:
                # consistency of determinant and log-determinant
                with np.errstate(all="ignore"):
                    dd = op.det()
                    if np.isfinite(dd) and dd != 0:
                        mon.close("det-vs-logdet", np.log(np.abs(dd)), v, 1e-6 + T * min(c, 1e6))
        elif q == "eigvals":
            ev = np.linalg.eigvals(D)
            got = np.asarray(op.eigvals())
            # eigenvalues of defective matrices are ill conditioned: compare loosely, and
            # compare the well conditioned power sums tightly
            if np.allclose(D, D.T):
                multiset_close(mon, got, ev, T * 10, "eigvals")
            elif got.shape != (n,):
                mon.check("eigenvalues", False, f"shape {got.shape}")
            mon.close("eigenvalue-sum", np.sum(got).real, np.trace(D), T * 100, scale=n * smax)
            mon.close("eigenvalue-square-sum", np.sum(got**2).real, np.trace(D @ D), T * 100, scale=n * smax**2)
            mon.close("eigenvalue-sum", np.sum(got).imag, 0.0, T * 100, scale=n * smax)
        elif q == "cond" and not singular and gap_ok:
            c = s[0] / s[-1]
            mon.close("cond", op.cond(), c, T * max(10, c))
        elif q == "cond_p" and not singular and gap_ok:
            p = [1, 2, -2, np.inf, -np.inf, -1, "fro"][rng.integers(7)]
            c = s[0] / s[-1]
            mon.close("cond-p", op.cond(p=p), np.linalg.cond(D, p=p), T * max(10, c), f"p={p}")
        elif q == "cholesky":
            lower = bool(rng.random() < 0.5)
            claimed = op.is_symmetric
            ev = np.linalg.eigvalsh(0.5 * (D + D.T))
            sym = np.max(np.abs(D - D.T), initial=0) <= T * (1 + smax)
            try:
                C = op.cholesky(lower=lower)
            except np.linalg.LinAlgError:
                mon.reject("cholesky")
                mon.check(
                    "cholesky-of-positive-definite-exists",
                    not (claimed and sym and ev[0] > 1e-6 * max(1, ev[-1])),
                    f"refused although symmetric and smallest eigenvalue is {ev[0]}",
                )
                continue
            mon.check("cholesky-only-of-positive-definite", ev[0] > -T * 100 * (1 + ev[-1]), f"{ev[0]}")
            Cd = C.todense()
            want = Cd @ Cd.T if lower else Cd.T @ Cd
            mon.close("cholesky-product", want, D, T * 10, f"lower={lower}")
            off = np.triu(Cd, 1) if lower else np.tril(Cd, -1)
            mon.check("cholesky-triangular", np.max(np.abs(off), initial=0) <= T, f"lower={lower}")
            C2 = op.cholesky(lower=not lower)
            mon.close("cholesky-other-triangle", C2.todense(), Cd.T, T * 10)
            flags(mon, C, Cd, T, "cholesky factor")
        elif q == "symmetrize":
            if e.approx_sym:
                S = op.symmetrize().todense()
                mon.close("symmetrized-is-symmetric", S, S.T, T)
            else:
                mon.close("symmetrize", op.symmetrize().todense(), 0.5 * (D + D.T), T)
        elif q == "flags":
            flags(mon, op, D, T, "after queries")
        elif q == "T-flags":
            flags(mon, op.T, D.T, T, "transpose")
        elif q == "T-derived":
            t = op.T
            mon.close("diagonal", t.diagonal(), np.diagonal(D), T)
            mon.close("trace", t.trace(), np.trace(D), T, scale=np.abs(np.diagonal(D)).sum())
            mon.close("det", t.det(), np.linalg.det(D), T * 10,
                      scale=np.prod(np.linalg.norm(D, axis=1)))
        elif q == "inv-derived" and not singular and gap_ok and s[0] / s[-1] < 1e4:
            i = op.inv()
            Di = np.linalg.inv(D)
            c = s[0] / s[-1]
            mon.close("inverse-dense", i.todense(), Di, T * max(10, c))
            mon.close("inverse-logdet", i.logabsdet(), -np.linalg.slogdet(D)[1], T * max(10, c))
            d = 1 / np.linalg.det(D)
            mon.close("inverse-det", i.det(), d, T * max(10, c), scale=d)
            flags(mon, i, Di, T * max(10, c), "inverse")
            mon.close("inverse-trace", i.trace(), np.trace(Di), T * max(10, c), scale=np.abs(Di).sum())
            mon.close("double-inverse", i.inv().todense(), D, T * max(10, c))
        elif q == "refuse":
            for f in ("det", "logabsdet", "trace", "eigvals", "cond", "inv", "symmetrize"):
                try:
                    getattr(op, f)()
                    ok = False
                except np.linalg.LinAlgError:
                    ok = True
                mon.check("non-square-refused", ok, f)


@scenario(P, "expressions", quick=1800)
def expressions(mon, rng):
    e = G.random_expr(rng, square=True if rng.random() < 0.8 else None)
    mon.describe(expr=e.label(), shape=e.D.shape)
    observe(mon, rng, e)


@scenario(P, "singular", quick=900)
def singular(mon, rng):
    e = G.random_expr(rng, square=True if rng.random() < 0.8 else None, singular=True,
                      depth=int(rng.integers(0, 3)))
    mon.describe(expr=e.label(), shape=e.D.shape)
    observe(mon, rng, e)


@scenario(P, "mixed-dtypes", quick=700)
def mixed(mon, rng):
    e = G.random_expr(rng, square=True if rng.random() < 0.8 else None, mix=True,
                      depth=int(rng.integers(0, 3)))
    mon.describe(expr=e.label(), shape=e.D.shape)
    observe(mon, rng, e)


def spd_expr(rng, n, depth):
    """A symmetric (often positive definite) operator that knows it is symmetric."""
    k = rng.choice(["matrix", "scaling", "iso", "kron", "symkron", "idkron", "block", "sum", "scaled",
                    "inv", "identity", "lambda", "neg", "astype", "T"]
                   if depth > 0 else ["matrix", "scaling", "iso", "identity", "lambda", "indef"])
    k = str(k)
    if k == "matrix":
        A = G.spd(rng, n)
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        if rng.random() < 0.4:
            op.is_positive_definite = True
        return G.Expr(op, A, k)
    if k == "indef":
        A = G.rand_matrix(rng, n, n)
        A = A + A.T
        if not G._well(A):
            raise Skip
        op = linops.Matrix(A.copy())
        op.is_symmetric = True
        return G.Expr(op, A, k)
    if k == "lambda":
        A = G.spd(rng, n)
        op = linops.LambdaLinearOperator((n, n), A.dtype, matmul=lambda x: A @ x)
        op.is_symmetric = True
        if rng.random() < 0.4:
            op.is_positive_definite = True
        return G.Expr(op, A, k)
    if k == "identity":
        return G.Expr(linops.Identity(n), np.eye(n), k)
    if k == "scaling":
        f = rng.uniform(0.3, 2, n)
        if rng.random() < 0.3:
            f[rng.integers(n)] *= -1
        return G.Expr(linops.Scaling(f.copy()), np.diag(f), k)
    if k == "iso":
        s = rng.uniform(0.3, 2) * (1 if rng.random() < 0.7 else -1)
        return G.Expr(linops.Scaling(s, shape=n), np.eye(n) * s, k)
    if k == "kron":
        fp = G.factor_pairs(n)
        a, b = fp[rng.integers(len(fp))]
        A, B = spd_expr(rng, a, depth - 1), spd_expr(rng, b, depth - 1)
        return G.Expr(linops.Kronecker(A.op, B.op), np.kron(A.D, B.D), k, (A, B))
    if k == "idkron":
        fp = G.factor_pairs(n)
        a, b = fp[rng.integers(len(fp))]
        B = spd_expr(rng, b, depth - 1)
        return G.Expr(linops.IdentityKronecker(a, B.op), np.kron(np.eye(a), B.D), k, (B,))
    if k == "symkron":
        r = int(round(np.sqrt(n)))
        if r * r != n:
            raise Skip
        A = spd_expr(rng, r, depth - 1)
        if rng.random() < 0.5:
            return G.Expr(linops.SymmetricKronecker(A.op), np.kron(A.D, A.D), k, (A,))
        B = spd_expr(rng, r, depth - 1)
        return G.Expr(linops.SymmetricKronecker(A.op, B.op),
                      0.5 * (np.kron(A.D, B.D) + np.kron(B.D, A.D)), k, (A, B))
    if k == "block":
        parts = G.splits(rng, n, min(n, int(rng.integers(1, 4))))
        bs = [spd_expr(rng, p, depth - 1) for p in parts]
        import scipy.linalg as sl
        return G.Expr(linops.BlockDiagonalMatrix(*[b.op for b in bs]), sl.block_diag(*[b.D for b in bs]), k, bs)
    if k == "sum":
        A, B = spd_expr(rng, n, depth - 1), spd_expr(rng, n, depth - 1)
        return G.Expr(A.op + B.op, A.D + B.D, k, (A, B))
    if k == "scaled":
        A = spd_expr(rng, n, depth - 1)
        s = G.scalar(rng) if rng.random() < 0.8 else [0.0, np.float64(0), 0, -0.0][rng.integers(4)]
        return G.Expr(s * A.op if rng.random() < 0.5 else A.op * s, float(s) * A.D, k, (A,))
    if k == "neg":
        A = spd_expr(rng, n, depth - 1)
        return G.Expr(-A.op, -A.D, k, (A,))
    if k == "astype":
        A = spd_expr(rng, n, depth - 1)
        return G.Expr(A.op.astype(np.float64), A.D, k, (A,))
    if k == "T":
        A = spd_expr(rng, n, depth - 1)
        return G.Expr(A.op.T, A.D.T, k, (A,))
    A = spd_expr(rng, n, depth - 1)
    if not G._well(A.D, 1e4):
        raise Skip
    return G.Expr(A.op.inv(), np.linalg.inv(A.D), "inv", (A,))


@scenario(P, "symmetric-operators", quick=1500)
def symmetric(mon, rng):
    n = int(rng.choice(G.SIZES))
    e = spd_expr(rng, n, int(rng.integers(0, 3)))
    if rng.random() < 0.3:
        # positive definiteness may be discovered on an operand first
        for p in (e,) + tuple(e.parts):
            try:
                p.op.cholesky(lower=bool(rng.random() < 0.5))
            except np.linalg.LinAlgError:
                pass
    mon.describe(expr=e.label(), shape=e.D.shape)
    observe(mon, rng, e)
    x = rng.standard_normal(n)
    if G._well(e.D, 1e5):
        c = np.linalg.cond(e.D)
        mon.close("solve-after-queries", e.op.solve(x), np.linalg.solve(e.D, x), tol_of(e) * max(10, c))

"""U01: square-root updates, inner products and orthogonalisation are exact on all shapes."""
import numpy as np
import scipy.sparse
from probnum import linops, randvars, utils
from probnum.utils.linalg import (
    cholesky_update,
    double_gram_schmidt,
    gram_schmidt,
    induced_norm,
    inner_product,
    modified_gram_schmidt,
    tril_to_positive_tril,
)

from pnmon.core import Skip, scenario
from pnmon.props.a01 import close, dense, spd

P = "U01"


def root(rng, n, scale):
    """Square roots of all shapes and ranks: lower, upper, tall, wide, singular, zero."""
    k = str(rng.choice(["lower", "full", "wide", "thin", "singular", "zero", "upper"]))
    m = {"wide": n + int(rng.integers(1, 4)), "thin": max(1, n - 1)}.get(k, n)
    S = rng.standard_normal((n, m)) * scale
    if k == "lower":
        S = np.tril(S)
    elif k == "upper":
        S = np.triu(S)
    elif k == "singular":
        S[int(rng.integers(n))] = 0.0
    elif k == "zero":
        S[:] = 0.0
    return k, S


@scenario(P, "cholesky-update", quick=500)
def chol(mon, rng):
    n = int(rng.integers(1, 7))
    sc = 10 ** rng.uniform(-8, 4, 2)
    k1, S1 = root(rng, n, sc[0])
    two = bool(rng.random() < 0.7)
    k2, S2 = root(rng, n, sc[1]) if two else ("none", None)
    mon.describe(n=n, first=k1, second=k2, shape=list(S1.shape), scales=[float(f"{s:.2g}") for s in sc])
    c1, c2 = S1.copy(), None if S2 is None else S2.copy()
    L = cholesky_update(S1, S2) if two else cholesky_update(S1)
    mon.check("inputs-intact", np.array_equal(S1, c1) and (S2 is None or np.array_equal(S2, c2)))
    C = S1 @ S1.T + (S2 @ S2.T if two else 0)
    s = np.sqrt(np.abs(C).max()) if np.abs(C).max() else 1.0
    mon.check("shape", L.shape == (n, n), f"{L.shape}")
    mon.check("lower-triangular", np.array_equal(L, np.tril(L)))
    mon.check("nonnegative-diagonal", np.all(np.diag(L) >= 0), f"{np.diag(L)}")
    e = np.abs(L @ L.T - C).max()
    mon.check("covariance", e <= 1e-13 * s * s * n, f"{e} at scale {s * s}")
    # rows keep their own scale (relative accuracy of small variances)
    d = np.sqrt(np.diag(C))
    e = np.abs(np.linalg.norm(L, axis=1) - d)
    mon.check("row-norms", np.all(e <= 1e-12 * d + 1e-14 * s), f"{e}, {d}")


@scenario(P, "positive-tril", quick=120)
def tril(mon, rng):
    n = int(rng.integers(1, 6))
    L = np.tril(rng.standard_normal((n, n))) * 10 ** rng.uniform(-5, 5)
    if rng.random() < 0.3:
        L[int(rng.integers(n))] = 0.0
    mon.describe(n=n, L=L.round(4).tolist() if n < 4 else float(L[0, 0]))
    c = L.copy()
    R = tril_to_positive_tril(L)
    mon.check("inputs-intact", np.array_equal(L, c))
    mon.check("nonnegative-diagonal", np.all(np.diag(R) >= 0))
    mon.check("same-columns", np.array_equal(np.abs(R), np.abs(L)))
    close(mon, "same-covariance", R @ R.T, L @ L.T, 1e-13)
    mon.check("columnwise", all(np.array_equal(R[:, j], L[:, j]) or np.array_equal(R[:, j], -L[:, j]) for j in range(n)))


@scenario(P, "inner-products", quick=300)
def inner(mon, rng):
    n = int(rng.integers(1, 6))
    batches = [((), ()), ((3,), (3,)), ((2, 3), (3,)), ((), (4,)), ((2, 1), (1, 3))]
    b1, b2 = batches[int(rng.integers(len(batches)))]
    v, w = rng.standard_normal(b1 + (n,)), rng.standard_normal(b2 + (n,))
    k = str(rng.choice(["none", "array", "linop", "scaling"]))
    A = spd(rng, n)
    op = {"none": None, "array": A, "linop": linops.aslinop(A), "scaling": linops.Scaling(2.5, shape=(n, n))}[k]
    if k == "scaling":
        A = 2.5 * np.eye(n)
    if k == "none":
        A = np.eye(n)
    mon.describe(n=n, b1=list(b1), b2=list(b2), kind=k)
    got = inner_product(v, w) if op is None else inner_product(v, w, A=op)
    want = np.einsum("...i,ij,...j->...", v, A, w)
    mon.check("shape", np.shape(got) == want.shape, f"{np.shape(got)} for {v.shape}, {w.shape}")
    close(mon, "inner-product", got, want, 1e-12)
    ax = int(rng.integers(-v.ndim, v.ndim))
    u = np.moveaxis(v, -1, ax)
    nm = induced_norm(u, axis=ax) if op is None else induced_norm(u, A=op, axis=ax)
    wn = np.sqrt(np.einsum("...i,ij,...j->...", v, A, v))
    mon.check("norm-shape", np.shape(nm) == wn.shape, f"{np.shape(nm)}, expected {wn.shape}")
    close(mon, "norm", nm, wn, 1e-12)


@scenario(P, "gram-schmidt", quick=400)
def gs(mon, rng):
    n = int(rng.integers(2, 9))
    k = int(rng.integers(1, n))
    kind = str(rng.choice(["none", "array", "linop", "callable"]))
    A = np.eye(n) if kind == "none" else spd(rng, n, 0.5, 5.0)
    ip = {"none": None, "array": A, "linop": linops.aslinop(A), "callable": lambda x, y: np.einsum("...i,ij,...j->...", x, A, y)}[kind]
    # an A-orthogonal basis of any scaling
    L = np.linalg.cholesky(A)
    q, _ = np.linalg.qr(rng.standard_normal((n, k)))
    B = np.linalg.solve(L.T, q).T * 10 ** rng.uniform(-3, 3, (k, 1))
    name = str(rng.choice(["gram_schmidt", "modified", "double", "double-classical"]))
    norm = bool(rng.random() < 0.4)
    batch = bool(rng.random() < 0.3)
    integer = bool(rng.random() < 0.1)
    v = rng.standard_normal((3, n) if batch else n) * 10 ** rng.uniform(-3, 3)
    if integer:
        v = rng.integers(-5, 6, (3, n) if batch else n)
        v[..., 0] += 6
    inspan = bool(name.startswith("double") and rng.random() < 0.4) and not integer
    if inspan:
        # most of the vector is removed: one sweep alone leaves round-off in the basis directions
        Bu = B / np.linalg.norm(B, axis=1)[:, None]
        v = rng.standard_normal(v.shape[:-1] + (k,)) @ Bu + 1e-6 * rng.standard_normal(v.shape)
    one = k == 1 and rng.random() < 0.5
    mon.describe(n=n, k=k, kind=kind, fn=name, normalize=norm, batch=batch, integer=integer, one=bool(one), inspan=inspan)
    fn = {"gram_schmidt": gram_schmidt, "modified": modified_gram_schmidt, "double": double_gram_schmidt,
          "double-classical": lambda **kw: double_gram_schmidt(gram_schmidt_fn=gram_schmidt, **kw)}[name]
    v0, B0 = v.copy(), B.copy()
    u = fn(v=v, orthogonal_basis=B[0] if one else B, inner_product=ip, normalize=norm)
    mon.check("inputs-intact", np.array_equal(v, v0) and np.array_equal(B, B0))
    Bn = B / np.sqrt(np.einsum("ki,ij,kj->k", B, A, B))[:, None]
    want = v - np.einsum("...i,ij,kj->...k", v, A, Bn) @ Bn
    wn = np.sqrt(np.einsum("...i,ij,...j->...", want, A, want))
    vn = np.sqrt(np.einsum("...i,ij,...j->...", v, A, v))
    if inspan:
        if np.any(wn < 1e-8 * vn):
            raise Skip("vector in the span")
        o_ = (np.abs(np.einsum("...i,ij,kj->...k", u, A, Bn)).max(axis=-1) / np.sqrt(np.einsum("...i,ij,...j->...", u, A, u))).max()
        mon.check("orthogonal-twice", o_ <= 1e-13, f"{name}: {o_}")
        mon.check("shape", u.shape == v.shape)
        return
    if np.any(wn < 1e-3 * vn):
        raise Skip("vector nearly in the span")
    if norm:
        want = want / wn[..., None]
    mon.check("shape", u.shape == v.shape)
    s = np.abs(want).max()
    mon.check("projection", np.abs(u - want).max() <= 1e-9 * s, f"{np.abs(u - want).max()} at {s}")
    orth = (np.abs(np.einsum("...i,ij,kj->...k", u, A, Bn)).max(axis=-1) / np.sqrt(np.einsum("...i,ij,...j->...", u, A, u))).max()
    mon.check("orthogonal", orth <= (1e-12 if name.startswith("double") else 1e-9), f"{name}: {orth}")


@scenario(P, "arguments", quick=150)
def args(mon, rng):
    which = str(rng.choice(["as_shape", "as_numpy_scalar", "as_colvec", "atleast_1d"]))
    n = int(rng.integers(1, 5))
    mon.describe(which=which, n=n, r=float(f"{rng.random():.3f}"))
    if which == "as_shape":
        t = tuple(int(i) for i in rng.integers(0, 5, n))
        forms = [t, list(t), np.array(t), tuple(np.int64(i) for i in t)]
        for f in forms:
            s = utils.as_shape(f)
            mon.check("shape", s == t and isinstance(s, tuple) and all(type(i) is int for i in s), f"{f!r} -> {s!r}")
        mon.check("shape-int", utils.as_shape(n) == (n,) and utils.as_shape(np.int32(n)) == (n,) and utils.as_shape(()) == ())
        for bad in (1.5, (1.0, 2), "ab", None):
            try:
                utils.as_shape(bad)
            except TypeError:
                mon.check("refused", True)
            else:
                mon.check("refused", False, f"{bad!r}")
        try:
            utils.as_shape(t, ndim=n + 1)
        except TypeError:
            mon.check("refused", True)
        else:
            mon.check("refused", False, "wrong number of dimensions")
    elif which == "as_numpy_scalar":
        for x in (3, 2.5, np.float32(1.5), np.array(4), True):
            y = utils.as_numpy_scalar(x)
            mon.check("scalar", np.ndim(y) == 0 and y == x and isinstance(y, (np.ndarray, np.generic)), f"{x!r} -> {y!r}")
        mon.check("scalar-dtype", utils.as_numpy_scalar(3, dtype=np.double).dtype == np.double)
        try:
            utils.as_numpy_scalar(np.ones(n))
        except ValueError:
            mon.check("refused", True)
        else:
            mon.check("refused", False, "an array is not a scalar")
    elif which == "as_colvec":
        n = n if rng.random() < 0.7 else 100 * n
        v = rng.standard_normal(n)
        mon.check("colvec", np.array_equal(utils.as_colvec(v), v[:, None]) and np.array_equal(utils.as_colvec(v[:, None]), v[:, None]))
        r = utils.as_colvec(randvars.Constant(v))
        mon.check("colvec-rv", r.shape == (n, 1) and np.array_equal(r.mean, v[:, None]), f"{r.shape}")
        g = utils.as_colvec(randvars.Normal(v, np.eye(n)))
        mon.check("colvec-rv", g.shape == (n, 1) and np.array_equal(g.mean, v[:, None]), f"{g.shape}")
    else:
        v = rng.standard_normal(n)
        a, b = utils.atleast_1d(v, np.array(3.0))
        mon.check("atleast", np.array_equal(a, v) and b.shape == (1,) and b[0] == 3.0)
        s = scipy.sparse.eye(n).tocsr()
        mon.check("atleast-sparse", utils.atleast_1d(s) is s)

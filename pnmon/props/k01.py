"""K01: covariance functions are the kernels they are named after."""
import numpy as np
import scipy.special

from probnum.randprocs import covfuncs

from ..core import scenario

P = "K01"


def matern_profile(d, nu):
    """Matern correlation as a function of the scaled distance (sqrt(2 nu) r)."""
    d = np.asarray(d, dtype=float)
    out = np.ones_like(d)
    ok = d > 1e-6 if nu < 18 else d > 1e-4
    dd = d[ok]
    with np.errstate(all="ignore"):
        lg = (1 - nu) * np.log(2) - scipy.special.gammaln(nu) + nu * np.log(dd) + np.log(scipy.special.kve(nu, dd)) - dd
    out[ok] = np.exp(lg)
    # Taylor expansion near zero for very smooth kernels, exact formula for rough ones
    nok = ~ok
    if nu <= 1:
        z = np.maximum(d[nok], 1e-300)
        with np.errstate(all="ignore"):
            v = 2 ** (1 - nu) / scipy.special.gamma(nu) * z**nu * scipy.special.kv(nu, z)
        out[nok] = np.where(d[nok] < 1e-200, 1.0, v)
    else:
        out[nok] = 1 - d[nok] ** 2 / (4 * (nu - 1))
    return out


def base(rng, ish):
    """(covariance function, reference on pairs of flat inputs (n, d), description, psd?)"""
    d = int(np.prod(ish)) if ish else 1
    kind = str(rng.choice(["expquad", "matern", "matern-general", "ratquad", "linear", "poly", "prodmatern", "noise"]))
    ls = float(np.exp(rng.normal(0, 0.8)))
    if rng.random() < 0.15:
        ls = float(10 ** rng.uniform(-4, 3))
    if kind in ("expquad", "matern", "matern-general"):
        ard = ish != () and rng.random() < 0.4
        l = np.exp(rng.normal(0, 0.6, ish)) if ard else ls
        larr = np.broadcast_to(np.asarray(l, dtype=float), ish).reshape(-1)
        if kind == "expquad":
            k = covfuncs.ExpQuad(ish, lengthscales=l)
            ref = lambda a, b: np.exp(-0.5 * np.sum(((a - b) / larr) ** 2, -1))
            return k, ref, (kind, np.round(larr, 3).tolist()), True
        if kind == "matern":
            nu = float(rng.integers(0, 6)) + 0.5
        else:
            nu = float(rng.choice([0.3, 0.47, 0.53, 0.75, 1.0, 1.48, 1.52, 2.51, 1.7, 2.0, 3.2, 5.0, 10.0, 24.2]))
        k = covfuncs.Matern(ish, nu=nu, lengthscales=l)
        ref = lambda a, b: matern_profile(np.sqrt(2 * nu) * np.sqrt(np.sum(((a - b) / larr) ** 2, -1)), nu)
        return k, ref, (kind, nu, np.round(larr, 3).tolist()), True
    if kind == "ratquad":
        al = float(np.exp(rng.normal(0, 0.7)))
        k = covfuncs.RatQuad(ish, lengthscale=ls, alpha=al)
        ref = lambda a, b: (1 + np.sum((a - b) ** 2, -1) / (2 * al * ls**2)) ** (-al)
        return k, ref, (kind, ls, al), True
    if kind == "linear":
        c = float(rng.choice([0.0, rng.uniform(0, 3)]))
        k = covfuncs.Linear(ish, constant=c)
        return k, lambda a, b: np.sum(a * b, -1) + c, (kind, c), True
    if kind == "poly":
        c = float(rng.choice([0.0, rng.uniform(0, 2)]))
        e = int(rng.integers(1, 5))
        k = covfuncs.Polynomial(ish, constant=c, exponent=e)
        return k, lambda a, b: (np.sum(a * b, -1) + c) ** e, (kind, c, e), True
    if kind == "prodmatern":
        if ish == ():
            nus, lss = float(rng.choice([0.5, 1.5, 2.5, 1.2])), ls
        else:
            nus = rng.choice([0.5, 1.5, 2.5, 3.5, 1.2], size=ish) if rng.random() < 0.7 else 1.5
            lss = np.exp(rng.normal(0, 0.5, ish)) if rng.random() < 0.7 else ls
        k = covfuncs.ProductMatern(ish, lengthscales=lss, nus=nus)
        nn, ll = np.broadcast_to(nus, (d,)), np.broadcast_to(lss, (d,))
        def ref(a, b):
            out = np.ones(np.broadcast(a, b).shape[:-1])
            for i in range(d):
                out = out * matern_profile(np.sqrt(2 * nn[i]) * np.abs(a[..., i] - b[..., i]) / ll[i], nn[i])
            return out
        return k, ref, (kind, np.round(nn, 3).tolist(), np.round(ll, 3).tolist()), True
    s = float(rng.uniform(0, 2)) if rng.random() < 0.9 else 0.0
    k = covfuncs.WhiteNoise(ish, sigma_sq=s)
    return k, lambda a, b: s * np.all(a == b, -1), (kind, s), True


def expression(rng, ish, depth=2):
    if depth == 0 or rng.random() < 0.45:
        return base(rng, ish)
    op = str(rng.choice(["scale", "rscale", "sum", "product"]))
    k1, r1, d1, p1 = expression(rng, ish, depth - 1)
    if op in ("scale", "rscale"):
        c = [0.0, 2, float(np.exp(rng.normal())), 0.5, np.float64(1.5), np.array(0.3)][rng.integers(6)]
        k = k1 * c if op == "scale" else c * k1
        c = float(c)
        return k, (lambda a, b: c * r1(a, b)), (op, c, d1), p1
    if rng.random() < 0.25:
        k2, r2, d2, p2 = k1, r1, "same", p1  # the very same object once more
    else:
        k2, r2, d2, p2 = expression(rng, ish, depth - 1)
    if op == "sum":
        return k1 + k2, (lambda a, b: r1(a, b) + r2(a, b)), ("sum", d1, d2), p1 and p2
    return k1 * k2, (lambda a, b: r1(a, b) * r2(a, b)), ("product", d1, d2), p1 and p2


def points(rng, batch, ish):
    style = str(rng.choice(["normal", "grid", "far", "close", "integer", "unsigned", "fortran", "strided"], p=[0.3, 0.15, 0.1, 0.15, 0.1, 0.06, 0.07, 0.07]))
    sh = tuple(batch) + ish
    if style == "unsigned":
        return style, rng.integers(0, 6, sh).astype(np.uint32 if rng.random() < 0.5 else np.uint64)
    if style == "fortran":
        return style, np.asfortranarray(rng.standard_normal(sh))
    if style == "strided":
        return style, rng.standard_normal(sh + (2,))[..., 1] if sh else np.float64(rng.standard_normal())
    if style == "normal":
        return style, rng.standard_normal(sh)
    if style == "grid":
        return style, rng.integers(-2, 3, sh) / 2.0
    if style == "far":
        return style, 30.0 * rng.standard_normal(sh)
    if style == "close":
        return style, 0.7 + 10.0 ** rng.uniform(-9, -3) * rng.standard_normal(sh)
    return style, rng.integers(-3, 4, sh)


def flat(x, ish):
    x = np.asarray(x, dtype=float)
    return x[..., None] if ish == () else x.reshape(x.shape[: x.ndim - len(ish)] + (int(np.prod(ish)),))


ISH = [(), (1,), (2,), (3,)]


@scenario(P, "pointwise", quick=1500)
def pointwise(mon, rng):
    ish = ISH[rng.integers(4)]
    k, ref, desc, _ = expression(rng, ish)
    b0, b1 = [((), ()), ((5,), (5,)), ((4, 1), (3,)), ((2, 3), (3,)), ((4,), ()), ((), (4,)), ((0,), (0,)), ((2, 1, 3), (4, 1))][rng.integers(8)]
    s0, x0 = points(rng, b0, ish)
    s1, x1 = points(rng, b1, ish)
    if rng.random() < 0.3 and b0 == b1:
        x1 = x0.copy()
    mon.describe(ish=ish, k=desc, b=(b0, b1), style=(s0, s1))
    keep0, keep1 = x0.copy(), x1.copy()
    want = ref(flat(x0, ish), flat(x1, ish))
    got = k(x0, x1)
    mon.close("value", got, want, 1e-9, f"k(x0, x1) {desc[0]}")
    mon.close("symmetric", k(x1, x0), want, 1e-9, f"k(x1, x0) {desc[0]}")
    wd = ref(flat(x0, ish), flat(x0, ish))
    mon.close("diagonal", k(x0, None), wd, 1e-9, f"k(x0, None) {desc[0]}")
    mon.close("value-at-identical-points", k(x0, x0), wd, 1e-9, f"k(x0, x0) {desc[0]}")
    mon.check("inputs-untouched", np.array_equal(x0, keep0) and np.array_equal(x1, keep1))
    mon.event("kernel:" + desc[0])
    mon.event("points:" + s0)


@scenario(P, "matrices", quick=1000)
def matrices(mon, rng):
    ish = ISH[rng.integers(4)]
    k, ref, desc, psd = expression(rng, ish)
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    s0, x0 = points(rng, (n,), ish)
    s1, x1 = points(rng, (m,), ish)
    mon.describe(ish=ish, k=desc, n=n, m=m, style=(s0, s1))
    f0, f1 = flat(x0, ish), flat(x1, ish)
    K01 = ref(f0[:, None], f1[None])
    K00 = ref(f0[:, None], f0[None])
    mon.close("matrix", k.matrix(x0, x1), K01, 1e-9, desc[0])
    mon.close("matrix", k.matrix(x0), K00, 1e-9, desc[0])
    mon.close("matrix-transposed", k.matrix(x1, x0), K01.T, 1e-9, desc[0])
    mon.close("linop-dense", k.linop(x0, x1).todense(), K01, 1e-9, desc[0])
    mon.close("linop-dense", k.linop(x0).todense(), K00, 1e-9, desc[0])
    mon.close("linop-transposed", k.linop(x0, x1).T.todense(), K01.T, 1e-9, desc[0])
    if n % 2 == 0:
        xb = x0.reshape((n // 2, 2) + ish)
        mon.close("batched-points", k.matrix(xb, x1), K01, 1e-9, desc[0])
        mon.close("batched-points", k.linop(xb, x1).todense(), K01, 1e-9, desc[0])
    if psd:
        G = k.matrix(x0)
        mon.check("matrix-symmetric", np.allclose(G, G.T, rtol=1e-12, atol=1e-12 * (1 + np.abs(G).max())))
        w = np.linalg.eigvalsh(0.5 * (G + G.T))
        mon.check("matrix-positive-semidefinite", w[0] >= -1e-9 * (1 + abs(w[-1])), f"{desc[0]}: smallest eigenvalue {w[0]} of {w[-1]}")


@scenario(P, "lazy-products", quick=8, thorough=48)
def lazy(mon, rng):
    """Matrix-free covariance operators multiply like their matrix."""
    ish = [(), (1,), (2,)][rng.integers(3)]
    if rng.random() < 0.5:
        l = float(np.exp(rng.normal(0, 0.5)))
        k = covfuncs.ExpQuad(ish, lengthscales=l)
        d = ("expquad", l)
    else:
        nu = [0.5, 1.5, 2.5, 3.5][rng.integers(4)]
        l = float(np.exp(rng.normal(0, 0.5)))
        k = covfuncs.Matern(ish, nu=nu, lengthscales=l)
        d = ("matern", nu, l)
    c = float(np.exp(rng.normal()))
    k2 = covfuncs.RatQuad(ish, lengthscale=0.7)
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    _, x0 = points(rng, (n,), ish)
    _, x1 = points(rng, (m,), ish)
    mon.describe(ish=ish, k=d, n=n, m=m, dtypes=(str(x0.dtype), str(x1.dtype)))
    v = rng.standard_normal(m)
    K = k.matrix(x0, x1)
    L = k.linop(x0, x1)
    mon.close("lazy-matvec", L @ v, K @ v, 1e-7, str(d))
    mon.close("lazy-matvec-column", L @ v[:, None], (K @ v)[:, None], 1e-7, str(d))
    mon.close("lazy-matvec-integer", L @ np.arange(m), K @ np.arange(m), 1e-7, str(d))
    w = rng.standard_normal(n)
    mon.close("lazy-self", k.linop(x0) @ w, k.matrix(x0) @ w, 1e-7, str(d))
    mon.close("lazy-transposed", L.T @ w, K.T @ w, 1e-7, str(d))
    mon.close("lazy-scaled", (c * k).linop(x0, x1) @ v, c * K @ v, 1e-7, str(d))
    mon.close("lazy-sum", (k + k2).linop(x0, x1) @ v, (K + k2.matrix(x0, x1)) @ v, 1e-7, str(d))


@scenario(P, "refusals", quick=120)
def refusals(mon, rng):
    """Inputs of the wrong shape and impossible parameters are refused."""
    ish = [(2,), (3,)][rng.integers(2)]
    k, _, desc, _ = expression(rng, ish)
    bad = rng.standard_normal((4, ish[0] + 1))
    good = rng.standard_normal((4,) + ish)
    mon.describe(ish=ish, k=desc)
    for name, f in (
        ("call", lambda: k(bad, None)), ("call1", lambda: k(good, bad)),
        ("call-batch", lambda: k(good, rng.standard_normal((3,) + ish))),
        ("matrix", lambda: k.matrix(bad)), ("linop", lambda: k.linop(good, bad)),
        ("sum", lambda: k + covfuncs.ExpQuad((ish[0] + 1,))),
        ("product", lambda: k * covfuncs.ExpQuad((ish[0] + 1,))),
    ):
        try:
            f()
        except (ValueError, TypeError):
            mon.check("refused", True)
        else:
            mon.check("refused", False, f"{name} accepted mismatching shapes")
    for name, f in (
        ("lengthscale", lambda: covfuncs.ExpQuad(ish, lengthscales=-1.0)),
        ("lengthscale0", lambda: covfuncs.Matern(ish, nu=1.5, lengthscales=0.0)),
        ("nu", lambda: covfuncs.Matern(ish, nu=-0.5)),
        ("nu0", lambda: covfuncs.Matern(ish, nu=0.0)),
        ("alpha", lambda: covfuncs.RatQuad(ish, alpha=0.0)),
        ("noise", lambda: covfuncs.WhiteNoise(ish, sigma_sq=-1.0)),
    ):
        try:
            f()
        except ValueError:
            mon.check("parameter-refused", True)
        else:
            mon.check("parameter-refused", False, f"{name} accepted")

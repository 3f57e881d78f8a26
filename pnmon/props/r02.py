"""R02: the parts of a random variable describe one and the same distribution."""
import numpy as np
import scipy.stats

import probnum
from probnum import linops, randvars

from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense, normal, spd

P = "R02"
SIZES = [(), (1,), (3,), (2, 3), (1, 1), (4, 1, 2)]


def moments_of_samples(mon, X, mean, cov, what, z=6.5):
    """Sample moments agree with the claimed ones within ``z`` standard errors."""
    N = X.shape[0]
    X = X.reshape(N, -1)
    mean, cov = np.asarray(mean, float).ravel(), np.atleast_2d(np.asarray(cov, float))
    se = np.sqrt(np.diag(cov) / N)
    err = np.abs(X.mean(0) - mean)
    mon.check("sample-mean", np.all(err <= z * se + 1e-9), f"{what}: {err} vs standard errors {se}")
    d = X - mean
    emp = d.T @ d / N
    v = np.diag(cov)
    se2 = np.sqrt((np.outer(v, v) + cov**2) / N)
    mon.check("sample-covariance", np.all(np.abs(emp - cov) <= z * se2 + 1e-9),
              f"{what}: empirical {emp} claimed {cov}")


@scenario(P, "univariate-normal", quick=500)
def univariate(mon, rng):
    m, v = float(rng.normal(scale=3)), float(np.exp(rng.uniform(-6, 4)))
    rv = randvars.Normal(m, v) if rng.random() < 0.7 else randvars.Normal(np.float64(m), np.float64(v))
    s = np.sqrt(v)
    mon.describe(mean=m, var=v)
    x = m + s * rng.normal(size=5) * 2
    ref = scipy.stats.norm(m, s)
    z = (x - m) / s
    mon.close("pdf", rv.pdf(x), np.exp(-0.5 * z**2) / (s * np.sqrt(2 * np.pi)), 1e-10)
    mon.close("logpdf", rv.logpdf(x), -0.5 * z**2 - np.log(s * np.sqrt(2 * np.pi)), 1e-10)
    mon.close("cdf", rv.cdf(x), ref.cdf(x), 1e-10)
    mon.close("logcdf", rv.logcdf(x), ref.logcdf(x), 1e-10)
    mon.close("pdf-scalar", rv.pdf(x[0]), np.exp(-0.5 * z[0] ** 2) / (s * np.sqrt(2 * np.pi)), 1e-10)
    h = 1e-4 * s
    mon.close("cdf-derivative", (rv.cdf(x + h) - rv.cdf(x - h)) / (2 * h) * s, rv.pdf(x) * s, 1e-5)
    p = float(rng.uniform(0.001, 0.999))
    q = rv.quantile(p)
    mon.close("quantile-inverts-cdf", rv.cdf(q), p, 1e-9)
    mon.close("median", rv.median, rv.quantile(0.5), 1e-9 * max(1, s))
    mon.close("mode", rv.mode, m, 1e-12)
    mon.close("mean", rv.mean, m, 1e-12)
    mon.close("var", rv.var, v, 1e-12)
    mon.close("std", rv.std, s, 1e-12)
    mon.close("cov", rv.cov, v, 1e-12)
    mon.close("entropy", rv.entropy, 0.5 * np.log(2 * np.pi * np.e * v), 1e-10)
    grid = np.linspace(m - 9 * s, m + 9 * s, 2001)
    mon.close("pdf-integrates-to-one", np.trapz(rv.pdf(grid), grid), 1.0, 1e-6)
    mon.check("in-support", bool(rv.in_support(x[0])) is True)
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), 2000)
    moments_of_samples(mon, X, m, v, "univariate normal")


@scenario(P, "multivariate-normal", quick=700)
def multivariate(mon, rng):
    g = normal(rng)
    if np.shape(g.mean) == ():
        raise Skip
    rv, m, C = g.rv, g.mean, g.cov
    n = m.size
    mon.describe(kind=g.kind, shape=m.shape)
    L = np.linalg.cholesky(C)
    # one point, and batches of points
    for batch in [(), (4,)]:
        x = (m.ravel() + (L @ rng.standard_normal(batch + (n, 1)))[..., 0]).reshape(batch + m.shape)
        z = np.linalg.solve(L, (x.reshape(batch + (n,)) - m.ravel()).reshape(-1, n).T).T.reshape(batch + (n,))
        lp = -0.5 * np.sum(z**2, -1) - np.log(np.diag(L)).sum() - 0.5 * n * np.log(2 * np.pi)
        mon.close("logpdf", rv.logpdf(x), lp, 1e-8, f"batch {batch}")
        mon.close("pdf", rv.pdf(x), np.exp(lp), 1e-8, f"batch {batch}")
    mon.close("entropy", rv.entropy, 0.5 * n * np.log(2 * np.pi * np.e) + np.log(np.diag(L)).sum(), 1e-8)
    mon.close("mode", dense(rv.mode), m, 1e-12)
    mon.close("var", rv.var, np.diag(C).reshape(m.shape), 1e-10)
    mon.close("std", rv.std, np.sqrt(np.diag(C)).reshape(m.shape), 1e-10)
    mon.close("dense-mean", rv.dense_mean, m, 1e-12)
    mon.close("dense-cov", rv.dense_cov, C, 1e-10)
    mon.check("in-support", bool(rv.in_support(m)) is True)
    mon.check("in-support", bool(rv.in_support(np.full(m.shape, np.nan))) is False)
    if n <= 3 and rng.random() < 0.3:
        x = m + np.sqrt(np.diag(C)).reshape(m.shape) * rng.uniform(-1, 1.5, m.shape)
        want = scipy.stats.multivariate_normal(m.ravel(), C).cdf(x.ravel())
        mon.close("cdf", rv.cdf(x), want, 2e-3)
        mon.close("logcdf", np.exp(rv.logcdf(x)), want, 2e-3)
    if np.count_nonzero(C - np.diag(np.diag(C))) == 0:
        x = m + rng.uniform(-1, 1, m.shape)
        mon.close("cdf-of-independent", rv.cdf(x),
                  np.prod(scipy.stats.norm(m, np.sqrt(np.diag(C)).reshape(m.shape)).cdf(x)), 2e-3)


@scenario(P, "normal-cholesky", quick=500)
def cholesky(mon, rng):
    g = normal(rng, precompute=False)
    rv = g.rv
    n = max(1, g.mean.size)
    damp = float(rng.choice([0.0, 1e-12, 1e-3, 0.25]))
    mon.describe(kind=g.kind, shape=g.mean.shape, damping=damp)
    C = np.atleast_2d(g.cov)
    mon.check("cholesky-not-precomputed", rv.cov_cholesky_is_precomputed is False)
    if rng.random() < 0.5:
        rv.precompute_cov_cholesky(damping_factor=damp)
        structured = g.kind.startswith(("kron", "symkron", "idkron"))
        S = np.atleast_2d(dense(rv.cov_cholesky))
        if not structured:
            mon.close("cholesky-with-damping", S @ S.T, C + damp * np.eye(n), 1e-9, f"damping {damp}")
        elif damp <= 1e-11:
            mon.close("cholesky-with-damping", S @ S.T, C, 1e-8)
        else:
            # the factors are damped: the product exceeds C by a positive definite amount of that order
            D = S @ S.T - C
            w = np.linalg.eigvalsh(0.5 * (D + D.T))
            top = np.linalg.norm(C, 2)
            if g.kind.startswith("kron"):
                mon.check("structured-damping-positive", w[0] > 0, f"damping {damp}: smallest {w[0]}")
            mon.event("structured-damping")
    else:
        with probnum.config(covariance_inversion_damping=1e-12):
            S = np.atleast_2d(dense(rv.cov_cholesky))
        mon.close("cholesky", S @ S.T, C, 1e-8)
    mon.check("cholesky-lower-triangular", np.max(np.abs(np.triu(S, 1)), initial=0) < 1e-12)
    mon.check("cholesky-precomputed", rv.cov_cholesky_is_precomputed is True)
    mon.close("cov-unchanged", dense(rv.cov), g.cov, 1e-12)


@scenario(P, "singular-kronecker", quick=60)
def singular_kronecker(mon, rng):
    """Covariances with a rank-deficient Kronecker factor: damping makes the Cholesky factor exist."""
    m, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    which = int(rng.integers(3))
    fac = []
    for i, k in enumerate((m, n)):
        r = int(rng.integers(0, k)) if which in (i, 2) else k
        F = rng.standard_normal((k, r))
        fac.append(F @ F.T if r < k else spd(rng, k))
    C = np.kron(*fac)
    rv = randvars.Normal(rng.standard_normal((m, n)), linops.Kronecker(*[f.copy() for f in fac]))
    damp = float(rng.choice([1e-12, 1e-6, 1e-3]))
    mon.describe(m=m, n=n, which=which, damping=damp)
    top = max(np.linalg.norm(f, 2) for f in fac)
    if damp < 1e-10 * top:
        damp = 1e-6
    if rng.random() < 0.5:
        rv.precompute_cov_cholesky(damping_factor=damp)
        S = dense(rv.cov_cholesky)
    else:
        with probnum.config(covariance_inversion_damping=damp):
            S = dense(rv.cov_cholesky)
    err = np.linalg.norm(S @ S.T - C, 2)
    mon.check("singular-factor-cholesky", np.isfinite(err) and err <= 4 * damp * (top + damp) + 1e-12 * top**2, f"error {err}, damping {damp}")
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), 5)
    mon.check("singular-factor-samples", X.shape == (5, m, n) and np.all(np.isfinite(X)))


@scenario(P, "sample-shapes", quick=600)
def shapes(mon, rng):
    """A sample of size s of a variable of shape d has shape s + d."""
    k = rng.integers(5)
    if k <= 1:
        g = normal(rng)
        rv, what = g.rv, "normal:" + g.kind
        if what.startswith("normal:symkron"):
            what = "normal:symkron"
    elif k == 2:
        sh = [(), (2,), (2, 3)][rng.integers(3)]
        rv, what = randvars.Constant(rng.standard_normal(sh) if sh else 1.5), "constant"
    elif k == 3:
        n = int(rng.integers(1, 6))
        sh = [(), (2,), (2, 2)][rng.integers(3)]
        p = rng.dirichlet(np.ones(n))
        rv, what = randvars.Categorical(p, rng.standard_normal((n,) + sh)), "categorical"
    else:
        d = [scipy.stats.beta(2.0, 3.0), scipy.stats.poisson(3.0), scipy.stats.gamma(2.0),
             scipy.stats.expon(), scipy.stats.binom(5, 0.3)][rng.integers(5)]
        rv, what = randvars.asrandvar(d), "scipy:" + d.dist.name
    size = SIZES[rng.integers(len(SIZES))]
    arg = size
    if len(size) == 1 and rng.random() < 0.5:
        arg = size[0]
    mon.describe(what=what, shape=rv.shape, size=size, int_arg=isinstance(arg, int))
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), arg)
    allowed = [tuple(size) + tuple(rv.shape)]
    if tuple(size) == (1,):
        allowed.append(tuple(rv.shape))  # a single draw may come without a sample axis
    mon.check("sample-shape", np.shape(X) in allowed,
              f"{what}: variable of shape {rv.shape}, size {size}: sample has shape {np.shape(X)}")
    mon.check("sample-dtype", np.asarray(X).dtype == rv.dtype, f"{what}: {np.asarray(X).dtype} vs {rv.dtype}")
    mon.event("sampled:" + what.split("+")[0])


@scenario(P, "sample-moments", quick=400)
def sample_moments(mon, rng):
    g = normal(rng)
    if g.kind.startswith("symkron"):
        raise Skip  # see scenario symmetric-kronecker
    rv = g.rv
    mon.describe(kind=g.kind, shape=g.mean.shape)
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), (40, 50))
    mon.check("sample-shape", X.shape == (40, 50) + g.mean.shape, f"{X.shape}")
    moments_of_samples(mon, X.reshape((2000,) + g.mean.shape), g.mean, g.cov, g.kind)


@scenario(P, "symmetric-kronecker", quick=60)
def symkron(mon, rng):
    """Matrix-variate Gaussians with symmetric-Kronecker covariance: symmetric samples."""
    n = int(rng.integers(1, 4))
    A = spd(rng, n)
    M = rng.standard_normal((n, n))
    M = M + M.T
    rv = randvars.Normal(M.copy(), linops.SymmetricKronecker(linops.Matrix(A.copy())))
    mon.describe(n=n, A=A)
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), 4000)
    mon.close("samples-symmetric", X, np.swapaxes(X, -1, -2), 1e-10)
    K = np.kron(A, A)
    S = np.zeros((n * n, n * n))
    for i in range(n):
        for j in range(n):
            S[i * n + j, i * n + j] += 0.5
            S[i * n + j, j * n + i] += 0.5
    moments_of_samples(mon, X, M, S @ K @ S.T, "symmetric Kronecker")


@scenario(P, "categorical", quick=300)
def categorical(mon, rng):
    n = int(rng.integers(1, 7))
    kind = rng.integers(4)
    if kind == 0:
        support = None
        vals = np.arange(n)
    elif kind == 1:
        vals = rng.permutation(np.arange(10, 30))[:n].astype(float)
        support = vals
    elif kind == 2:
        vals = np.array(["c" * (1 + i % 3) + str(i) for i in rng.permutation(n)])
        support = vals
    else:
        # coordinates are shared between categories: only whole rows identify a category
        pairs = np.array([(a, b) for a in range(3) for b in range(3)], dtype=float)
        vals = rng.permutation(pairs)[:n]
        support = vals
    p = rng.dirichlet(np.ones(n))
    if n > 2 and rng.random() < 0.3:
        p[rng.integers(n)] = 0
        p /= p.sum()
    rv = randvars.Categorical(p.copy(), support)
    mon.describe(n=n, kind=int(kind), p=p)
    mon.close("probabilities", rv.probabilities, p, 1e-14)
    N = 3000
    X = rv.sample(np.random.default_rng(int(rng.integers(1 << 31))), N)
    if kind != 3:
        for i in range(n):
            mon.close("pmf", rv.pmf(vals[i]), p[i], 1e-12)
            f = np.mean(X == vals[i])
            mon.check("sample-frequency", abs(f - p[i]) <= 6.5 * np.sqrt(p[i] * (1 - p[i]) / N) + 1e-12,
                      f"category {i}: frequency {f}, probability {p[i]}")
        other = "zz" if kind == 2 else (vals.dtype.type(99))
        if kind != 2:
            mon.close("pmf-outside-support", rv.pmf(other), 0.0, 0.0)
        mon.check("mode", rv.mode == vals[np.argmax(p)])
    else:
        for i in range(n):
            mon.close("pmf", rv.pmf(vals[i]), p[i], 1e-12)
            f = np.mean(np.all(X == vals[i], axis=1))
            mon.check("sample-frequency", abs(f - p[i]) <= 6.5 * np.sqrt(p[i] * (1 - p[i]) / N) + 1e-12,
                      f"category {i}: frequency {f}, probability {p[i]}")
        mon.close("mode", rv.mode, vals[np.argmax(p)], 0.0)
    r = rv.resample(np.random.default_rng(3))
    for i in range(n):
        if kind != 3:
            share = np.mean(r.support == vals[i])
        else:
            share = np.mean(np.all(r.support == vals[i], axis=1))
        mon.close("pmf-of-resampled", r.pmf(vals[i]), share, 1e-12)
    mon.close("resampled-uniform", r.probabilities, np.full(n, 1 / n), 1e-12)
    mon.check("resampled-from-support",
              all(any(np.array_equal(a, b) and p[j] > 0 for j, b in enumerate(vals)) for a in r.support))


@scenario(P, "constants", quick=200)
def constants(mon, rng):
    sh = [(), (1,), (3,), (2, 2)][rng.integers(4)]
    c = rng.standard_normal(sh) if sh else float(rng.standard_normal())
    if rng.random() < 0.3:
        c = rng.integers(-3, 4, sh) if sh else int(rng.integers(-3, 4))
    rv = randvars.Constant(c)
    mon.describe(shape=sh, dtype=str(np.asarray(c).dtype))
    a = np.asarray(c)
    mon.close("pmf", rv.pmf(a), 1.0, 0.0)
    mon.close("pmf", rv.pmf(a + 1), 0.0, 0.0)
    mon.close("cdf", rv.cdf(a), 1.0, 0.0)
    mon.close("cdf", rv.cdf(a + 1), 1.0, 0.0)
    mon.close("cdf", rv.cdf(a - 1), 0.0, 0.0)
    if a.size > 1:
        # one coordinate below, or above, the constant
        e = np.zeros(sh, dtype=a.dtype)
        e.flat[int(rng.integers(a.size))] = 1
        for x, c_, p_ in ((a - e, 0.0, 0.0), (a + e, 1.0, 0.0), (a + 1 - 2 * e, 0.0, 0.0)):
            mon.close("cdf-one-coordinate", rv.cdf(x), c_, 0.0)
            mon.close("pmf-one-coordinate", rv.pmf(x), p_, 0.0)
            mon.check("in-support-one-coordinate", bool(rv.in_support(x)) is False)
    if not sh:
        mon.close("median", rv.median, a, 0.0)
    with np.errstate(divide="ignore"):
        mon.check("logcdf", rv.logcdf(a) == 0 and rv.logcdf(a - 1) == -np.inf)
    mon.close("logpmf", rv.logpmf(a), 0.0, 0.0)
    mon.close("mean", rv.mean, a.astype(float), 0.0)
    mon.close("mode", rv.mode, a, 0.0)
    mon.close("var", rv.var, np.zeros(sh), 0.0)
    mon.close("std", rv.std, np.zeros(sh), 0.0)
    mon.close("cov", dense(rv.cov), np.zeros((a.size, a.size) if sh else ()), 0.0)
    mon.check("in-support", bool(rv.in_support(a)) is True)
    mon.check("in-support", bool(rv.in_support(a + 1)) is False)
    X = rv.sample(np.random.default_rng(1), (2, 3))
    mon.close("sample", X, np.broadcast_to(a, (2, 3) + sh), 0.0)


@scenario(P, "scipy-wrapped", quick=250)
def scipy_wrapped(mon, rng):
    a, b = float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 4))
    cand = [
        scipy.stats.beta(a, b), scipy.stats.gamma(a, scale=b), scipy.stats.expon(scale=a),
        scipy.stats.uniform(a, b), scipy.stats.t(5 + a), scipy.stats.lognorm(0.3),
        scipy.stats.poisson(a), scipy.stats.binom(6, min(0.9, a / 5)), scipy.stats.geom(0.3),
        scipy.stats.norm(a, b), scipy.stats.dirichlet([a, b, 1.0]), scipy.stats.multinomial(4, [0.3, 0.7]),
        scipy.stats.multivariate_normal([a, b], [[2.0, 0.3], [0.3, 1.0]]),
    ]
    i = int(rng.integers(len(cand)))
    d = cand[i]
    rv = randvars.asrandvar(d)
    name = getattr(getattr(d, "dist", d), "name", type(d).__name__)
    mon.describe(dist=name, a=a, b=b)
    multi = i in (10, 11, 12)
    mon.close("mean", rv.mean, d.mean() if i != 12 else d.mean, 1e-10, name)
    if not multi:
        mon.close("var", rv.var, d.var(), 1e-10, name)
        mon.close("std", rv.std, d.std(), 1e-10, name)
        if i != 9:
            mon.close("median", rv.median, d.median(), 1e-10, name)
        mon.close("entropy", rv.entropy, d.entropy(), 1e-8, name)
        x = d.rvs(random_state=int(rng.integers(1 << 30)))
        mon.close("cdf", rv.cdf(x), d.cdf(x), 1e-10, name)
        mon.close("logcdf", rv.logcdf(x), d.logcdf(x), 1e-10, name)
        p = float(rng.uniform(0.05, 0.95))
        mon.close("quantile", rv.quantile(p), d.ppf(p), 1e-10, name)
        mon.check("in-support", bool(rv.in_support(x)) is True, name)
        if i in (6, 7, 8):
            mon.close("pmf", rv.pmf(x), d.pmf(x), 1e-12, name)
            mon.close("logpmf", rv.logpmf(x), d.logpmf(x), 1e-12, name)
        else:
            mon.close("pdf", rv.pdf(x), d.pdf(x), 1e-12, name)
            mon.close("logpdf", rv.logpdf(x), d.logpdf(x), 1e-10, name)
        s1 = rv.sample(np.random.default_rng(5), (3, 2))
        mon.close("sample", s1, d.rvs(size=(3, 2), random_state=np.random.default_rng(5)), 1e-12, name)
    elif i == 12:
        mon.check("wrapped-normal-is-normal", isinstance(rv, randvars.Normal))
        mon.close("cov", rv.cov, [[2.0, 0.3], [0.3, 1.0]], 1e-10)

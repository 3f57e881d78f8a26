"""Q01: kernel embeddings are the integrals of the kernel, and measures are what they denote."""
import numpy as np
import scipy.stats
from numpy.polynomial.hermite_e import hermegauss
from numpy.polynomial.legendre import leggauss
from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.randprocs.covfuncs import ExpQuad, Matern, ProductMatern

from pnmon.core import Skip, scenario

P = "Q01"
GX, GW = leggauss(24)


def panels(a, b, breaks, width):
    pts = [a] + sorted(float(t) for t in breaks if a < t < b) + [b]
    out = []
    for l, r in zip(pts[:-1], pts[1:]):
        k = int(min(max(np.ceil((r - l) / width), 1), 60))
        out += list(np.linspace(l, r, k + 1)[:-1])
    return np.array(out + [b])


def integrate(f, a, b, breaks=(), width=1.0):
    p = panels(a, b, breaks, width)
    h = np.diff(p) / 2
    c = (p[1:] + p[:-1]) / 2
    x = c[:, None] + h[:, None] * GX
    return float(np.sum(f(x.ravel()).reshape(x.shape) * GW * h[:, None]))


def k1(kind, nu, ell):
    """Univariate kernels, written from their definition."""
    if kind == "expquad":
        return lambda r: np.exp(-0.5 * (r / ell) ** 2)
    t = lambda r: np.sqrt(2 * nu) * np.abs(r) / ell
    return {0.5: lambda r: np.exp(-t(r)), 1.5: lambda r: (1 + t(r)) * np.exp(-t(r)),
            2.5: lambda r: (1 + t(r) + t(r) ** 2 / 3) * np.exp(-t(r)),
            3.5: lambda r: (1 + t(r) + 2 * t(r) ** 2 / 5 + t(r) ** 3 / 15) * np.exp(-t(r))}[nu]


def rel(mon, rule, got, want, tol, floor, msg):
    e = np.abs(np.asarray(got) - np.asarray(want)).max()
    mon.check(rule, e <= tol * np.abs(want).max() + floor, f"{msg}: {np.asarray(got)!r}, integral {np.asarray(want)!r}")


def domain(rng, d):
    """Bounds of very different widths and positions, also integers and scalars."""
    style = str(rng.choice(["array", "scalar", "int", "tuple"]))
    if style == "scalar" or style == "int":
        a = float(rng.uniform(-3, 3)) if style == "scalar" else int(rng.integers(-3, 3))
        w = float(10 ** rng.uniform(-1.5, 1)) if style == "scalar" else int(rng.integers(1, 4))
        return style, (a, a + w), np.full(d, a, float), np.full(d, a + w, float)
    a = rng.uniform(-3, 3, d)
    b = a + 10 ** rng.uniform(-1.5, 1, d)
    return style, (a, b), a, b


@scenario(P, "lebesgue", quick=500)
def lebesgue(mon, rng):
    d = int(rng.integers(1, 5))
    style, dom, a, b = domain(rng, d)
    if style in ("array", "tuple") and rng.random() < 0.5:
        measure_kw = {}
    else:
        measure_kw = dict(input_dim=d)
    norm = bool(rng.random() < 0.5)
    kind = str(rng.choice(["expquad", "matern", "product"]))
    nus = rng.choice([0.5, 1.5, 2.5, 3.5], d)
    ells = 10 ** rng.uniform(-1, 1, d)
    if kind == "expquad":
        ells[:] = ells[0]
        kern = ExpQuad(input_shape=(d,), lengthscales=ells[0])
    elif kind == "matern":
        if d > 1:
            kind = "product"
        else:
            kern = Matern(input_shape=(1,), nu=nus[0], lengthscales=ells[0])
    if kind == "product":
        if rng.random() < 0.3:
            nus[:], ells[:] = nus[0], ells[0]
            kern = ProductMatern(input_shape=(d,), lengthscales=float(ells[0]), nus=float(nus[0]))
        else:
            kern = ProductMatern(input_shape=(d,), lengthscales=ells.copy(), nus=nus.copy())
    meas = LebesgueMeasure(domain=dom, normalized=norm, **measure_kw)
    mon.describe(d=d, style=style, a=a.round(4).tolist(), b=b.round(4).tolist(), norm=norm, kind=kind, nus=nus.tolist(), ells=ells.round(4).tolist())
    emb = KernelEmbedding(kern, meas)
    n = int(rng.integers(1, 5))
    x = a + (b - a) * rng.uniform(0, 1, (n, d))
    if rng.random() < 0.3:
        x[0] = a if rng.random() < 0.5 else b
    c = 1 / np.prod(b - a) if norm else 1.0
    want = np.full(n, c)
    kv = c * c
    for j in range(d):
        f = k1("expquad" if kind == "expquad" else "matern", nus[j], ells[j])
        w = ells[j]
        col = np.array([integrate(lambda t: f(t - x[i, j]), a[j], b[j], [x[i, j]], w) for i in range(n)])
        want *= col
        r = b[j] - a[j]
        kv *= integrate(lambda t: 2 * (r - t) * f(t), 0.0, r, (), w)
    got = emb.kernel_mean(x)
    mon.check("shape", np.shape(got) == (n,), f"{np.shape(got)}")
    # the closed forms cancel for domains short against the lengthscale
    lose = np.prod(np.maximum(1.0, ells / (b - a)))
    rel(mon, "kernel-mean", got, want, 1e-9 * lose**3, 0, f"at {x.tolist()}")
    gv = emb.kernel_variance()
    mon.check("scalar", np.ndim(gv) == 0)
    rel(mon, "kernel-variance", gv, kv, 1e-9 * lose**4, 0, "")
    sel = int(rng.integers(n))
    rel(mon, "pointwise", emb.kernel_mean(x[sel:sel + 1])[0], got[sel], 1e-12, 0, "evaluation of a single point")


@scenario(P, "gauss", quick=400)
def gauss(mon, rng):
    d = int(rng.integers(1, 4))
    ell = float(10 ** rng.uniform(-0.6, 1))
    form = str(rng.choice(["full", "diag", "scalar", "broadcast", "nearly"]))
    m = rng.uniform(-2, 2, d)
    sd = 10 ** rng.uniform(-1, 0.5, d)
    C = np.diag(sd**2)
    if form == "scalar":
        d, m, C = 1, m[:1], C[:1, :1]
        meas = GaussianMeasure(mean=float(m[0]), cov=float(C[0, 0]))
    elif form == "broadcast":
        m, C = np.full(d, m[0]), C[0, 0] * np.eye(d)
        meas = GaussianMeasure(mean=float(m[0]), cov=float(C[0, 0]), input_dim=d)
    else:
        if form in ("full", "nearly"):
            q, _ = np.linalg.qr(rng.standard_normal((d, d)))
            C = q @ C @ q.T
            C = (C + C.T) / 2
            if form == "nearly" and d > 1:
                C = np.diag(sd**2)
                C[0, 1] = C[1, 0] = 0.3 * sd[0] * sd[1]
        meas = GaussianMeasure(mean=m.copy(), cov=C.copy())
    mon.describe(d=d, form=form, ell=round(ell, 4), mean=m.round(3).tolist(), cov=C.round(4).tolist())
    kern = ExpQuad(input_shape=(d,), lengthscales=ell)
    emb = KernelEmbedding(kern, meas)
    n = int(rng.integers(1, 4))
    x = m + rng.standard_normal((n, d)) @ np.linalg.cholesky(C).T * 1.5
    got = emb.kernel_mean(x)
    mon.check("shape", np.shape(got) == (n,))
    # Fubini in the eigenbasis: the kernel is isotropic, so the integrals factorise there
    w, V = np.linalg.eigh(C)
    u = (x - m) @ V
    want = np.ones(n)
    kv = 1.0
    f = lambda r: np.exp(-0.5 * (r / ell) ** 2)
    for j in range(d):
        s = np.sqrt(w[j])
        g = lambda t: np.exp(-0.5 * (t / s) ** 2) / np.sqrt(2 * np.pi) / s
        wd = min(s, ell)
        want *= [integrate(lambda t: f(t - u[i, j]) * g(t), -9 * s, 9 * s, [u[i, j]], wd) for i in range(n)]
        g2 = lambda t: np.exp(-0.25 * (t / s) ** 2) / np.sqrt(4 * np.pi) / s
        kv *= integrate(lambda t: f(t) * g2(t), -13 * s, 13 * s, [0.0], wd)
    rel(mon, "kernel-mean", got, want, 1e-7, 1e-14, f"at {x.tolist()}")
    rel(mon, "kernel-variance", emb.kernel_variance(), kv, 1e-7, 1e-14, "")
    # the measure itself
    xs = m + rng.standard_normal((3, d))
    pdf = scipy.stats.multivariate_normal(m, C).pdf(xs)
    rel(mon, "density", meas(xs), np.atleast_1d(pdf), 1e-9, 1e-300, "")
    mon.check("domain", np.all(meas.domain[0] == -np.inf) and np.all(meas.domain[1] == np.inf) and meas.input_dim == d)
    sample_law(mon, rng, meas, m, C)


def sample_law(mon, rng, meas, m, C):
    N = 2000
    seed = int(rng.integers(1 << 30))
    X = meas.sample(N, rng=np.random.default_rng(seed))
    d = len(m)
    mon.check("sample-shape", X.shape == (N, d), f"{X.shape}")
    sd = np.sqrt(np.diag(C))
    z = np.abs(X.mean(0) - m) / sd * np.sqrt(N)
    mon.check("sample-mean", z.max() < 6.5, f"mean {X.mean(0)}, expected {m}")
    R = np.cov(X.T).reshape(d, d)
    e = np.abs(R - C) / np.outer(sd, sd)
    mon.check("sample-cov", e.max() < 7 * np.sqrt(2 / N) + 0.05, f"covariance {R}, expected {C}")
    mon.check("reproducible", np.array_equal(X, meas.sample(N, rng=np.random.default_rng(seed))))
    one = meas.sample(1, rng=np.random.default_rng(seed))
    mon.check("sample-one", one.shape == (1, d))


@scenario(P, "lebesgue-measure", quick=150)
def leb(mon, rng):
    d = int(rng.integers(1, 4))
    style, dom, a, b = domain(rng, d)
    norm = bool(rng.random() < 0.5)
    mon.describe(d=d, style=style, a=a.round(4).tolist(), b=b.round(4).tolist(), norm=norm)
    meas = LebesgueMeasure(domain=dom, input_dim=d, normalized=norm)
    mon.check("domain", np.array_equal(meas.domain[0], a) and np.array_equal(meas.domain[1], b) and meas.input_dim == d and meas.normalized == norm)
    x = a + (b - a) * rng.uniform(size=(4, d))
    rel(mon, "density", meas(x), np.full(4, 1 / np.prod(b - a) if norm else 1.0), 1e-12, 0, "")
    X = meas.sample(500, rng=np.random.default_rng(int(rng.integers(1 << 30))))
    mon.check("inside", np.all(X >= a) and np.all(X <= b))
    sample_law(mon, rng, meas, (a + b) / 2, np.diag((b - a) ** 2 / 12))


@scenario(P, "refusals", quick=80)
def refusals(mon, rng):
    d = int(rng.integers(2, 4))
    G = GaussianMeasure(np.zeros(d), np.eye(d))
    L = LebesgueMeasure((0.0, 1.0), input_dim=d)
    cases = {
        "kernel-dim": (lambda: KernelEmbedding(ExpQuad(input_shape=(d + 1,)), G), ValueError),
        "matern-nu": (lambda: KernelEmbedding(Matern(input_shape=(1,), nu=0.7), LebesgueMeasure((0.0, 1.0))).kernel_mean(np.zeros((1, 1))), NotImplementedError),
        "matern-dim": (lambda: KernelEmbedding(Matern(input_shape=(d,), nu=1.5), L).kernel_mean(np.zeros((1, d))), NotImplementedError),
        "matern-gauss": (lambda: KernelEmbedding(Matern(input_shape=(d,), nu=1.5), G), NotImplementedError),
        "scaled": (lambda: KernelEmbedding(2.0 * ExpQuad(input_shape=(d,)), L), NotImplementedError),
        "lengthscales": (lambda: KernelEmbedding(ExpQuad(input_shape=(d,), lengthscales=np.arange(1.0, d + 1)), L).kernel_mean(np.zeros((1, d))), ValueError),
        "empty": (lambda: LebesgueMeasure((1.0, 0.0)), ValueError),
        "empty-dim": (lambda: LebesgueMeasure((np.zeros(d), np.r_[np.ones(d - 1), 0.0])), ValueError),
        "lengths": (lambda: LebesgueMeasure((np.zeros(d), np.ones(d + 1))), ValueError),
        "dim": (lambda: LebesgueMeasure((np.zeros(d), np.ones(d)), input_dim=d + 1), ValueError),
        "triple": (lambda: LebesgueMeasure((0.0, 0.5, 1.0)), ValueError),
        "matrix": (lambda: LebesgueMeasure((np.zeros((d, 1)), np.ones((d, 1)))), ValueError),
        "zero-dim": (lambda: LebesgueMeasure((0.0, 1.0), input_dim=0), ValueError),
    }
    k = list(cases)[int(rng.integers(len(cases)))]
    mon.describe(case=k, d=d)
    try:
        cases[k][0]()
    except cases[k][1]:
        mon.check("refused", True)
    else:
        mon.check("refused", False, k)

"""Z01: zoo problems for quadrature and linear algebra are what they claim to be."""
import itertools

import numpy as np
import scipy.sparse
import scipy.stats
from probnum import linops, randvars
from probnum.problems.zoo import linalg as zl
from probnum.problems.zoo import quad as zq

from pnmon.core import Skip, scenario

P = "Z01"


def gl(n, lo, hi):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (hi - lo) * x + 0.5 * (hi + lo), 0.5 * (hi - lo) * w


def gl_split(n, breaks):
    xs, ws = zip(*[gl(n, a, b) for a, b in zip(breaks[:-1], breaks[1:]) if b > a])
    return np.concatenate(xs), np.concatenate(ws)


def int1(g, breaks, n=60):
    x, w = gl_split(n, breaks)
    return float(w @ g(x))


def tensor(f, rules):
    xs = np.stack([m.ravel() for m in np.meshgrid(*[r[0] for r in rules], indexing="ij")], axis=1)
    w = np.ones(1)
    for r in rules:
        w = np.multiply.outer(w, r[1]).ravel()
    return float(w @ np.asarray(f(xs)).ravel())


GENZ = ("continuous", "cornerpeak", "discontinuous", "gaussian", "oscillatory", "productpeak")


def genz_reference(name, d, a, u):
    """Integrand written down from the definition, and its integral over the unit cube."""
    if name == "continuous":
        fun = lambda x: np.exp(-np.abs(x - u) @ a)
        sol = np.prod([int1(lambda t: np.exp(-a[i] * np.abs(t - u[i])), [0, u[i], 1]) for i in range(d)])
    elif name == "gaussian":
        fun = lambda x: np.exp(-(((x - u) * a) ** 2).sum(1))
        sol = np.prod([int1(lambda t: np.exp(-((a[i] * (t - u[i])) ** 2)), [0, u[i], 1]) for i in range(d)])
    elif name == "productpeak":
        fun = lambda x: np.prod(1 / (a ** -2.0 + (x - u) ** 2), axis=1)
        sol = np.prod(
            [int1(lambda t: 1 / (a[i] ** -2.0 + (t - u[i]) ** 2), [0, u[i] / 2, u[i], (1 + u[i]) / 2, 1], 100) for i in range(d)]
        )
    elif name == "discontinuous":
        fun = lambda x: np.where(np.all(x <= u, axis=1), np.exp(x @ a), 0.0)
        sol = np.prod([int1(lambda t: np.exp(a[i] * t), [0, u[i]]) if u[i] > 0 else 0.0 for i in range(d)])
    elif name == "oscillatory":
        fun = lambda x: np.cos(2 * np.pi * u[0] + x @ a)
        sol = (np.exp(2j * np.pi * u[0]) * np.prod([(np.exp(1j * b) - 1) / (1j * b) for b in a])).real
    else:
        fun = lambda x: (1 + x @ a) ** -(d + 1.0)
        # int_0^1 .. = int_0^inf s^d/d! e^{-s} prod (1-e^{-a_i s})/(a_i s) ds, by the Gamma integral
        g = lambda s: np.exp(-s) / float(np.prod(np.arange(1, d + 1))) * np.prod([-np.expm1(-b * s) / b for b in a], axis=0)
        sol = int1(g, list(np.linspace(0, 60, 41)), 40)
    return fun, sol


def common(mon, rng, p, d, fun, sol, tol=1e-9):
    """Domain, evaluation, solution and refusals of a problem on the unit cube."""
    mon.check("input-dim", p.input_dim == d == p.measure.input_dim)
    lo, hi = p.measure.domain
    mon.close("domain", np.array([lo, hi]), np.array([np.zeros(d), np.ones(d)]), tol=0, msg="unit cube")
    n = int(rng.integers(1, 6))
    x = rng.random((n, d))
    if rng.random() < 0.3:
        x = np.round(x)  # corners are points of the domain
    xc = x.copy()
    v = p.fun(x)
    mon.close("integrand", v, fun(x)[:, None], tol=1e-11, msg=f"at {x.tolist()}")
    mon.check("inputs-intact", np.array_equal(x, xc))
    mon.close("integrand-again", p.fun(x), v, tol=0)
    mon.check("scalar-solution", np.ndim(p.solution) == 0, f"{p.solution!r}")
    mon.close("solution", float(p.solution), float(sol), tol=tol, msg="integral over the measure", scale=max(abs(sol), 1e-6))
    for bad in (np.full((2, d), 0.5) + 0.6, np.full((1, d), -0.01), rng.random((2, d + 1))):
        try:
            p.fun(bad)
            mon.check("refused", False, f"evaluated at {bad.tolist()}")
        except ValueError:
            mon.check("refused", True)


@scenario(P, "genz", quick=400, thorough=8000)
def genz(mon, rng):
    name = str(rng.choice(GENZ))
    d = int(rng.integers(1, 7))
    a = rng.uniform(0.5, 6, d)
    u = rng.uniform(0, 1, d)
    if name == "productpeak":
        a = rng.uniform(0.5, 3, d)
    k = int(rng.integers(4))
    if k == 0:
        u[int(rng.integers(d))] = float(rng.choice([0.0, 1.0]))
    default = bool(rng.random() < 0.2)
    build = getattr(zq, "genz_" + name)
    mon.describe(name=name, d=d, default=default, edge=k == 0)
    if default:
        which = int(rng.integers(3))
        if which == 0:
            p = build(d)
            a, u = np.full(d, 5.0), np.full(d, 0.5)
        elif which == 1:
            u = rng.uniform(0, 1, d)
            a = np.full(d, 5.0)
            p = build(d, u=u)
        else:
            a, u = rng.uniform(0.5, 6, d), np.full(d, 0.5)
            p = build(d, a=a)
    else:
        ac, uc = a.copy(), u.copy()
        p = build(d, a=a, u=u)
        mon.check("parameters-intact", np.array_equal(a, ac) and np.array_equal(u, uc))
    fun, sol = genz_reference(name, d, a, u)
    # the alternating sums of the closed forms cancel: allow for it
    tol = 1e-9
    scale_loss = {"cornerpeak": 2**d, "oscillatory": 2**d}.get(name, 1)
    if scale_loss > 1:
        amp = scale_loss / np.prod(a) * 1e-15 * 50
        mon.close("solution-cancel", float(p.solution), float(sol), tol=amp + 1e-9 * abs(sol), msg=name, scale=0)
        sol = float(p.solution)
    common(mon, rng, p, d, fun, sol, tol)
    for badkw in ({"a": np.ones(d + 1)}, {"u": np.full(d + 1, 0.5)}, {"u": np.full(d, 1.01)}, {"u": np.full(d, -0.01)}):
        try:
            build(d, **badkw)
            mon.check("refused-parameters", False, f"{name}: {badkw}")
        except ValueError:
            mon.check("refused-parameters", True)


@scenario(P, "uniform", quick=120, thorough=3000)
def uniform(mon, rng):
    name = str(rng.choice(["bratley1992", "roos_arnold", "gfunction", "morokoff_caflisch_1", "morokoff_caflisch_2"]))
    d = int(rng.integers(1, 9))
    mon.describe(name=name, d=d)
    i = np.arange(1, d + 1)
    if name == "bratley1992":
        fun = lambda x: sum((-1) ** k * np.prod(x[:, :k], axis=1) for k in i)
        sol = sum((-1.0) ** k * 0.5**k for k in i)
    elif name == "roos_arnold":
        fun, sol = (lambda x: np.prod(np.abs(4 * x - 2), axis=1)), 1.0
    elif name == "gfunction":
        c = (i - 2) / 2
        fun, sol = (lambda x: np.prod((np.abs(4 * x - 2) + c) / (1 + c), axis=1)), 1.0
    elif name == "morokoff_caflisch_1":
        fun, sol = (lambda x: (1 + 1 / d) ** d * np.prod(x, axis=1) ** (1 / d)), 1.0
    else:
        fun, sol = (lambda x: np.prod((d - x) / (d - 0.5), axis=1)), 1.0
    p = getattr(zq, name)(d)
    common(mon, rng, p, d, fun, sol)
    if d <= 2 and name != "morokoff_caflisch_1":
        r = gl_split(30, [0, 0.5, 1])
        mon.close("solution-numerical", float(p.solution), tensor(p.fun, [r] * d), tol=1e-10, msg=name)


@scenario(P, "emukit", quick=60, thorough=1500)
def emukit(mon, rng):
    name = str(rng.choice(["hennig1d", "hennig2d", "sombrero2d", "circulargaussian2d"]))
    default = bool(rng.random() < 0.4)
    mon.describe(name=name, default=default)
    if name == "hennig1d":
        p = zq.hennig1d()
        d, fun = 1, lambda x: np.exp(-x[:, 0] ** 2 - np.sin(3 * x[:, 0]) ** 2)
    elif name == "hennig2d":
        d = 2
        if default:
            c = np.array([[1, 0.5], [0.5, 1]])
            p = zq.hennig2d()
        else:
            S = rng.standard_normal((2, 2))
            c = S @ S.T + 0.1 * np.eye(2)
            p = zq.hennig2d(c)
        fun = lambda x: np.exp(-np.einsum("ni,ij,nj->n", x, c, x) - np.sin(3 * (x**2).sum(1)))
    elif name == "sombrero2d":
        d = 2
        w = 1.0 if default else float(rng.uniform(0.2, 3))
        p = zq.sombrero2d() if default else zq.sombrero2d(w)
        fun = lambda x: np.sinc(w * np.sqrt((x**2).sum(1)))
    else:
        d = 2
        m, v = (0.0, 1.0) if default else (float(rng.uniform(0, 2)), float(rng.uniform(0.2, 2)))
        p = zq.circulargaussian2d() if default else zq.circulargaussian2d(m, v)
        fun = lambda x: (x**2).sum(1) / np.sqrt(2 * np.pi * v) * np.exp(-((np.sqrt((x**2).sum(1)) - m) ** 2) / (2 * v))
    lo, hi = p.measure.domain
    mon.close("domain", np.array([lo, hi]), np.array([np.full(d, -3.0), np.full(d, 3.0)]), tol=0)
    x = rng.uniform(-3, 3, (int(rng.integers(1, 6)), d))
    if rng.random() < 0.3:
        x[0] = 0.0
    with np.errstate(all="ignore"):
        v1 = p.fun(x)
    mon.close("integrand", np.ravel(v1), fun(x), tol=1e-11, msg=name)
    if p.solution is not None:
        br = list(np.linspace(-3, 3, 13))
        with np.errstate(all="ignore"):
            ref = tensor(fun, [gl_split(24, br)] * d)
        mon.close("solution", float(p.solution), ref, tol=1e-6, msg=name)
    else:
        mon.check("no-stale-solution", not default and name != "hennig1d", name)
    bad = {
        "hennig2d": [np.eye(3), np.diag([1.0, -1.0]), np.zeros((2, 2))],
        "sombrero2d": [0.0, -1.0],
        "circulargaussian2d": [-0.5],
    }.get(name, [])
    for b in bad:
        try:
            getattr(zq, name)(b)
            mon.check("refused-parameters", False, f"{name}({b})")
        except ValueError:
            mon.check("refused-parameters", True)


@scenario(P, "gaussian", quick=150, thorough=3000)
def gaussian(mon, rng):
    kind = str(rng.choice(["polynomials", "transformed"]))
    d = int(rng.integers(1, 5))
    if kind == "polynomials":
        r = int(rng.integers(1, 5))
        a = rng.standard_normal((r, d))
        b = rng.integers(0, 6, (r, d))
        var = float(rng.choice([1.0, rng.uniform(0.2, 3)]))
        if rng.random() < 0.15:
            a = None
        if rng.random() < 0.15:
            b = None
        mon.describe(kind=kind, d=d, a=a is not None, b=None if b is None else b.tolist(), var=round(var, 3))
        p = zq.sum_polynomials(d, a=a, b=b, var=var)
        a_ = np.ones((1, d)) if a is None else a
        b_ = np.ones((1, d), dtype=int) if b is None else b
        if a_.shape[0] != b_.shape[0]:
            a_, b_ = np.broadcast_arrays(a_, b_)
        x = rng.standard_normal((int(rng.integers(1, 5)), d))
        ref = sum(np.prod(a_[j] * x ** b_[j], axis=1) for j in range(a_.shape[0]))
        mon.close("integrand", p.fun(x), ref[:, None], tol=1e-10)
        mom = lambda k: 0.0 if k % 2 else var ** (k / 2) * float(np.prod(np.arange(k - 1, 0, -2)))
        sol = sum(np.prod([a_[j, i] * mom(int(b_[j, i])) for i in range(d)]) for j in range(a_.shape[0]))
        mon.close("solution", float(p.solution), float(sol), tol=1e-10, msg=f"Gaussian integral, var={var:.3g}, b={b_.tolist()}")
        mon.close("measure", np.atleast_2d(p.measure.cov), var * np.eye(d), tol=1e-14)
        mon.close("measure-mean", np.atleast_1d(p.measure.mean), np.zeros(d), tol=0)
        for kw in ({"a": np.ones(d)}, {"b": np.ones((1, d + 1))}, {"b": -np.ones((1, d))}, {"a": np.ones((1, d + 1))}):
            try:
                zq.sum_polynomials(d, **kw)
                mon.check("refused-parameters", False, f"{kw}")
            except ValueError:
                mon.check("refused-parameters", True)
        return
    base_name = str(rng.choice(["genz_gaussian", "genz_continuous", "roos_arnold", "genz_oscillatory", "morokoff_caflisch_2"]))
    base = getattr(zq, base_name)(d)
    mk, sk = str(rng.choice(["float", "array"])), str(rng.choice(["float", "array"]))
    mean = float(rng.standard_normal()) if mk == "float" else rng.standard_normal(d)
    std = float(rng.uniform(0.3, 3)) if sk == "float" else rng.uniform(0.3, 3, d)
    mon.describe(kind=kind, base=base_name, d=d, mean=mk, std=sk)
    p = zq.uniform_to_gaussian_quadprob(base, mean=mean, std=std)
    m, s = np.broadcast_to(mean, d), np.broadcast_to(std, d)
    mon.close("measure-mean", np.broadcast_to(p.measure.mean, d), m, tol=1e-14)
    mon.close("measure", np.atleast_2d(p.measure.cov), np.diag(s**2), tol=1e-13)
    u = rng.uniform(0.01, 0.99, (5, d))
    x = scipy.stats.norm.ppf(u) * s + m
    mon.close("integrand", p.fun(x), base.fun(u), tol=1e-9, msg=f"{base_name} at the quantiles")
    mon.close("solution", float(p.solution), float(base.solution), tol=0)
    if d <= 2:
        t, w = gl_split(30, list(np.linspace(0, 1, 5)))
        rule = [(scipy.stats.norm.ppf(t) * s[i] + m[i], w) for i in range(d)]
        mon.close("solution-numerical", float(p.solution), tensor(p.fun, rule), tol=1e-8, msg=base_name)
    for badp in (zq.hennig1d(),):
        try:
            zq.uniform_to_gaussian_quadprob(badp)
            mon.check("refused-domain", False)
        except ValueError:
            mon.check("refused-domain", True)


@scenario(P, "spd-matrices", quick=200, thorough=4000)
def spd_matrices(mon, rng):
    seed = int(rng.integers(2**31))
    kind = str(rng.choice(["dense", "sparse"]))
    d = int(rng.integers(1, 30))
    if kind == "dense":
        spec = None if rng.random() < 0.4 else 10 ** rng.uniform(-3, 3, d)
        mon.describe(kind=kind, d=d, spectrum=spec is not None)
        sc = None if spec is None else spec.copy()
        A = zl.random_spd_matrix(np.random.default_rng(seed), d, spectrum=spec)
        mon.check("spectrum-intact", spec is None or np.array_equal(spec, sc))
        A2 = zl.random_spd_matrix(np.random.default_rng(seed), d, spectrum=spec)
        mon.close("reproducible", A2, A, tol=0)
        mon.check("shape", A.shape == (d, d), f"{A.shape}")
        mon.check("symmetric", np.array_equal(A, A.T))
        ev = np.sort(np.linalg.eigvalsh(A))
        mon.check("positive-definite", ev[0] > 0, f"{ev[0]}")
        if spec is not None:
            mon.close("spectrum", ev, np.sort(spec), tol=1e-12, msg=f"d={d}")
        if d > 3:
            B = zl.random_spd_matrix(np.random.default_rng(seed + 1), d, spectrum=spec)
            mon.check("random", not np.allclose(A, B))
        for bad in (np.zeros(d), -np.ones(d)):
            try:
                zl.random_spd_matrix(np.random.default_rng(0), d, spectrum=bad)
                mon.check("refused", False)
            except ValueError:
                mon.check("refused", True)
        return
    dens = float(rng.choice([0.0, 1.0, rng.random(), rng.random() * 0.2]))
    lo = float(rng.uniform(0.05, 0.6))
    hi = lo + float(rng.uniform(0.1, 1))
    fmt = str(rng.choice(["csr", "csc", "coo", "lil", "dok", "bsr", "dia"]))
    mon.describe(kind=kind, d=d, density=round(dens, 2), format=fmt)
    A = zl.random_sparse_spd_matrix(np.random.default_rng(seed), d, dens, chol_entry_min=lo, chol_entry_max=hi, format=fmt)
    mon.check("format", scipy.sparse.issparse(A) and A.format == fmt, f"{A.format}")
    M = A.toarray()
    mon.close(
        "reproducible",
        zl.random_sparse_spd_matrix(np.random.default_rng(seed), d, dens, chol_entry_min=lo, chol_entry_max=hi, format=fmt).toarray(),
        M, tol=0,
    )
    mon.check("shape", A.shape == (d, d))
    mon.check("symmetric", np.array_equal(M, M.T))
    # exact LL^T elimination: the factor has unit diagonal and entries in [lo, hi] or 0
    L = np.zeros((d, d))
    cond = np.linalg.cond(M)
    if cond > 1e8:
        raise Skip()
    L = np.linalg.cholesky(M)
    e = 1e-14 * cond * d
    mon.check("cholesky-diagonal", np.abs(np.diag(L) - 1).max() <= e, f"{np.diag(L)}")
    off = L[np.tril_indices(d, -1)]
    ok = (np.abs(off) <= e) | ((off >= lo - e) & (off <= hi + e))
    mon.check("cholesky-entries", np.all(ok), f"{off[~ok]} outside [{lo}, {hi}]")
    nnz = int((np.abs(off) > e).sum())
    tot = off.size
    if dens == 0.0:
        mon.check("density", nnz == 0, f"{nnz}")
    elif dens == 1.0:
        mon.check("density", nnz == tot, f"{nnz} of {tot}")
    elif tot >= 20:
        # hypergeometric sampling of positions: far bounds
        mon.check("density", abs(nnz - dens * tot) <= 7 * np.sqrt(tot * dens * (1 - dens)) + 3, f"{nnz} of {tot} at density {dens}")
    for bad in (-0.1, 1.1):
        try:
            zl.random_sparse_spd_matrix(np.random.default_rng(0), d, bad)
            mon.check("refused", False)
        except ValueError:
            mon.check("refused", True)


@scenario(P, "linear-systems", quick=150, thorough=3000)
def systems(mon, rng):
    seed = int(rng.integers(2**31))
    kind = str(rng.choice(["array", "sparse", "linop", "function", "sparse-function"]))
    n = int(rng.integers(1, 8))
    m = n if kind not in ("array", "linop") or rng.random() < 0.6 else n + int(rng.integers(1, 3))
    sol = str(rng.choice(["default", "vector", "matrix", "constant"]))
    if sol == "default":
        srv = None
    elif sol == "vector":
        srv = randvars.Normal(rng.standard_normal(n), np.diag(rng.uniform(0.5, 2, n)))
    elif sol == "constant":
        srv = randvars.Constant(rng.standard_normal(n))
    else:
        srv = randvars.Normal(np.zeros((n, 2)), linops.Kronecker(np.eye(n), np.eye(2)))
    mon.describe(kind=kind, n=n, m=m, solution=sol)
    A = rng.standard_normal((m, n))
    kw = {}
    if kind == "array":
        mat = A
    elif kind == "sparse":
        mat = scipy.sparse.csr_matrix(A)
    elif kind == "linop":
        mat = linops.Matrix(A)
    elif kind == "function":
        mat, kw = zl.random_spd_matrix, dict(dim=n)
    else:
        mat, kw = zl.random_sparse_spd_matrix, dict(dim=n, density=0.4)
    out = [zl.random_linear_system(np.random.default_rng(seed), mat, solution_rv=srv, **kw) for _ in range(2)]
    s, s2 = out
    D = s.A.todense() if isinstance(s.A, linops.LinearOperator) else (s.A.toarray() if scipy.sparse.issparse(s.A) else s.A)
    x, b = np.asarray(s.solution), np.asarray(s.b)
    mon.check("solution-shape", x.shape == ((n, 2) if sol == "matrix" else (n,)), f"{x.shape}")
    mon.close("solves", b, np.asarray(D) @ x, tol=1e-12, msg=kind)
    mon.close("reproducible", np.asarray(s2.solution), x, tol=0)
    mon.close("reproducible-rhs", np.asarray(s2.b), b, tol=0)
    if not kw:
        mon.close("matrix-kept", np.asarray(D), A, tol=0)
        if scipy.sparse.issparse(mat) or isinstance(mat, linops.LinearOperator):
            mon.check("matrix-object", s.A is mat)
    if sol == "constant":
        mon.close("solution-of-rv", x, srv.mean, tol=0)
    bad = randvars.Normal(np.zeros(n + 1), np.eye(n + 1))
    try:
        zl.random_linear_system(np.random.default_rng(0), mat, solution_rv=bad, **kw)
        mon.check("refused", False)
    except ValueError:
        mon.check("refused", True)


class FakeSuiteSparse:
    """Stand-in for the ``requests`` module: an index and archives held in memory."""

    def __init__(self, rows, mats, first_line="1\n"):
        self.rows, self.mats, self.urls = rows, mats, []

    def get(self, url, *args, **kw):
        import io
        import tarfile

        import scipy.io

        self.urls.append(url)
        if url.endswith("ssstats.csv"):
            lines = [b"%d" % len(self.rows), b"18-Nov-2026 10:00:00"] + [",".join(map(str, r)).encode() for r in self.rows]

            class R:
                @staticmethod
                def iter_lines():
                    return iter(lines)

            return R
        group, name = url.rsplit("/", 2)[1:]
        name = name[: -len(".tar.gz")]
        buf = io.BytesIO()
        scipy.io.mmwrite(buf, self.mats[(group, name)])
        raw = buf.getvalue()
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode="w:gz") as tar:
            ti = tarfile.TarInfo(f"{name}/{name}.mtx")
            ti.size = len(raw)
            tar.addfile(ti, io.BytesIO(raw))
        data = out.getvalue()

        class R2:
            headers = {"content-length": str(len(data))}

            @staticmethod
            def iter_content(chunk_size=1):
                return (data[i : i + chunk_size] for i in range(0, len(data), chunk_size))

        return R2


@scenario(P, "suitesparse", quick=25, thorough=400)
def suitesparse(mon, rng):
    import contextlib
    import io
    import sys

    k = int(rng.integers(2, 7))
    rows, mats = [], {}
    for i in range(k):
        n, m = int(rng.integers(1, 25)), int(rng.integers(1, 25))
        M = scipy.sparse.random(n, m, density=0.3, random_state=int(rng.integers(2**31)), format="coo")
        g, nm = f"G{int(rng.integers(3))}", f"m{i if rng.random() < 0.6 else i // 2}"
        if (g, nm) in mats:
            continue
        mats[(g, nm)] = M
        rows.append([g, nm, n, m, M.nnz, 1, 0, int(rng.integers(2)), int(rng.integers(2)), round(float(rng.random()), 3), round(float(rng.random()), 3), "kind"])
    j = int(rng.integers(len(rows)))
    g, nm = rows[j][:2]
    mon.describe(k=len(rows), j=j, rows=[r[:4] for r in rows])
    fake = FakeSuiteSparse(rows, mats)
    old = sys.modules.get("requests")
    sys.modules["requests"] = fake
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            A = zl.suitesparse_matrix(name=nm, group=g)
            try:
                zl.suitesparse_matrix(name="absent", group=g)
                mon.check("refused", False)
            except ValueError:
                mon.check("refused", True)
    finally:
        if old is None:
            del sys.modules["requests"]
        else:
            sys.modules["requests"] = old
    mon.close("matrix", A.todense(), mats[(g, nm)].toarray(), tol=1e-12)
    mon.check("shape", A.shape == (rows[j][2], rows[j][3]))
    v = rng.standard_normal(A.shape[1])
    mon.close("product", A @ v, mats[(g, nm)] @ v, tol=1e-12)
    got = [A.matid, A.group, A.name, A.nnz, A.is2d3d, A.isspd, A.psym, A.nsym, A.kind]
    want = [str(j + 1), g, nm, rows[j][4], bool(rows[j][7]), bool(rows[j][8]), rows[j][9], rows[j][10], "kind"]
    mon.check("attributes", got == want, f"{got} != {want}")
    html = A._repr_html_()
    mon.check("html", nm in html and g in html)

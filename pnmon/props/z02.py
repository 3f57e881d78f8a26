"""Z02: zoo problems for ODEs and state-space models are what they claim to be."""
import numpy as np
import scipy.integrate
import scipy.linalg
import scipy.stats
from probnum import filtsmooth, problems, randprocs, randvars
from probnum.problems.zoo import diffeq as zd
from probnum.problems.zoo import filtsmooth as zf

from pnmon.core import Skip, scenario

P = "Z02"


def fd(f, t, y, h=1e-6):
    y = np.asarray(y, dtype=float)
    J = []
    for i in range(y.size):
        e = np.zeros(y.size)
        e[i] = h * max(1.0, abs(y[i]))
        J.append((np.asarray(f(t, y + e)) - np.asarray(f(t, y - e))) / (2 * e[i]))
    return np.stack(J, axis=-1)


def reference(name, p, y0):
    """Vector field from its published definition."""
    if name == "threebody":
        mu = 0.012277471

        def f(t, y):
            d1 = ((y[0] + mu) ** 2 + y[1] ** 2) ** 1.5
            d2 = ((y[0] - 1 + mu) ** 2 + y[1] ** 2) ** 1.5
            return np.array(
                [
                    y[2],
                    y[3],
                    y[0] + 2 * y[3] - (1 - mu) * (y[0] + mu) / d1 - mu * (y[0] - 1 + mu) / d2,
                    y[1] - 2 * y[2] - (1 - mu) * y[1] / d1 - mu * y[1] / d2,
                ]
            )

    elif name == "vanderpol":
        mu = p
        f = lambda t, y: np.array([y[1], mu * (1 - y[0] ** 2) * y[1] - y[0]])
    elif name == "rigidbody":
        f = lambda t, y: np.array([p[0] * y[1] * y[2], p[1] * y[0] * y[2], p[2] * y[0] * y[1]])
    elif name == "logistic":
        f = lambda t, y: p[0] * y * (1 - y / p[1])
    elif name == "fitzhughnagumo":
        f = lambda t, y: np.array([y[0] - y[0] ** 3 / 3 - y[1] + p[0], (y[0] + p[1] - p[2] * y[1]) / p[3]])
    elif name == "lotkavolterra":
        f = lambda t, y: np.array([p[0] * y[0] - p[1] * y[0] * y[1], -p[2] * y[1] + p[3] * y[0] * y[1]])
    elif name == "seir":
        N = np.sum(y0)
        f = lambda t, y: np.array(
            [-p[1] * y[0] * y[2] / N, p[1] * y[0] * y[2] / N - p[0] * y[1], p[0] * y[1] - p[2] * y[2], p[2] * y[2]]
        )
    elif name == "lorenz63":
        f = lambda t, y: np.array([p[0] * (y[1] - y[0]), y[0] * (p[1] - y[2]) - y[1], y[0] * y[1] - p[2] * y[2]])
    elif name == "lorenz96":
        f = lambda t, y: np.array(
            [(y[(i + 1) % len(y)] - y[i - 2]) * y[i - 1] - y[i] + p[0] for i in range(len(y))]
        )
    return f


DEFAULTS = {
    "threebody": (None, [0.994, 0, 0, -2.00158510637908252240537862224], 0.0, 17.0652165601579625588917206249),
    "vanderpol": (10.0, [2.0, 0.0], 0.0, 30.0),
    "rigidbody": ((-2.0, 1.25, -0.5), [1.0, 0.0, 0.9], 0.0, 20.0),
    "logistic": ((3.0, 1.0), [0.1], 0.0, 2.0),
    "fitzhughnagumo": ((0.2, 0.2, 3.0, 1.0), [1.0, -1.0], 0.0, 20.0),
    "lotkavolterra": ((0.5, 0.05, 0.5, 0.05), [20.0, 20.0], 0.0, 20.0),
    "seir": ((0.3, 0.3, 0.1), [998, 1, 1, 0], 0.0, 200.0),
    "lorenz63": ((10.0, 28.0, 8 / 3), [0.0, 1.0, 1.05], 0.0, 20.0),
    "lorenz96": ((8.0,), [8.0] * 5, 0.0, 30.0),
}
DIM = {"threebody": 4, "vanderpol": 2, "rigidbody": 3, "logistic": 1, "fitzhughnagumo": 2, "lotkavolterra": 2, "seir": 4, "lorenz63": 3}


@scenario(P, "ivps", quick=400, thorough=8000)
def ivps(mon, rng):
    name = str(rng.choice(list(DEFAULTS)))
    p, y0, t0, tmax = DEFAULTS[name]
    y0 = np.array(y0)
    kw = {}
    if name != "threebody" and rng.random() < 0.6:
        p = float(rng.uniform(0.1, 5)) if name == "vanderpol" else tuple(rng.uniform(0.2, 3, len(p)))
        kw["params"] = (p,) if name == "vanderpol" and rng.random() < 0.5 else p
    if rng.random() < 0.6:
        d = int(rng.integers(4, 9)) if name == "lorenz96" else DIM[name]
        y0 = rng.uniform(0.1, 2, d)
        kw["y0"] = y0.copy()
    elif name == "lorenz96":
        d = int(rng.integers(4, 9))
        kw["num_variables"] = d
        y0 = np.full(d, p[0])
    if rng.random() < 0.6:
        t0 = float(rng.uniform(-2, 2))
        kw["t0"] = t0
    if rng.random() < 0.6:
        tmax = t0 + float(rng.uniform(0.5, 2))
        kw["tmax"] = tmax
    mon.describe(name=name, given=sorted(kw))
    ivp = getattr(zd, name)(**kw)
    mon.check("times", ivp.t0 == t0 and abs(ivp.tmax - tmax) <= 1e-14 * abs(tmax), f"{ivp.t0}, {ivp.tmax}")
    mon.close("initial-value", np.asarray(ivp.y0, dtype=float), y0.astype(float), tol=1e-14)
    mon.check("dimension", ivp.dimension == len(y0))
    ref = reference(name, p, y0)
    for _ in range(2):
        t = float(rng.uniform(-1, 3))
        y = rng.uniform(0.2, 2, len(y0)) * rng.choice([-1, 1], len(y0))
        yc = y.copy()
        v = ivp.f(t, y)
        mon.close("vector-field", v, ref(t, y), tol=1e-12, msg=f"{name} at {y.tolist()}")
        if ivp.df is not None:
            J = ivp.df(t, y)
            mon.close("jacobian", J, fd(ref, t, y), tol=1e-6, msg=f"{name} at {y.tolist()}")
        if ivp.ddf is not None:
            H = np.asarray(ivp.ddf(t, y))
            mon.close("hessian", H.ravel(), fd(lambda s, z: fd(ref, s, z, 1e-4), t, y, 1e-4).ravel(), tol=1e-4, msg=name)
        mon.check("state-intact", np.array_equal(y, yc))
    mon.check("has-jacobian", (ivp.df is not None) == (name not in ("threebody", "lorenz96")), name)
    # invariants of the field
    if name == "seir":
        mon.close("population", np.sum(ivp.f(0.0, y)), 0.0, tol=1e-12)
    if name == "lotkavolterra":
        a, b, c, e = p
        yy = np.abs(y)
        g = np.array([e - c / yy[0], b - a / yy[1]])
        mon.close("invariant", float(g @ ivp.f(0.0, yy)), 0.0, tol=1e-10)
    if name == "threebody":
        mu = 0.012277471
        U = lambda s, z: np.array(
            [
                z[0] ** 2 + z[1] ** 2 + 2 * (1 - mu) / np.hypot(z[0] + mu, z[1]) + 2 * mu / np.hypot(z[0] - 1 + mu, z[1])
                - z[2] ** 2 - z[3] ** 2
            ]
        )
        mon.close("invariant", float((fd(U, 0, y) @ ivp.f(0.0, y))[0]), 0.0, tol=1e-5 * (1 + np.abs(ivp.f(0.0, y)).max() ** 2))
    if ivp.solution is not None:
        ts = np.linspace(t0, min(tmax, t0 + 2.0), 5)
        s = scipy.integrate.solve_ivp(ref, (ts[0], ts[-1]), y0, t_eval=ts, rtol=1e-11, atol=1e-13, method="DOP853")
        got = np.stack([np.ravel(ivp.solution(t)) for t in ts], axis=1)
        mon.close("solution", got, s.y, tol=1e-8, msg=f"{name}, t0={t0:.3g}")
        mon.event("closed-form-solutions")
    if name == "lorenz96":
        for bad in (dict(num_variables=3), dict(y0=np.ones(3))):
            try:
                zd.lorenz96(**bad)
                mon.check("refused", False)
            except ValueError:
                mon.check("refused", True)


def chi2(mon, rule, r, C, msg):
    """Residuals r ~ N(0, C) independent: two-sided test at 1e-10."""
    C = np.atleast_2d(C)
    w, V = np.linalg.eigh(C)
    ok = w > 1e-13 * max(w[-1], 1e-300)
    z = (r @ V[:, ok]) / np.sqrt(w[ok])
    k = z.size
    s = float((z**2).sum())
    pv = 2 * min(scipy.stats.chi2.sf(s, k), scipy.stats.chi2.cdf(s, k))
    mon.check(rule, pv > 1e-10, f"{msg}: chi2={s:.4g} with {k} degrees of freedom, p={pv:.2g}")
    if (~ok).any():
        mon.close(rule + "-range", r @ V[:, ~ok], np.zeros((len(r), int((~ok).sum()))), tol=1e-7 * (1 + np.sqrt(w[-1])))


def common(mon, rp, grid, dims, R, h):
    n = len(grid)
    mon.check("length", len(rp) == n == len(rp.measurement_models) == len(rp.locations))
    mon.close("locations", np.asarray(rp.locations), grid, tol=1e-13)
    obs, sol = np.asarray(rp.observations), np.asarray(rp.solution)
    mon.check("shapes", obs.shape == (n, dims[1]) and sol.shape == (n, dims[0]), f"{obs.shape} {sol.shape}")
    m = rp.measurement_models[int(len(grid) // 2)]
    rv, _ = m.forward_realization(sol[n // 2], t=grid[n // 2])
    mon.close("measurement-model", rv.mean, h(sol[n // 2]), tol=1e-12)
    mon.close("measurement-noise", np.asarray(rv.cov), R, tol=1e-12)
    chi2(mon, "observations", obs - np.stack([h(s) for s in sol]), R, "observation residuals")
    loc, ob, mm = rp[n // 2]
    mon.check("item", loc == rp.locations[n // 2] and np.array_equal(ob, obs[n // 2]) and mm is rp.measurement_models[n // 2])
    return sol


def iwp1(q, dt):
    from math import factorial as F

    A = np.array([[dt ** (j - i) / F(j - i) if j >= i else 0.0 for j in range(q + 1)] for i in range(q + 1)])
    Q = np.array(
        [[dt ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * F(q - i) * F(q - j)) for j in range(q + 1)] for i in range(q + 1)]
    )
    return A, Q


@scenario(P, "state-space", quick=120, thorough=2500)
def state_space(mon, rng):
    name = str(rng.choice(["car_tracking", "ornstein_uhlenbeck", "pendulum", "benes_daum"]))
    seed = int(rng.integers(2**31))
    kw = {}
    R = {"car_tracking": 0.5, "ornstein_uhlenbeck": 0.1, "pendulum": 0.1024, "benes_daum": 0.1}[name]
    diff = {"car_tracking": 1.0, "ornstein_uhlenbeck": 0.5, "benes_daum": 1.0}.get(name)
    if rng.random() < 0.6:
        R = kw["measurement_variance"] = float(10 ** rng.uniform(-2, 1))
    if diff is not None and rng.random() < 0.6:
        diff = kw["process_diffusion"] = float(10 ** rng.uniform(-1, 1))
    if name in ("car_tracking", "ornstein_uhlenbeck"):
        for w in ("forward_implementation", "backward_implementation"):
            if rng.random() < 0.5:
                kw[w] = str(rng.choice(["classic", "sqrt"]))
    t0 = float(rng.choice([0.0, rng.uniform(-3, 3)]))
    if name in ("car_tracking", "pendulum"):
        step = float(rng.uniform(0.05, 0.4)) if name == "car_tracking" else float(rng.uniform(0.002, 0.05))
        kw["step"] = step
        kw["timespan"] = (t0, t0 + step * int(rng.integers(5, 60)))
        grid = np.arange(*kw["timespan"], step=step)
        q = 1
        if name == "car_tracking" and rng.random() < 0.5:
            q = kw["num_prior_derivatives"] = int(rng.integers(1, 4))
    else:
        grid = t0 + np.cumsum(rng.uniform(0.05, 0.5, int(rng.integers(4, 30 if name == "ornstein_uhlenbeck" else 10))))
        kw["time_grid"] = grid.copy()
    D = {"car_tracking": 2, "pendulum": 2}.get(name, 1)
    if name == "car_tracking":
        D = 2 * (q + 1)
    if rng.random() < 0.4:
        m0 = rng.standard_normal(D)
        kw["initrv"] = randvars.Normal(m0, np.diag(rng.uniform(0.1, 2, D)))
    mon.describe(name=name, given={k: v if isinstance(v, (int, str)) else "" for k, v in kw.items()})
    rp, info = getattr(zf, name)(np.random.default_rng(seed), **kw)
    rp2, _ = getattr(zf, name)(np.random.default_rng(seed), **kw)
    mon.check("reproducible", np.array_equal(rp.observations, rp2.observations) and np.array_equal(rp.solution, rp2.solution))
    pp = info["prior_process"]
    if "initrv" in kw:
        mon.check("initrv", np.array_equal(pp.initrv.mean, kw["initrv"].mean) and np.array_equal(pp.initrv.cov, kw["initrv"].cov))
    mon.check("initarg", pp.initarg == grid[0], f"{pp.initarg} vs {grid[0]}")
    E1 = np.eye(1)
    if name == "car_tracking":
        H = np.kron(np.eye(2), np.eye(1, q + 1))
        sol = common(mon, rp, grid, (D, 2), R * np.eye(2), lambda x: H @ x)
        A1, Q1 = iwp1(q, step)
        A, Q = np.kron(np.eye(2), A1), diff**2 * np.kron(np.eye(2), Q1)
        mon.close("dynamics", pp.transition.transition_matrix, A, tol=1e-12)
        mon.close("process-noise", pp.transition.noise.cov, Q, tol=1e-12, msg=f"diffusion {diff:.3g}")
        mon.close("process-noise-root", pp.transition.noise.cov_cholesky @ pp.transition.noise.cov_cholesky.T, Q, tol=1e-10)
        if Q.min() >= 0 and np.linalg.cond(Q) < 1e10:
            chi2(mon, "states", sol[1:] - sol[:-1] @ A.T, Q, f"state residuals, diffusion {diff:.3g}")
        chi2(mon, "initial-state", (sol[:1] - pp.initrv.mean), pp.initrv.cov, "initial state")
    elif name == "ornstein_uhlenbeck":
        th = float(kw.get("driftspeed", 0.21))
        sol = common(mon, rp, grid, (1, 1), R * E1, lambda x: x)
        dts = np.diff(grid)
        a = np.exp(-th * dts)
        qv = diff**2 * (1 - a**2) / (2 * th)
        rv, _ = pp.transition.forward_realization(np.ones(1), t=grid[0], dt=dts[0])
        mon.close("dynamics", rv.mean, a[:1], tol=1e-9)
        mon.close("process-noise", np.asarray(rv.cov), np.array([[qv[0]]]), tol=1e-9, msg=f"diffusion {diff:.3g}")
        chi2(mon, "states", (sol[1:] - sol[:-1] * a[:, None]) / np.sqrt(qv)[:, None], E1, "state residuals")
        chi2(mon, "initial-state", (sol[:1] - pp.initrv.mean), pp.initrv.cov, "initial state")
    elif name == "pendulum":
        sol = common(mon, rp, grid, (2, 1), R * E1, lambda x: np.sin(x[:1]))
        f = lambda t, x: np.array([x[0] + x[1] * step, x[1] - 9.81 * np.sin(x[0]) * step])
        Q = np.array([[step**3 / 3, step**2 / 2], [step**2 / 2, step]])
        x = rng.standard_normal(2)
        rv, _ = pp.transition.forward_realization(x, t=grid[0])
        mon.close("dynamics", rv.mean, f(0, x), tol=1e-12)
        mon.close("process-noise", np.asarray(rv.cov), Q, tol=1e-14)
        mon.close("jacobian", pp.transition.transition_fun_jacobian(0.0, x), fd(f, 0.0, x), tol=1e-8)
        mm = rp.measurement_models[0]
        mon.close("measurement-jacobian", mm.transition_fun_jacobian(0.0, x), np.array([[np.cos(x[0]), 0.0]]), tol=1e-12)
        chi2(mon, "states", sol[1:] - np.stack([f(0, s) for s in sol[:-1]]), Q, "state residuals")
    else:
        sol = common(mon, rp, grid, (1, 1), R * E1, lambda x: x)
        x = rng.standard_normal(1)
        T = pp.transition
        mon.close("drift", T.drift_function(0.0, x), np.tanh(x), tol=1e-14)
        mon.close("drift-jacobian", np.ravel(T.drift_jacobian(0.0, x)), np.cosh(x) ** -2, tol=1e-12)
        mon.close("dispersion", np.asarray(T.dispersion_function(0.0, x)), np.array([[diff]]), tol=1e-14)


@scenario(P, "logistic-filter", quick=40, thorough=800)
def logistic_filter(mon, rng):
    kw = {}
    y0 = 0.1
    par = (6.0, 1.0)
    t0, T = 0.0, 2.0
    order = 3
    if rng.random() < 0.7:
        y0 = float(rng.uniform(0.05, 0.9))
        kw["y0"] = y0 if rng.random() < 0.5 else np.array([y0])
    if rng.random() < 0.5:
        par = kw["params"] = (float(rng.uniform(1, 4)), float(rng.uniform(0.8, 2)))
    if rng.random() < 0.5:
        t0 = float(rng.uniform(-2, 2))
        kw["timespan"] = (t0, t0 + T)
    if rng.random() < 0.6:
        order = kw["order"] = int(rng.integers(1, 5))
    # zeroth-order linearisation with high order and vague initial derivatives is unstable
    ek = kw["ek0_or_ek1"] = 1 if order >= 3 else int(rng.integers(2))
    step = kw["step"] = 0.02
    excl = bool(rng.random() < 0.7)
    if not excl:
        kw["exclude_initial_condition"] = False
        kw["evlvar"] = 1e-6
    if order >= 3 or rng.random() < 0.5:
        kw["forward_implementation"] = kw["backward_implementation"] = "sqrt"
    mon.describe(given=sorted(kw), order=order, ek=ek, excl=excl)
    rp, info = zf.logistic_ode(**kw)
    grid = np.arange(t0, t0 + T, step)
    mon.close("locations", np.asarray(rp.locations), grid, tol=1e-12)
    ivp, pp = info["ivp"], info["prior_process"]
    first = rp.measurement_models[0].forward_realization(np.append(y0, 0.7 * np.arange(1, order + 1)), t=t0)[0]
    resid = 0.7 - par[0] * y0 * (1 - y0 / par[1]) if excl else 0.0
    mon.close("first-likelihood", first.mean, np.array([resid]), tol=1e-12, msg="ODE residual, or initial condition if included")
    # the linearisation that was asked for: of the residual, or of the derivative only
    m = np.append(float(rng.uniform(0.1, 1.0)), rng.standard_normal(order))
    B = rng.standard_normal((order + 1, order + 1))
    C = B @ B.T + np.eye(order + 1)
    H = np.zeros((1, order + 1))
    H[0, 1] = 1.0
    if ek == 1:
        H[0, 0] = -par[0] * (1 - 2 * m[0] / par[1])
    k = int(rng.integers(1, len(grid)))
    pred, _ = rp.measurement_models[k].forward_rv(randvars.Normal(m, C), t=grid[k])
    mon.close("linearisation", np.ravel(pred.cov), np.ravel(H @ C @ H.T + kw.get("evlvar", 0.0)), tol=1e-9, msg=f"EK{ek}")
    mon.close("residual", np.ravel(pred.mean), np.ravel(m[1] - par[0] * m[0] * (1 - m[0] / par[1])), tol=1e-10, msg=f"EK{ek}")
    mon.check("initial-value", np.allclose(ivp.y0, y0) and ivp.t0 == t0)
    mon.close("initrv", pp.initrv.mean[:1], np.array([y0]), tol=1e-14, msg="mean of the solution at t0")
    mon.check("initrv-size", pp.initrv.shape == (order + 1,), f"{pp.initrv.shape}")
    mon.close("initrv-certain", np.asarray(pp.initrv.cov)[0], np.zeros(order + 1), tol=0)
    a, K = par
    ref = K * y0 * np.exp(a * (grid - t0)) / (K + y0 * np.expm1(a * (grid - t0)))
    if rp.solution is not None:
        # y and its derivative at the locations
        sol = np.stack([np.ravel(s) for s in rp.solution])
        mon.close("solution", sol[:, 0], ref, tol=1e-9)
    kal = filtsmooth.gaussian.Kalman(pp)
    post, _ = kal.filtsmooth(rp)
    got = np.array([rv.mean[0] for rv in post.states])
    loc = np.asarray(post.locations)
    want = K * y0 * np.exp(a * (loc - t0)) / (K + y0 * np.expm1(a * (loc - t0)))
    tol = {1: 0.15, 2: 0.05}.get(order, 0.03)
    mon.check("posterior-solves-ode", np.abs(got - want).max() <= tol * max(1.0, K), f"error {np.abs(got - want).max():.3g}, y0={y0:.3g}")


@scenario(P, "containers", quick=60, thorough=600)
def containers(mon, rng):
    n = int(rng.integers(1, 9))
    mm = randprocs.markov.discrete.LTIGaussian(transition_matrix=np.eye(1), noise=randvars.Normal(np.zeros(1), np.eye(1)))
    loc = np.cumsum(rng.random(n)) if rng.random() < 0.5 else list(np.cumsum(rng.random(n)))
    obs = rng.standard_normal((n, 1))
    single = bool(rng.random() < 0.5)
    mon.describe(n=n, kind=type(loc).__name__, single=single)
    rp = problems.TimeSeriesRegressionProblem(locations=loc, observations=obs, measurement_models=mm if single else [mm] * n)
    mon.check("length", len(rp) == n)
    mon.check("models", len(rp.measurement_models) == n and all(m is mm for m in rp.measurement_models))
    items = [rp[i] for i in range(n)]
    mon.check("items", all(a[0] == loc[i] and np.array_equal(a[1], obs[i]) and a[2] is mm for i, a in enumerate(items)))
    it = list(iter(rp)) if n else []
    mon.check("iteration", len(it) == n and all(a[0] == b[0] for a, b in zip(it, items)))
    i, j = sorted(rng.integers(0, n + 1, 2).tolist())
    s = rp[i:j]
    mon.check("slice", len(s[0]) == j - i and np.array_equal(s[1], obs[i:j]) and len(s[2]) == j - i)
    for bad in (
        dict(locations=loc, observations=obs[:-1], measurement_models=mm),
        dict(locations=loc, observations=obs, measurement_models=[mm] * (n + 1)),
        dict(locations=list(loc) + [99.0], observations=obs, measurement_models=[mm] * n),
    ):
        try:
            problems.TimeSeriesRegressionProblem(**bad)
            mon.check("refused", False)
        except ValueError:
            mon.check("refused", True)

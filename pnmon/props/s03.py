"""S03: nonlinear Gaussian filtering is exact conditioning of the linearised model."""
import numpy as np
import scipy.integrate
from probnum import problems, randvars
from probnum.filtsmooth import gaussian, optim
from probnum.filtsmooth.gaussian import approx
from probnum.randprocs.markov import MarkovProcess, MarkovSequence, continuous, discrete

from pnmon import gen_ssm as G
from pnmon import refmarkov as ref
from pnmon.core import scenario
from pnmon.gen_rv import dense
from pnmon.props.m01 import BWD, FWD
from pnmon.props.s01 import block

P = "S03"


class Model:
    """y = g(t, x) + c(t) + N(0, R(t)) with an analytic Jacobian."""

    def __init__(self, rng, n, m, curvature=1.0, linear=False):
        A, B = rng.standard_normal((m, n)) * 0.8, rng.standard_normal((m, n))
        b, w = rng.standard_normal(m), rng.uniform(0.2, 1.5)
        k = 0.0 if linear else curvature
        s = float(rng.choice([0.0, 0.7]))
        self.n, self.m = n, m
        self.g = lambda t, x: A @ x * (1 + s * np.sin(t)) + k * np.sin(B @ x * w + t * s) + b
        self.J = lambda t, x: A * (1 + s * np.sin(t)) + k * w * np.cos(B @ x * w + t * s)[:, None] * B
        R, c = ref.spd(rng, m) * 0.5, rng.standard_normal(m)
        z = rng.integers(3)
        if z == 0:
            c = 0 * c
        self.R = lambda t: R * (1.2 + s * np.cos(2 * t))
        self.c = lambda t: c * np.cos(s * t)
        self.pn = discrete.NonlinearGaussian(
            input_dim=n, output_dim=m, transition_fun=self.g, transition_fun_jacobian=self.J,
            noise_fun=lambda t: randvars.Normal(self.c(t), self.R(t)))

    def ekf(self, t, x0):
        J = self.J(t, x0)
        return J, self.g(t, x0) - J @ x0 + self.c(t), self.R(t)


def cubature(model, t, m, C):
    n = len(m)
    S = np.linalg.cholesky(C) * np.sqrt(n)
    pts = np.concatenate([m + S.T, m - S.T])
    fx = np.stack([model.g(t, p) for p in pts])
    mu = fx.mean(0)
    d = fx - mu
    return mu, d.T @ d / (2 * n), (pts - m).T @ d / (2 * n)


def statistical_linearisation(model, t, m, C):
    mu, S, X = cubature(model, t, m, C)
    H = np.linalg.solve(C, X).T
    return H, mu - H @ m + model.c(t), S - H @ C @ H.T + model.R(t)


def implementations(rng):
    return str(rng.choice(FWD)), str(rng.choice(BWD))


@scenario(P, "ekf-step", quick=500)
def ekf_step(mon, rng):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    fi, bi = implementations(rng)
    mod = Model(rng, n, m)
    comp = approx.DiscreteEKFComponent(mod.pn, forward_implementation=fi, backward_implementation=bi)
    step(mon, rng, mod, comp, mod.ekf, ("ekf", n, m, fi, bi), needs_cov=False)


@scenario(P, "ukf-step", quick=400)
def ukf_step(mon, rng):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    fi, bi = implementations(rng)
    mod = Model(rng, n, m)
    comp = approx.DiscreteUKFComponent(mod.pn, forward_implementation=fi, backward_implementation=bi)
    step(mon, rng, mod, comp, None, ("ukf", n, m, fi, bi), needs_cov=True)


def step(mon, rng, mod, comp, lin, key, needs_cov):
    n, m = mod.n, mod.m
    t = float(rng.uniform(-2, 3))
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(m0, C0)
    if rng.random() < 0.5:
        rv.precompute_cov_cholesky()
    at = None
    la = (m0, C0)
    if rng.random() < 0.4:
        la = (rng.standard_normal(n), ref.spd(rng, n))
        at = randvars.Normal(*la)
    d = float(rng.choice([1.0, 1.0, 0.3, 4.0])) if not needs_cov else 1.0
    mon.describe(key=key, elsewhere=at is not None, diffusion=d, t=round(t, 2))
    H, c, R = statistical_linearisation(mod, t, *la) if needs_cov else lin(t, la[0])
    R = d * R
    wm, wS, wX = ref.forward(m0, C0, H, c, R)
    tol = 1e-7
    out, info = comp.forward_rv(rv, t, compute_gain=True, _diffusion=d, _linearise_at=at)
    mon.close("forward-mean", dense(out.mean), wm, tol, str(key))
    mon.close("forward-cov", dense(out.cov), wS, tol, str(key))
    mon.close("cross-cov", dense(info["crosscov"]), wX, tol, str(key))
    mon.close("gain", dense(info["gain"]), np.linalg.solve(wS, wX.T).T, tol, str(key))
    y = rng.standard_normal(m)
    Co = ref.spd(rng, m)
    bm, bC, _ = ref.backward(m0, C0, H, c, R, y, np.zeros((m, m)))
    kw = {}
    if rng.random() < 0.4:
        kw = dict(rv_forwarded=out, gain=info["gain"])
    out2, _ = comp.backward_realization(y, rv, t=t, _diffusion=d, _linearise_at=at, **kw)
    mon.close("update-mean", dense(out2.mean), bm, tol, f"{key} {sorted(kw)}")
    mon.close("update-cov", dense(out2.cov), bC, tol, f"{key} {sorted(kw)}")
    bm, bC, _ = ref.backward(m0, C0, H, c, R, y, Co)
    out3, _ = comp.backward_rv(randvars.Normal(y, Co), rv, t=t, _diffusion=d, _linearise_at=at, **kw)
    mon.close("smooth-mean", dense(out3.mean), bm, tol, f"{key} {sorted(kw)}")
    mon.close("smooth-cov", dense(out3.cov), bC, tol, f"{key} {sorted(kw)}")
    # at a point, the linearised and the nonlinear model agree and have the model's noise
    x = rng.standard_normal(n)
    fr, _ = comp.forward_realization(x, t, _diffusion=d)
    mon.close("forward-point-mean", dense(fr.mean), mod.g(t, x) + mod.c(t), 1e-9, str(key))
    mon.close("forward-point-cov", dense(fr.cov), d * mod.R(t), 1e-9, str(key))
    nr, _ = mod.pn.forward_realization(x, t, _diffusion=d)
    mon.close("model-point-mean", dense(nr.mean), mod.g(t, x) + mod.c(t), 1e-12, f"diffusion {d}")
    mon.close("model-point-cov", dense(nr.cov), d * mod.R(t), 1e-12, f"diffusion {d}")
    mon.check("dimensions", comp.input_dim == n and comp.output_dim == m)


@scenario(P, "ukf-polynomials", quick=200)
def ukf_polynomials(mon, rng):
    """Sigma points integrate polynomials of low degree exactly."""
    n = int(rng.integers(1, 4))
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    a, b, D = rng.standard_normal(n), float(rng.standard_normal()), rng.standard_normal((n, n))
    D = D + D.T
    R = np.array([[float(rng.uniform(0.1, 1))]])
    mon.describe(n=n, a=a.round(3).tolist())
    pn = discrete.NonlinearGaussian(
        input_dim=n, output_dim=1, transition_fun=lambda t, x: np.array([b + a @ x + x @ D @ x]),
        transition_fun_jacobian=None, noise_fun=lambda t: randvars.Normal(np.zeros(1), R))
    comp = approx.DiscreteUKFComponent(pn)
    out, info = comp.forward_rv(randvars.Normal(m0, C0), 0.0, compute_gain=True)
    mon.close("quadratic-mean", dense(out.mean), [b + a @ m0 + m0 @ D @ m0 + np.trace(D @ C0)], 1e-8)
    mon.close("quadratic-cross-cov", dense(info["crosscov"]).ravel(), C0 @ (a + 2 * D @ m0), 1e-8)


class SDEModel:
    def __init__(self, rng, n):
        A, B = ref.stable_drift(rng, n) * 0.5, rng.standard_normal((n, n))
        L = np.linalg.cholesky(ref.spd(rng, n))
        self.n = n
        self.g = lambda t, x: A @ x + 0.5 * np.sin(B @ x + t)
        self.J = lambda t, x: A + 0.5 * np.cos(B @ x + t)[:, None] * B
        self.l = lambda t, x: L * (1 + 0.2 * np.cos(t) + 0.1 * np.tanh(x[0]))
        self.pn = continuous.SDE(n, n, drift_function=self.g, dispersion_function=self.l, drift_jacobian=self.J)

    def step(self, a, b, x0, diff=1.0):
        n = self.n

        def rhs(t, y):
            Phi, V, mm = y[:n * n].reshape(n, n), y[n * n:2 * n * n].reshape(n, n), y[2 * n * n:]
            Ft, l = self.J(t, x0), self.l(t, x0)
            u = self.g(t, x0) - Ft @ x0
            return np.concatenate([(Ft @ Phi).ravel(), (Ft @ V + V @ Ft.T + diff * l @ l.T).ravel(), Ft @ mm + u])

        y = scipy.integrate.solve_ivp(rhs, (a, b), np.concatenate([np.eye(n).ravel(), np.zeros(n * n + n)]),
                                      method="DOP853", atol=1e-11, rtol=1e-11).y[:, -1]
        return y[:n * n].reshape(n, n), y[n * n:2 * n * n].reshape(n, n), y[2 * n * n:]


@scenario(P, "continuous-ekf", quick=60)
def continuous_ekf(mon, rng):
    n = int(rng.integers(1, 3))
    mod = SDEModel(rng, n)
    fi = str(rng.choice(FWD))
    comp = approx.ContinuousEKFComponent(mod.pn, mde_atol=1e-9, mde_rtol=1e-9, forward_implementation=fi)
    t, dt = float(rng.uniform(-1, 2)), float(rng.uniform(0.1, 0.8))
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(m0, C0)
    x0, at = m0, None
    if rng.random() < 0.4:
        x0 = rng.standard_normal(n)
        at = randvars.Normal(x0, np.eye(n))
    d = float(rng.choice([1.0, 0.4, 3.0]))
    mon.describe(n=n, fi=fi, elsewhere=at is not None, diffusion=d, dt=round(dt, 2))
    A, Q, u = mod.step(t, t + dt, x0, d)
    wm, wS, wX = ref.forward(m0, C0, A, u, Q)
    out, _ = comp.forward_rv(rv, t, dt=dt, _diffusion=d, _linearise_at=at)
    mon.close("forward-mean", dense(out.mean), wm, 1e-5, fi)
    mon.close("forward-cov", dense(out.cov), wS, 1e-5, fi)
    y, Co = rng.standard_normal(n), ref.spd(rng, n)
    bm, bC, _ = ref.backward(m0, C0, A, u, Q, y, Co)
    out3, _ = comp.backward_rv(randvars.Normal(y, Co), rv, t=t, dt=dt, _diffusion=d, _linearise_at=at)
    mon.close("smooth-mean", dense(out3.mean), bm, 1e-5, fi)
    mon.close("smooth-cov", dense(out3.cov), bC, 1e-5, fi)
    if fi == "sqrt":
        return  # the square-root moment equations need an invertible covariance
    x = rng.standard_normal(n)
    A, Q, u = mod.step(t, t + dt, x, d)
    fr, _ = comp.forward_realization(x, t, dt=dt, _diffusion=d)
    mon.close("forward-point-mean", dense(fr.mean), A @ x + u, 1e-5, fi)
    mon.close("forward-point-cov", dense(fr.cov), Q, 1e-5, fi)


@scenario(P, "nonlinear-filter", quick=200)
def nonlinear_filter(mon, rng):
    """Whole runs with nonlinear dynamics and measurements against reference recursions."""
    n, m, N = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 6))
    dyn_kind, meas_kind = str(rng.choice(["ekf", "ukf", "sde"], p=[0.45, 0.4, 0.15])), str(rng.choice(["ekf", "ukf"]))
    t0 = float(rng.choice([0.0, 1.3]))
    ts = G.times(rng, N, t0)
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    meas = Model(rng, n, m, 0.5)
    mk = {"ekf": approx.DiscreteEKFComponent, "ukf": approx.DiscreteUKFComponent}
    fi, bi = implementations(rng)
    if dyn_kind == "sde":
        dyn = SDEModel(rng, n)
        proc = MarkovProcess(initarg=t0, initrv=randvars.Normal(m0, C0), transition=approx.ContinuousEKFComponent(dyn.pn, mde_atol=1e-9, mde_rtol=1e-9))
        def dyn_lin(a, b, mm, CC):
            A, Q, u = dyn.step(a, b, mm)
            return A, u, Q
    else:
        dyn = Model(rng, n, n, 0.4)
        proc = MarkovSequence(transition=mk[dyn_kind](dyn.pn, forward_implementation=fi, backward_implementation=bi),
                              initrv=randvars.Normal(m0, C0), initarg=t0)
        dyn_lin = (lambda a, b, mm, CC: dyn.ekf(a, mm)) if dyn_kind == "ekf" else (
            lambda a, b, mm, CC: statistical_linearisation(dyn, a, mm, CC))
    ml = (lambda t, mm, CC: meas.ekf(t, mm)) if meas_kind == "ekf" else (lambda t, mm, CC: statistical_linearisation(meas, t, mm, CC))
    ys = rng.standard_normal((N, m))
    mon.describe(n=n, m=m, N=N, dyn=dyn_kind, meas=meas_kind, impl=(fi, bi), first=bool(ts[0] == t0))
    prob = problems.TimeSeriesRegressionProblem(locations=ts, observations=ys,
                                                measurement_models=[mk[meas_kind](meas.pn)] * N)
    post, _ = gaussian.Kalman(proc).filtsmooth(prob)
    a, mm, CC = t0, m0, C0
    filt, steps = [], []
    for t, y in zip(ts, ys):
        if t > a:
            H, c, Q = dyn_lin(a, t, mm, CC)
            steps.append((H, c, Q))
            mm, CC, _ = ref.forward(mm, CC, H, c, Q)
        else:
            steps.append(None)
        H, c, R = ml(t, mm, CC)
        mm, CC, _ = ref.backward(mm, CC, H, c, R, y, np.zeros((m, m)))
        filt.append((mm, CC))
        a = t
    tol = 2e-5 if dyn_kind == "sde" else 1e-6
    for k in range(N):
        s = post.filtering_posterior.states[k]
        mon.close("filter-mean", dense(s.mean), filt[k][0], tol, f"{dyn_kind} {meas_kind} k={k}")
        mon.close("filter-cov", dense(s.cov), filt[k][1], tol, f"{dyn_kind} {meas_kind} k={k}")
    sm, SC = filt[-1]
    for k in reversed(range(N)):
        if k < N - 1:
            H, c, Q = steps[k + 1]
            sm, SC, _ = ref.backward(*filt[k], H, c, Q, sm, SC)
        s = post.states[k]
        mon.close("smoother-mean", dense(s.mean), sm, tol, f"{dyn_kind} {meas_kind} k={k}")
        mon.close("smoother-cov", dense(s.cov), SC, tol, f"{dyn_kind} {meas_kind} k={k}")


@scenario(P, "linear-models-exact", quick=150)
def linear_exact(mon, rng):
    """On linear models all approximations are exact."""
    s = G.observe(rng, G.prior(rng, ("iwp", "lti", "discrete", "tv-discrete")), int(rng.integers(1, 5)), same_model="time-varying")
    kind = str(rng.choice(["ekf", "ukf", "iterated-ekf", "iterated-ukf"]))
    s.ts_first = bool(s.ts[0] == s.t0)
    lin = s.problem.measurement_models[0]
    nl = discrete.NonlinearGaussian(
        input_dim=s.n, output_dim=lin.output_dim,
        transition_fun=lambda t, x: lin.transition_matrix_fun(t) @ x,
        transition_fun_jacobian=lambda t, x: lin.transition_matrix_fun(t), noise_fun=lin.noise_fun)
    comp = (approx.DiscreteEKFComponent if "ekf" in kind else approx.DiscreteUKFComponent)(nl)
    if "iterated" in kind:
        comp = optim.IteratedDiscreteComponent(comp)
    mon.describe(kind=kind, prior=s.kind, n=s.n, N=len(s.ts), first=s.ts_first)
    prob = problems.TimeSeriesRegressionProblem(locations=s.ts, observations=s.ys, measurement_models=[comp] * len(s.ts))
    kal = gaussian.Kalman(s.process)
    if s.ts_first and rng.random() < 0.5:
        post, _ = kal.iterated_filtsmooth(prob)
    else:
        post, _ = kal.filtsmooth(prob)
    m, K = G.batch(s, s.ts)
    for k in range(len(s.ts)):
        mon.close("smoother-mean", dense(post.states[k].mean), m[k], s.tol, f"{kind} {s.kind} k={k}")
        mon.close("smoother-cov", dense(post.states[k].cov), block(K, k, s.n), s.tol, f"{kind} {s.kind} k={k}")


@scenario(P, "iterated-update", quick=250)
def iterated(mon, rng):
    """An iterated EKF update ends at a stationary point of the log posterior."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    mod = Model(rng, n, m, 0.6)
    off = float(rng.choice([0.0, 0.0, 100.0, -1000.0, -2000.0]))
    m0, C0 = rng.standard_normal(n) + off, ref.spd(rng, n)
    t = float(rng.uniform(0, 2))
    y = mod.g(t, m0 + 0.3 * rng.standard_normal(n)) + mod.c(t)
    mon.describe(n=n, m=m, t=round(t, 3), offset=off)
    atol = 1e-9
    crit = optim.FiltSmoothStoppingCriterion(atol=atol, rtol=1e-12, maxit=int(rng.choice([200, 300])))
    it = optim.IteratedDiscreteComponent(approx.DiscreteEKFComponent(mod.pn), stopcrit=crit)
    rv = randvars.Normal(m0, C0)
    try:
        out, _ = it.backward_realization(y, rv, t=t)
    except RuntimeError:
        mon.reject("no convergence within maxit")
        mon.check("usable-after-failure", crit.iterations == 0, f"iteration counter left at {crit.iterations}")
        return
    x = dense(out.mean)
    J = mod.J(t, x)
    R = mod.R(t)
    grad = np.linalg.solve(C0, x - m0) - J.T @ np.linalg.solve(R, y - mod.g(t, x) - mod.c(t))
    mon.check("stationary", np.max(np.abs(C0 @ grad)) < 1e-6, f"gradient {grad} at {x}")
    _, wC, _ = ref.backward(m0, C0, *mod.ekf(t, x), y, np.zeros((m, m)))
    mon.close("posterior-cov", dense(out.cov), wC, 1e-5)
    # forward directions are those of the component
    f1, _ = it.forward_rv(rv, t)
    wm, wS, _ = ref.forward(m0, C0, *mod.ekf(t, m0))
    mon.close("forward-mean", dense(f1.mean), wm, 1e-8)
    mon.close("forward-cov", dense(f1.cov), wS, 1e-8)
    x0 = rng.standard_normal(n)
    f2, _ = it.forward_realization(x0, t)
    mon.close("forward-realization-mean", dense(f2.mean), mod.g(t, x0) + mod.c(t), 1e-10)
    mon.close("forward-realization-cov", dense(f2.cov), mod.R(t), 1e-10)
    # the component can be used again
    out2, _ = it.backward_realization(y, rv, t=t)
    mon.close("repeatable", dense(out2.mean), x, 1e-9)


@scenario(P, "gauss-newton", quick=120)
def gauss_newton(mon, rng):
    """Iterated smoothing ends at a stationary point of the joint log posterior."""
    n, m, N = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(2, 5))
    t0 = 0.5
    ts = t0 + np.concatenate([[0.0], np.cumsum(rng.uniform(0.2, 0.8, N - 1))])
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    nonlin = bool(rng.random() < 0.6)
    dyn, meas = Model(rng, n, n, 0.35 if nonlin else 0.0, linear=not nonlin), Model(rng, n, m, 0.4)
    proc = MarkovSequence(transition=approx.DiscreteEKFComponent(dyn.pn), initrv=randvars.Normal(m0, C0), initarg=t0)
    ys = np.stack([meas.g(t, rng.standard_normal(n)) + meas.c(t) for t in ts])
    how = str(rng.choice(["iterated_filtsmooth", "GaussNewton"]))
    mon.describe(n=n, m=m, N=N, nonlinear_dynamics=nonlin, how=how)
    prob = problems.TimeSeriesRegressionProblem(
        locations=ts, observations=ys, measurement_models=[approx.DiscreteEKFComponent(meas.pn)] * N)
    kal = gaussian.Kalman(proc)
    crit = optim.FiltSmoothStoppingCriterion(atol=1e-9, rtol=1e-12, maxit=150)
    try:
        if how == "GaussNewton":
            init, _ = kal.filtsmooth(prob)
            post, _ = optim.GaussNewton(kal, crit).solve(prob, init)
        else:
            post, _ = kal.iterated_filtsmooth(prob, stopcrit=crit)
    except RuntimeError:
        mon.reject("no convergence within maxit")
        mon.check("usable-after-failure", crit.iterations == 0, f"iteration counter left at {crit.iterations}")
        return
    X = np.stack([dense(s.mean) for s in post.states])
    grad = np.zeros_like(X)
    grad[0] += np.linalg.solve(C0, X[0] - m0)
    for k in range(N):
        r = np.linalg.solve(meas.R(ts[k]), ys[k] - meas.g(ts[k], X[k]) - meas.c(ts[k]))
        grad[k] -= meas.J(ts[k], X[k]).T @ r
        if k < N - 1:
            t = ts[k]
            r = np.linalg.solve(dyn.R(t), X[k + 1] - dyn.g(t, X[k]) - dyn.c(t))
            grad[k + 1] += r
            grad[k] -= dyn.J(t, X[k]).T @ r
    mon.check("stationary", np.max(np.abs(grad)) < 1e-5 * (1 + np.max(np.abs(X))), f"{how} gradient {grad.tolist()}")
    # at the fixed point the covariances are those of the model linearised there
    mean_, K = None, None
    steps = [(lambda l: (l[0], l[2], l[1]))(dyn.ekf(ts[k], X[k])) for k in range(N - 1)]
    mean_, K = ref.joint(steps, m0, C0)
    import scipy.linalg as sl
    Hs = sl.block_diag(*[meas.J(ts[k], X[k]) for k in range(N)])
    cs = np.concatenate([meas.ekf(ts[k], X[k])[1] for k in range(N)])
    mw, Kw = ref.condition(mean_, K, Hs, ys.ravel() - cs, sl.block_diag(*[meas.R(t) for t in ts]))
    for k in range(N):
        mon.close("smoother-mean", X[k], mw.reshape(N, n)[k], 1e-5)
        mon.close("smoother-cov", dense(post.states[k].cov), block(Kw, k, n), 1e-5)


@scenario(P, "stopping-criterion", quick=300)
def stopping(mon, rng):
    """The iteration stops exactly when the scaled error is at most one, whatever the sign of the values."""
    shape = [(), (3,), (2, 4)][rng.integers(3)]
    atol, rtol = 10 ** rng.uniform(-6, 0), 10 ** rng.uniform(-6, 0)
    mon.describe(shape=shape, atol=round(atol, 8), rtol=round(rtol, 8))
    maxit = int(rng.integers(1, 6))
    crit = optim.FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
    refv = rng.standard_normal(shape) * 10 ** rng.uniform(-2, 4)
    if rng.random() < 0.3:
        refv = -np.abs(refv)
    if rng.random() < 0.2:
        refv = np.full(shape, -atol / rtol)  # where an unsigned scale is needed
    f = 10 ** rng.uniform(-0.5, 0.5)
    err = f * (atol + rtol * np.abs(refv)) * rng.choice([-1, 1], shape)
    if abs(f - 1) > 1e-6:
        got = crit(error=err, reference=refv)
        mon.check("decision", got == (f <= 1), f"scaled error {f}: criterion said {got}", ref=refv)
        mon.check("sign-symmetric", crit(error=-err, reference=-refv) == got, "depends on the sign")
    crit = optim.FiltSmoothStoppingCriterion(atol=atol, rtol=rtol, maxit=maxit)
    n = 0
    big = np.full(shape, np.inf)
    try:
        for n in range(1, 50):
            crit(error=big, reference=refv)
        mon.check("maxit-enforced", False, "no error after 49 iterations")
    except RuntimeError:
        mon.check("maxit-enforced", n >= maxit and n <= maxit + 2, f"raised at call {n} with maxit={maxit}")
    # a criterion that failed once serves the next problem
    mon.check("usable-after-failure", crit(error=np.zeros(shape), reference=refv) is True)

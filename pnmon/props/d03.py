"""D03: initialisation of ODE filters; Runge-Kutta steps, their perturbation and dense output."""
import numpy as np
import scipy.integrate
from probnum import diffeq, problems, randprocs, randvars
from probnum.diffeq import odefilter, perturbed, stepsize
from scipy.integrate._ivp import rk as srk

from pnmon import gen_ode
from pnmon.core import Skip, scenario
from pnmon.props.d02 import proj

P = "D03"
UNIT = dict(RK45=scipy.integrate.RK45, RK23=scipy.integrate.RK23)


def rk_step(cls, f, t, y, f0, h):
    """Explicit Runge-Kutta step from the published tableau (independent of rk.rk_step)."""
    K = [np.asarray(f0, dtype=float)]
    for s in range(1, cls.n_stages):
        dy = sum(cls.A[s][j] * K[j] for j in range(s)) * h
        K.append(np.asarray(f(t + cls.C[s] * h, y + dy), dtype=float))
    yn = y + h * sum(b * k for b, k in zip(cls.B, K))
    K.append(np.asarray(f(t + h, yn), dtype=float))
    K = np.stack(K)
    err = h * (np.asarray(cls.E) @ K)
    return yn, K, err


def dense(cls, t0, h, y0, K, t):
    x = (t - t0) / h
    Q = K.T @ np.asarray(cls.P)
    p = np.cumprod(np.full(np.asarray(cls.P).shape[1], x))
    return y0 + h * (Q @ p)


@scenario(P, "init-routines", quick=300)
def init_routines(mon, rng):
    which = str(rng.choice(["Stack", "StackWithJacobian", "NonProbabilisticFit", "NonProbabilisticFitWithJacobian"]))
    o = gen_ode.make(rng, ("linear", "logistic", "pendulum", "lotka")) if which == "StackWithJacobian" else gen_ode.make(rng)
    q = int(rng.integers(1, 6))
    d = o.dim
    mon.describe(which=which, ode=o.kind, q=q, d=d, y0=o.y0.round(4).tolist(), t0=o.t0)
    sc = float(10 ** rng.uniform(-2, 3))
    kw = {"scale_cholesky": sc} if which.startswith("Stack") else {}
    if not kw and rng.random() < 0.5:
        kw = dict(dt=float(rng.choice([0.005, 0.02])), observation_noise_std=1e-8)
    if rng.random() < 0.2 and which.startswith("Stack"):
        kw, sc = {}, 1e3
    prior = randprocs.markov.integrator.IntegratedWienerProcess(
        initarg=o.t0, num_derivatives=q, wiener_process_dimension=d, diffuse=True, forward_implementation="sqrt", backward_implementation="sqrt")
    ivp = gen_ode.ivp(o)
    y0 = o.y0.copy()
    rv = getattr(odefilter.init_routines, which)(**kw)(ivp=ivp, prior_process=prior)
    mon.check("does-not-modify-ivp", np.array_equal(ivp.y0, y0))
    m, C = np.asarray(rv.mean), np.asarray(rv.cov)
    n = d * (q + 1)
    mon.check("shape", m.shape == (n,) and C.shape == (n, n), f"{m.shape} {C.shape} for q={q}, d={d}")
    H = [proj(q, d, k) for k in range(q + 1)]
    f0 = np.asarray(o.f(o.t0, o.y0))
    J = np.asarray(o.df(o.t0, o.y0))
    if which.startswith("Stack"):
        known = [o.y0, f0] + ([J @ f0] if which == "StackWithJacobian" else [])
        for k in range(q + 1):
            want = known[k] if k < len(known) else np.zeros(d)
            mon.close("initial-derivatives", H[k] @ m, want, 1e-12, f"derivative {k}")
            std = 0.0 if k < len(known) else sc
            mon.close("initial-uncertainty", H[k] @ C @ H[k].T, std**2 * np.eye(d), 1e-10, f"derivative {k}")
        mon.close("uncorrelated", C, np.diag(np.diag(C)), 1e-12)
    else:
        dt = kw.get("dt", 0.01)
        noise = kw.get("observation_noise_std", 1e-7)
        scl = 1 + np.abs(o.y0).max() + np.abs(f0).max()
        mon.check("initial-value", np.abs(H[0] @ m - o.y0).max() < 10 * noise * scl, f"{H[0] @ m} {o.y0}")
        L = 1 + np.linalg.norm(J) + 3
        bound = 3 * scl * L * (L * (q + 1) * dt) ** q + 20 * noise / dt * scl
        mon.check("initial-slope", np.abs(H[1] @ m - f0).max() < bound, f"slope {H[1] @ m}, exact {f0}, bound {bound:.3g}")
        mon.check("uncertain-value", np.all(np.sqrt(np.abs(np.diag(H[0] @ C @ H[0].T))) < 5 * noise), "initial value more uncertain than the data")
    L = np.asarray(rv.cov_cholesky)
    mon.close("cov-factor", L @ L.T, C, 1e-9)
    w = np.linalg.eigvalsh((C + C.T) / 2)
    mon.check("psd", w.min() > -1e-9 * (1 + w.max()))


class Attempts:
    def __init__(self, solver):
        self.log = []
        real = solver.attempt_step

        def attempt_step(state, dt):
            new = real(state, dt)
            self.log.append((state.t, np.array(state.rv.mean, dtype=float), dt, np.array(new.rv.mean, dtype=float), new.t,
                             np.array(new.error_estimate, dtype=float), np.array(new.reference_state, dtype=float)))
            return new

        solver.attempt_step = attempt_step


def solve(solver, o, attempts):
    try:
        return solver.solve(gen_ode.ivp(o))
    except RuntimeError:
        # retries with the slope of a rejected step (known finding) can run away
        if any(x[0] == y[0] for x, y in zip(attempts.log, attempts.log[1:])):
            raise Skip() from None
        raise


@scenario(P, "runge-kutta", quick=300)
def runge_kutta(mon, rng):
    """Every attempted step is a Runge-Kutta step from the current state; the dense output interpolates it."""
    o = gen_ode.make(rng)
    name = str(rng.choice(list(UNIT)))
    cls = UNIT[name]
    T = o.tmax - o.t0
    adaptive = bool(rng.random() < 0.6)
    if adaptive:
        tol = 10 ** float(rng.uniform(-8, -2))
        rule = stepsize.AdaptiveSteps(firststep=T * float(rng.choice([0.01, 0.3, 0.9])), atol=tol, rtol=tol)
    else:
        rule = stepsize.ConstantSteps(T / float(rng.choice([3, 10, 17.3])))
    mon.describe(ode=o.kind, method=name, adaptive=adaptive, first=rule.firststep, y0=o.y0.round(4).tolist())
    s = perturbed.scipy_wrapper.WrappedScipyRungeKutta(cls, steprule=rule)
    if rng.random() < 0.3:  # a solver can be used again
        s.solve(gen_ode.ivp(gen_ode.make(np.random.default_rng(5), ("linear",))))
        mon.event("reused")
    a = Attempts(s)
    sol = solve(s, o, a)
    ts = np.asarray(sol.locations)
    stale = None
    told = False
    nodes = []
    for k, (t, y, h, yn, tn, err, ref) in enumerate(a.log):
        retry = k > 0 and a.log[k - 1][0] == t
        f0 = np.asarray(o.f(t, y))
        want, K, werr = rk_step(cls, o.f, t, y, f0, h)
        scale = 1 + np.abs(y).max()
        ok = np.abs(yn - want).max() <= 1e-10 * scale * (1 + np.abs(K).max())
        if retry and not ok:
            bad, Kb, eb = rk_step(cls, o.f, t, y, stale, h)
            if np.abs(yn - bad).max() <= 1e-10 * scale * (1 + np.abs(Kb).max()):
                if not told:
                    told = True
                    mon.check("retried-step", False, f"KNOWN stale slope: after a rejected step from t={t}, the retry with step {h} "
                              "used the slope at the end of the rejected step")
                K, want, werr, ok = Kb, bad, eb, True
        mon.check("runge-kutta-step", ok, f"step {k} (retry {retry}) from {t} by {h}: {yn}, expected {want}")
        mon.check("step-end", abs(tn - t - h) < 1e-14 * (1 + abs(t)))
        mon.check("embedded-error", np.abs(err - werr).max() <= 1e-10 * (1 + np.abs(werr).max()), f"step {k}: {err} expected {werr}")
        mon.check("reference-state", np.allclose(np.abs(ref), np.abs(y)))
        stale = K[-1]
        nodes.append((t, y, h, yn, K))
        mon.event("retry" if retry else "step")
    acc = [n for n, m in zip(nodes, nodes[1:]) if m[0] != n[0]] + [nodes[-1]]
    mon.check("accepted-steps", len(acc) == len(ts) - 1, f"{len(acc)} {len(ts)}")
    for k, (t, y, h, yn, K) in enumerate(acc):
        mon.check("states", np.array_equal(sol.states[k].mean, y) and np.array_equal(sol.states[k + 1].mean, yn), f"state {k}")
    qs = []
    for _ in range(6):
        k = int(rng.integers(len(acc)))
        u = float(rng.choice([0.0, 0.07, 0.5, 0.8, 1.0]))
        t, y, h, yn, K = acc[k]
        tt = t + u * h
        want = dense(cls, t, h, y, K, tt)
        got = sol(float(tt))
        mon.check("dense-output", np.abs(got.mean - want).max() < 1e-9 * (1 + np.abs(want).max()) * (1 + np.abs(K).max()), f"at {u} of step {k}: {got.mean} expected {want}")
        qs.append((tt, want))
    qs.sort(key=lambda p: p[0])
    got = sol(np.array([p[0] for p in qs]))
    mon.check("dense-output-many", len(got) == 6 and np.allclose(np.asarray(got.mean), np.stack([p[1] for p in qs]), rtol=1e-8, atol=1e-9))


@scenario(P, "perturbation", quick=120)
def perturbation(mon, rng):
    """Perturbed step sizes are positive and have the stated mean and spread."""
    h = float(10 ** rng.uniform(-2, -0.1))
    p = int(rng.integers(1, 6))
    c = float(10 ** rng.uniform(-3, 0))
    if rng.random() < 0.35:  # strong perturbations
        h, p, c = float(rng.uniform(0.75, 0.97)), int(rng.integers(1, 3)), float(rng.uniform(0.8, 0.999))
    which = str(rng.choice(["uniform", "lognormal"]))
    mon.describe(h=round(h, 5), p=p, c=round(c, 5), which=which)
    fn = getattr(perturbed.step, f"perturb_{which}", None) or getattr(
        __import__("probnum.diffeq.perturbed.step._perturbation_functions", fromlist=["x"]), f"perturb_{which}")
    N = 4000
    before = np.random.get_state()[1].copy()
    x = np.asarray(fn(rng=np.random.default_rng(int(rng.integers(1 << 31))), step=h, solver_order=p, noise_scale=c, size=N))
    mon.check("size", x.shape == (N,), f"{x.shape}")
    mon.check("no-global-randomness", np.array_equal(before, np.random.get_state()[1]))
    mon.check("positive", np.all(x > 0))
    if which == "uniform":
        w = c * h ** (p + 0.5)
        mon.check("range", np.all(np.abs(x - h) <= w * (1 + 1e-9) + 4e-16), f"{np.abs(x - h).max()} exceeds {w}")
        std = w / np.sqrt(3)
    else:
        std = h * np.sqrt(c) * h**p
    if std / h > 1e-6:
        mon.check("mean", abs(x.mean() - h) < 6 * std / np.sqrt(N) + 1e-14, f"mean {x.mean()} for step {h} (std {std})")
        if which == "uniform":
            mon.check("fills-range", x.min() < h - 0.98 * w and x.max() > h + 0.98 * w, f"[{x.min()}, {x.max()}] for {h} +- {w}")
        r = x.std() / std
        mon.check("spread", 0.8 < r < 1.25 or std / h > 0.5, f"std {x.std()}, expected {std}")
    s = fn(rng=np.random.default_rng(1), step=h, solver_order=p, noise_scale=c)
    mon.check("scalar", np.ndim(s) == 0)
    if which == "uniform":
        try:
            fn(rng=np.random.default_rng(1), step=1.0 + h, solver_order=p, noise_scale=c)
        except ValueError:
            mon.check("large-steps-refused", True)
        else:
            mon.check("large-steps-refused", False, "step above one accepted")


@scenario(P, "perturbed-solver", quick=300)
def perturbed_solver(mon, rng):
    """A perturbed step is the step of the wrapped method over the perturbed step size."""
    o = gen_ode.make(rng)
    name = str(rng.choice(list(UNIT)))
    cls = UNIT[name]
    how = str(rng.choice(["lognormal", "uniform"]))
    T = o.tmax - o.t0
    if how == "uniform":
        T = min(T, 0.95)
        o.tmax = o.t0 + T
    c = float(rng.choice([0.01, 0.5, 2.0])) if how == "lognormal" else float(rng.choice([0.01, 0.9]))
    adaptive = bool(rng.random() < 0.5)
    if adaptive:
        tol = 10 ** float(rng.uniform(-6, -2))
        rule = stepsize.AdaptiveSteps(firststep=T * float(rng.choice([0.01, 0.3])), atol=tol, rtol=tol)
    else:
        rule = stepsize.ConstantSteps(T / float(rng.choice([3, 10, 17.3, 3, 10, 17.3, 75])))
    seed = int(rng.integers(1 << 31))
    mon.describe(ode=o.kind, method=name, how=how, c=c, adaptive=adaptive, y0=o.y0.round(4).tolist())

    def build(sd):
        inner = perturbed.scipy_wrapper.WrappedScipyRungeKutta(cls, steprule=rule)
        mk = getattr(perturbed.step.PerturbedStepSolver, f"construct_with_{how}_perturbation")
        return inner, mk(rng=np.random.default_rng(sd), solver=inner, noise_scale=c)

    inner, s = build(seed)
    reused = bool(rng.random() < 0.25)
    if reused:  # a solver can be used again
        s.solve(gen_ode.ivp(gen_ode.make(np.random.default_rng(5), ("linear",)))) if how == "lognormal" else s.solve(gen_ode.ivp(o))
        mon.event("reused")
    ai, ao = Attempts(inner), Attempts(s)
    sol = solve(s, o, ao)
    ts = np.asarray(sol.locations)
    mon.check("one-inner-attempt-each", len(ai.log) == len(ao.log))
    stale = None
    acc = []
    for k, (a, b) in enumerate(zip(ai.log, ao.log)):
        t, y, h, yn, tn, err, ref = a
        T_, Y_, dt, YN, TN, ERR, REF = b
        mon.check("same-start", t == T_ and np.array_equal(y, Y_))
        mon.check("same-result", np.array_equal(yn, YN) and np.array_equal(err, ERR))
        mon.check("time-advances-unperturbed", abs(TN - T_ - dt) < 1e-14 * (1 + abs(T_)), f"{TN - T_} for step {dt}")
        if how == "uniform":
            mon.check("perturbed-step", abs(h - dt) <= c * dt ** (cls.order + 0.5) * (1 + 1e-9) + 1e-15, f"{h} {dt}")
        else:
            mon.check("perturbed-step", h > 0)
            sg = np.sqrt(np.log1p(c * dt ** (2 * cls.order)))
            mon.check("perturbed-step-size", abs(np.log(h / dt)) < 7 * sg + sg**2 + 1e-12, f"{h} for {dt}")
        retry = k > 0 and ao.log[k - 1][0] == T_
        # the slope at the start: of the start time, or of the perturbed end of the previous step
        cand = [np.asarray(o.f(t, y))] + ([stale] if stale is not None else [])
        K = None
        for f0 in cand:
            w, K_, e = rk_step(cls, o.f, t, y, f0, h)
            if np.abs(yn - w).max() <= 1e-10 * (1 + np.abs(y).max()) * (1 + np.abs(K_).max()):
                K = K_
                break
        mon.check("runge-kutta-step", K is not None, f"step {k}: {yn}, expected {w}")
        if K is None:
            return
        stale = K[-1]
        if not (k + 1 < len(ao.log) and ao.log[k + 1][0] == T_):
            acc.append((T_, y, dt, h, yn, K))
        mon.event("retry" if retry else "step")
    dmax = max(b[2] for b in ao.log)
    # (perturbations below the resolution of floating-point numbers vanish)
    visible = (c * dmax ** (2 * cls.order) if how == "lognormal" else (c * dmax ** (cls.order - 0.5)) ** 2) > 1e-13 and dmax > 1e-2
    mon.check("perturbs", not visible or any(a[2] != b[2] for a, b in zip(ai.log, ao.log)))
    mon.check("accepted-steps", len(acc) == len(ts) - 1, f"{len(acc)} {len(ts)}")
    mon.check("scales", np.allclose(sol.scales, [h / dt for _, _, dt, h, _, _ in acc], rtol=1e-12), "recorded step scales")
    for k, (t, y, dt, h, yn, K) in enumerate(acc):
        mon.check("states", np.array_equal(sol.states[k].mean, y) and np.array_equal(sol.states[k + 1].mean, yn))
    for _ in range(8):
        k = int(rng.integers(len(acc)))
        u = float(rng.choice([0.0, 0.07, 0.5, 0.8, 1.0, 1.3]))
        t, y, dt, h, yn, K = acc[k]
        if u > 1:
            t, y, dt, h, yn, K = acc[-1]
            k = len(acc) - 1
        # the dense output runs through the states, stretched to the unperturbed step
        want = dense(cls, t, h, y, K, t + u * h)
        got = sol(float(t + u * dt))
        mon.check("dense-output", np.abs(got.mean - want).max() < 1e-8 * (1 + np.abs(want).max()) * (1 + np.abs(K).max()), f"at {u} of step {k}/{len(acc)}: {got.mean} expected {want}")
    i3, s3 = build(seed + 1)
    a3 = Attempts(i3)
    try:
        s3.solve(gen_ode.ivp(o))
        same = [x[2] for x in a3.log] == [x[2] for x in ai.log]
        mon.check("seed-matters", not same or not visible, "the same perturbations with another generator")
    except RuntimeError:  # runaway retries, see `solve`
        pass
    if reused:
        return
    _, s2 = build(seed)
    again = s2.solve(gen_ode.ivp(o))
    mon.check("reproducible", np.array_equal(np.asarray(again.states.mean), np.asarray(sol.states.mean)))


@scenario(P, "interface", quick=60)
def interface(mon, rng):
    """perturbsolve_ivp and probsolve_ivp configure what they are asked for and refuse the rest."""
    o = gen_ode.make(rng)
    T = min(o.tmax - o.t0, 0.9)
    bad = str(rng.choice(["method", "perturb", "no-step", "no-tol", "prob-method", "prob-diffusion", "prob-no-step", "prob-no-tol", "none"]))
    mon.describe(bad=bad, ode=o.kind, T=round(T, 3))
    kw = dict(rng=np.random.default_rng(1))
    pk = {}
    if bad == "method":
        kw["method"] = "RK5"
    elif bad == "perturb":
        kw["perturb"] = "step-cauchy"
    elif bad == "no-step":
        kw["adaptive"] = False
    elif bad == "no-tol":
        kw["atol"] = None
    elif bad == "prob-method":
        pk["method"] = "EK7"
    elif bad == "prob-diffusion":
        pk["diffusion_model"] = "wiggly"
    elif bad == "prob-no-step":
        pk["adaptive"] = False
    elif bad == "prob-no-tol":
        pk["rtol"] = None
    if bad != "none":
        try:
            if pk:
                diffeq.probsolve_ivp(o.f, o.t0, o.t0 + T, o.y0, df=o.df, **pk)
            else:
                diffeq.perturbsolve_ivp(o.f, o.t0, o.t0 + T, o.y0, **kw)
        except ValueError:
            mon.check("refused", True)
        else:
            mon.check("refused", False, f"{bad} accepted")
        return
    n = int(rng.integers(3, 12))
    stops = np.sort(o.t0 + T * rng.uniform(0.1, 0.9, 2))
    for m in UNIT:
        for p in ("step-uniform", "step-lognormal"):
            sol = diffeq.perturbsolve_ivp(o.f, o.t0, o.t0 + T, o.y0, rng=np.random.default_rng(2), method=m, perturb=p, noise_scale=0.5,
                                          adaptive=False, step=T / n, time_stops=stops)
            inner = perturbed.scipy_wrapper.WrappedScipyRungeKutta(UNIT[m], steprule=stepsize.ConstantSteps(T / n))
            s = getattr(perturbed.step.PerturbedStepSolver, f"construct_with_{p[5:]}_perturbation")(rng=np.random.default_rng(2), solver=inner, noise_scale=0.5)
            o.tmax = o.t0 + T
            ref = s.solve(gen_ode.ivp(o), stop_at=stops)
            mon.check("as-configured", np.array_equal(np.asarray(sol.states.mean), np.asarray(ref.states.mean)), f"{m} {p}")

"""M02: continuous-time priors propagate and condition like the SDE they describe."""
import numpy as np
import scipy.integrate
import scipy.linalg as sl
from probnum import config, linops, randvars
from probnum.randprocs import markov
from probnum.randprocs.markov import continuous, integrator

from pnmon import refmarkov as ref
from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense
from pnmon.props.m01 import BWD, FWD, check_rv

P = "M02"


def drift_iwp(q):
    return np.diag(np.ones(q), 1)


def drift_ioup(q, speed):
    F = np.diag(np.ones(q), 1)
    F[-1, -1] = -speed
    return F


def drift_matern(q, ell):
    # (d/dt + lam)^(q+1): companion matrix from the polynomial coefficients
    lam = np.sqrt(2 * (q + 0.5)) / ell
    coef = np.poly([-lam] * (q + 1))  # highest power first
    F = np.diag(np.ones(q), 1)
    F[-1, :] = -coef[::-1][: q + 1]
    return F


def make(rng, d=None, q=None, fi=None, bi=None):
    q = int(rng.integers(0, 5)) if q is None else q
    d = int(rng.integers(1, 4)) if d is None else d
    fi = str(rng.choice(FWD)) if fi is None else fi
    bi = str(rng.choice(BWD)) if bi is None else bi
    kind = str(rng.choice(["iwp", "ioup", "matern"]))
    kw = dict(num_derivatives=q, wiener_process_dimension=d, forward_implementation=fi, backward_implementation=bi)
    if kind == "iwp":
        tr, F1 = integrator.IntegratedWienerTransition(**kw), drift_iwp(q)
    elif kind == "ioup":
        sp = float(rng.uniform(0.1, 3))
        tr, F1 = integrator.IntegratedOrnsteinUhlenbeckTransition(driftspeed=sp, **kw), drift_ioup(q, sp)
    else:
        ell = float(rng.uniform(0.5, 3))
        tr, F1 = integrator.MaternTransition(lengthscale=ell, **kw), drift_matern(q, ell)
    F = np.kron(np.eye(d), F1)
    e = np.zeros((q + 1, 1))
    e[-1] = 1.0
    L = np.kron(np.eye(d), e)
    return kind, tr, F, L, (kind, q, d, fi, bi)


def step_size(rng, F):
    """Step sizes over three decades, within a few time constants of the prior."""
    lam = np.max(np.abs(np.linalg.eigvals(F)))
    return min(float(10 ** rng.uniform(-2, 0.6)), 2.0 / lam if lam > 1e-9 else np.inf)


def scaled_close(mon, rule, got, want, C, tol, what):
    """Compare covariances entry-wise relative to the standard deviations."""
    s = np.sqrt(np.maximum(np.diag(C), 1e-300))
    mon.close(rule, dense(got) / np.outer(s, s), want / np.outer(s, s), tol, what)


@scenario(P, "integrator-forward", quick=500)
def integ_forward(mon, rng):
    kind, tr, F, L, key = make(rng)
    dt, diff = step_size(rng, F), (1.0 if rng.random() < 0.5 else float(rng.uniform(0.1, 9)))
    mon.describe(key=key, dt=dt, diffusion=diff)
    n = F.shape[0]
    A, Q, _ = ref.van_loan(F, L, dt, diff)
    m, C = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(m, C)
    out, info = tr.forward_rv(rv, 0.3, dt=dt, compute_gain=True, _diffusion=diff)
    wC = A @ C @ A.T + Q
    sc = np.sqrt(np.diag(wC))
    mon.close("mean", (dense(out.mean) - A @ m) / sc, np.zeros(n), 1e-7, str(key))
    scaled_close(mon, "cov", out.cov, wC, wC, 1e-7, str(key))
    if out.cov_cholesky_is_precomputed:
        Lc = dense(out.cov_cholesky)
        scaled_close(mon, "cov-cholesky", Lc @ Lc.T, wC, wC, 1e-7, str(key))
    mon.close("crosscov", dense(info["crosscov"]), C @ A.T, 1e-7, str(key))
    # the gain is what regression of the old on the new state gives
    mon.close("gain", dense(info["gain"]) @ wC, C @ A.T, 1e-5, str(key))
    x = rng.standard_normal(n)
    o2, _ = tr.forward_realization(x, t=0.3, dt=dt, _diffusion=diff)
    mon.close("realization-mean", dense(o2.mean), A @ x, 1e-7, str(key))
    scaled_close(mon, "realization-cov", o2.cov, Q, Q, 1e-6, str(key))


@scenario(P, "integrator-discretise", quick=300)
def integ_disc(mon, rng):
    kind, tr, F, L, key = make(rng)
    dt = step_size(rng, F)
    mon.describe(key=key, dt=dt)
    A, Q, _ = ref.van_loan(F, L, dt)
    disc = tr.discretise(dt)
    mon.close("transition-matrix", dense(disc.transition_matrix), A, 1e-8, str(key))
    # without preconditioning only an accuracy relative to the largest entry can be had
    if kind == "iwp":
        scaled_close(mon, "noise-cov", disc.noise.cov, Q, Q, 1e-6, str(key))
    else:
        mon.close("noise-cov", dense(disc.noise.cov) / Q.max(), Q / Q.max(), 1e-8, str(key))
    mon.close("noise-mean", dense(disc.noise.mean), np.zeros(F.shape[0]), 1e-12)
    if disc.noise.cov_cholesky_is_precomputed:
        Lc = dense(disc.noise.cov_cholesky)
        scaled_close(mon, "noise-cholesky", Lc @ Lc.T, Q, Q, 1e-6, str(key))
    mon.close("drift", dense(tr.drift_matrix), F, 1e-9, str(key))
    mon.close("dispersion", dense(tr.dispersion_matrix), L, 0.0, str(key))
    x = rng.standard_normal(F.shape[0])
    mon.close("drift-function", tr.drift_function(0.1, x), F @ x, 1e-9, str(key))
    mon.close("drift-jacobian", dense(tr.drift_jacobian(0.1, x)), F, 1e-9, str(key))


@scenario(P, "integrator-semigroup", quick=300)
def integ_semigroup(mon, rng):
    """Propagating by dt1 and then dt2 equals propagating by dt1+dt2."""
    kind, tr, F, L, key = make(rng)
    d1, d2, t = step_size(rng, F), step_size(rng, F), float(rng.uniform(-3, 3))
    mon.describe(key=key, d1=d1, d2=d2)
    n = F.shape[0]
    rv = randvars.Normal(rng.standard_normal(n), ref.spd(rng, n))
    diff = float(rng.uniform(0.2, 4))
    a, _ = tr.forward_rv(rv, t, dt=d1, _diffusion=diff)
    b, _ = tr.forward_rv(a, t + d1, dt=d2, _diffusion=diff)
    c, _ = tr.forward_rv(rv, t, dt=d1 + d2, _diffusion=diff)
    C = dense(c.cov)
    sc = np.sqrt(np.diag(C))
    mon.close("mean", (dense(b.mean) - dense(c.mean)) / sc, np.zeros(n), 1e-6, str(key))
    scaled_close(mon, "cov", b.cov, C, C, 1e-6, str(key))


@scenario(P, "integrator-backward", quick=500)
def integ_backward(mon, rng):
    kind, tr, F, L, key = make(rng, q=int(rng.integers(0, 4)))
    dt, diff = max(0.1, step_size(rng, F)), float(rng.uniform(0.3, 4))
    how = str(rng.choice(["plain", "gain+fwd"]))
    mon.describe(key=key, dt=dt, diffusion=diff, how=how)
    n = F.shape[0]
    A, Q, _ = ref.van_loan(F, L, dt, diff)
    m, C = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(m, C)
    # an obtained variable no wider than the prediction, as a smoother would see it
    pm, PC, _ = ref.forward(m, C, A, np.zeros(n), Q)
    K = PC @ np.linalg.inv(PC + PC.mean() ** 2 * np.eye(n) * rng.uniform(0.1, 2))
    Co = PC - K @ PC
    Co = (Co + Co.T) / 2
    mo = pm + np.linalg.cholesky(PC) @ rng.standard_normal(n)
    ro = randvars.Normal(mo, Co)
    kw = {}
    if how != "plain":
        f, info = tr.forward_rv(rv, 0.1, dt=dt, compute_gain=True, _diffusion=diff)
        kw = dict(rv_forwarded=f, gain=info["gain"])
    out, _ = tr.backward_rv(ro, rv, t=0.1, dt=dt, _diffusion=diff, **kw)
    wm, wC, _ = ref.backward(m, C, A, np.zeros(n), Q, mo, Co)
    mon.close("backward-mean", dense(out.mean), wm, 1e-5, f"{key} {how}")
    mon.close("backward-cov", dense(out.cov), wC, 1e-5, f"{key} {how}")
    y = mo
    out, _ = tr.backward_realization(y, rv, t=0.1, dt=dt, _diffusion=diff, **kw)
    wm, wC, _ = ref.backward(m, C, A, np.zeros(n), Q, y, np.zeros((n, n)))
    mon.close("backward-realization-mean", dense(out.mean), wm, 1e-5, f"{key} {how}")
    mon.close("backward-realization-cov", dense(out.cov), wC, 1e-5, f"{key} {how}")


@scenario(P, "lti-sde", quick=400)
def lti(mon, rng):
    n, w = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    F = ref.stable_drift(rng, n)
    L = rng.standard_normal((n, w))
    u = rng.standard_normal(n) if rng.random() < 0.7 else np.zeros(n)
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    dt, diff = float(10 ** rng.uniform(-1, 0.3)), float(rng.uniform(0.3, 4))
    mon.describe(n=n, w=w, impl=(fi, bi), dt=dt, diff=diff, force=bool(np.any(u)))
    tr = continuous.LTISDE(F, u, L, forward_implementation=fi, backward_implementation=bi)
    A, Q, s = ref.van_loan(F, L, dt, 1.0, u)
    disc = tr.discretise(dt)
    mon.close("transition-matrix", disc.transition_matrix, A, 1e-8)
    mon.close("noise-cov", disc.noise.cov, Q, 1e-8)
    mon.close("shift", disc.noise.mean, s, 1e-8)
    if np.linalg.eigvalsh(Q).min() < 1e-6 and "sqrt" in (fi, bi):
        mon.event("skip-sqrt-singular-noise")
        return
    m, C = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(m, C)
    out, info = tr.forward_rv(rv, 0.2, dt=dt, compute_gain=True, _diffusion=diff)
    wm, wC, cross = ref.forward(m, C, A, s, diff * Q)
    check_rv(mon, out, wm, wC, f"lti forward {fi}")
    mo, Co = wm + 0.3 * rng.standard_normal(n), wC * 0.5
    out, _ = tr.backward_rv(randvars.Normal(mo, Co), rv, t=0.2, dt=dt, _diffusion=diff)
    bm, bC, _ = ref.backward(m, C, A, s, diff * Q, mo, Co)
    check_rv(mon, out, bm, bC, f"lti backward {fi}/{bi}", 1e-6)


@scenario(P, "linear-sde", quick=120)
def linear_sde(mon, rng):
    """Time-varying linear SDEs: moments solve the moment equations."""
    n, w = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    F0, F1 = ref.stable_drift(rng, n), 0.4 * rng.standard_normal((n, n))
    L0, L1 = rng.standard_normal((n, w)), 0.3 * rng.standard_normal((n, w))
    u0 = rng.standard_normal(n)
    F = lambda t: F0 + np.sin(t) * F1
    L = lambda t: L0 + np.cos(t) * L1
    u = lambda t: u0 * np.cos(2 * t)
    fi = str(rng.choice(FWD))
    t0, dt, diff = float(rng.uniform(-1, 1)), float(rng.uniform(0.1, 1.2)), float(rng.uniform(0.3, 3))
    mon.describe(n=n, w=w, impl=fi, t0=t0, dt=dt)
    tr = continuous.LinearSDE(n, w, F, u, L, forward_implementation=fi, mde_atol=1e-9, mde_rtol=1e-9)
    m, C = rng.standard_normal(n), ref.spd(rng, n)

    def rhs(t, y):
        mm, V = y[:n], y[n:n + n * n].reshape(n, n)
        Phi = y[n + n * n:].reshape(n, n)
        Ft, Lt = F(t), L(t)
        return np.concatenate([Ft @ mm + u(t), (Ft @ V + V @ Ft.T + diff * Lt @ Lt.T).ravel(), (Ft @ Phi).ravel()])

    sol = scipy.integrate.solve_ivp(rhs, (t0, t0 + dt), np.concatenate([m, C.ravel(), np.eye(n).ravel()]),
                                    method="DOP853", atol=1e-11, rtol=1e-11)
    y = sol.y[:, -1]
    wm, wC, Phi = y[:n], y[n:n + n * n].reshape(n, n), y[n + n * n:].reshape(n, n)
    if np.linalg.eigvalsh(wC).min() < 1e-3:
        raise Skip
    rv = randvars.Normal(m, C)
    out, _ = tr.forward_rv(rv, t0, dt=dt, _diffusion=diff)
    check_rv(mon, out, wm, wC, f"mde forward {fi}", 1e-5)
    mo, Co = wm + 0.3 * rng.standard_normal(n), 0.5 * wC
    bo, _ = tr.backward_rv(randvars.Normal(mo, Co), rv, t=t0, dt=dt, _diffusion=diff)
    G = np.linalg.solve(wC, Phi @ C).T
    check_rv(mon, bo, m + G @ (mo - wm), C + G @ (Co - wC) @ G.T, f"mde backward {fi}", 1e-4)
    x = rng.standard_normal(n)
    mon.close("drift", tr.drift_function(t0, x), F(t0) @ x + u(t0), 1e-12)


@scenario(P, "matern-autocorrelation", quick=100)
def matern_acf(mon, rng):
    """In its stationary regime a Matern prior has the Matern autocorrelation."""
    q, ell = int(rng.integers(0, 4)), float(rng.uniform(0.4, 3))
    tr = integrator.MaternTransition(num_derivatives=q, wiener_process_dimension=1, lengthscale=ell)
    F, L = dense(tr.drift_matrix), dense(tr.dispersion_matrix)
    C = sl.solve_continuous_lyapunov(F, -L @ L.T)
    tau = float(rng.uniform(0.05, 0.8)) * ell
    mon.describe(q=q, ell=ell, tau=tau)
    A = dense(tr.discretise(tau).transition_matrix)
    r = np.sqrt(2 * (q + 0.5)) * tau / ell
    poly = {0: 1.0, 1: 1 + r, 2: 1 + r + r**2 / 3, 3: 1 + r + 2 * r**2 / 5 + r**3 / 15}[q]
    mon.close("matern-kernel", (A @ C)[0, 0] / C[0, 0], poly * np.exp(-r), 1e-7, f"q={q}")
    out, _ = tr.forward_rv(randvars.Normal(np.zeros(q + 1), C), 0.0, dt=tau)
    scaled_close(mon, "stationary", out.cov, C, C, 1e-6, f"q={q}")


@scenario(P, "matrix-free-iwp", quick=120)
def mf_iwp(mon, rng):
    q, d = int(rng.integers(0, 4)), int(rng.integers(1, 4))
    dt, diff = float(10 ** rng.uniform(-1, 0.3)), float(rng.uniform(0.3, 4))
    mon.describe(q=q, d=d, dt=dt, diff=diff)
    F = np.kron(np.eye(d), drift_iwp(q))
    e = np.zeros((q + 1, 1))
    e[-1] = 1
    n = F.shape[0]
    A, Q, _ = ref.van_loan(F, np.kron(np.eye(d), e), dt, diff)
    m, C = rng.standard_normal(n), ref.spd(rng, n)
    with config(matrix_free=True):
        tr = integrator.IntegratedWienerTransition(num_derivatives=q, wiener_process_dimension=d)
        rv = randvars.Normal(m, linops.aslinop(C))
        out, info = tr.forward_rv(rv, 0.0, dt=dt, compute_gain=True, _diffusion=diff)
        wC = A @ C @ A.T + Q
        mon.close("mean", dense(out.mean), A @ m, 1e-7)
        mon.close("cov", dense(out.cov), wC, 1e-7)
        mon.check("stays-matrix-free", isinstance(out.cov, linops.LinearOperator), type(out.cov).__name__)
        mon.close("gain", dense(info["gain"]) @ wC, C @ A.T, 1e-5)
        mo, Co = A @ m + 0.1, 0.5 * wC
        b, _ = tr.backward_rv(randvars.Normal(mo, linops.aslinop(Co)), rv, t=0.0, dt=dt, _diffusion=diff)
        bm, bC, _ = ref.backward(m, C, A, np.zeros(n), Q, mo, Co)
        mon.close("backward-mean", dense(b.mean), bm, 1e-5)
        mon.close("backward-cov", dense(b.cov), bC, 1e-5)
        mon.close("drift", dense(tr.drift_matrix), F, 0.0)
        disc = tr.discretise(dt)
        A1, Q1, _ = ref.van_loan(F, np.kron(np.eye(d), e), dt)
        mon.close("transition-matrix", dense(disc.transition_matrix), A1, 1e-8)
        mon.close("noise-cov", dense(disc.noise.cov), Q1, 1e-8)
        c = int(rng.integers(q + 1))
        E = np.kron(np.eye(d), np.eye(q + 1)[c:c + 1])
        mon.close("projection", dense(tr.proj2coord(c)), E, 0.0)


@scenario(P, "coordinates", quick=120)
def coords(mon, rng):
    """Projections and reorderings pick the coordinate and derivative they name."""
    q, d = int(rng.integers(0, 5)), int(rng.integers(1, 5))
    mon.describe(q=q, d=d)
    tr = integrator.IntegratedWienerTransition(num_derivatives=q, wiener_process_dimension=d)
    X = rng.standard_normal((d, q + 1))  # X[i, k]: k-th derivative of coordinate i
    for k in range(q + 1):
        mon.close("proj2coord", tr.proj2coord(k) @ X.ravel(), X[:, k], 0.0, f"d={d} q={q} k={k}")
    dw = X.T.ravel()
    mon.close("derivwise-to-coordwise", integrator.convert.convert_derivwise_to_coordwise(dw, q, d), X.ravel(), 0.0)
    mon.close("coordwise-to-derivwise", integrator.convert.convert_coordwise_to_derivwise(X.ravel(), q, d), dw, 0.0)
    dt = float(10 ** rng.uniform(-3, 1))
    Pm, Pi = dense(tr.precon(dt)), dense(tr.precon.inverse(dt))
    mon.close("preconditioner-inverse", Pm @ Pi, np.eye(d * (q + 1)), 1e-10)


@scenario(P, "needs-step", quick=30)
def needs_step(mon, rng):
    kind, tr, F, L, key = make(rng)
    mon.describe(key=key)
    n = F.shape[0]
    rv = randvars.Normal(np.zeros(n), np.eye(n))
    for f in (lambda: tr.forward_rv(rv, 0.0), lambda: tr.backward_rv(rv, rv, t=0.0)):
        try:
            f()
            mon.check("refused", False, f"{key}: accepted a continuous-time step without increment")
        except ValueError:
            mon.check("refused", True)
            mon.reject("dt-missing")

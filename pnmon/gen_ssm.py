"""Random linear-Gaussian state-space models with an independent batch reference."""
import numpy as np
import scipy.integrate
from probnum import problems, randprocs, randvars
from probnum.randprocs.markov import MarkovProcess, MarkovSequence, continuous, discrete, integrator

from pnmon import refmarkov as ref
from pnmon.props.m01 import BWD, FWD
from pnmon.props.m02 import drift_ioup, drift_iwp, drift_matern


class SSM:
    """prior(t_old, t_new) -> (A, Q, s); the probnum objects; data."""


def times(rng, n, t0, close=True):
    dts = rng.uniform(0.1, 1.0, n)
    if close and n > 2 and rng.random() < 0.15:  # two observations in quick succession
        dts[int(rng.integers(1, n))] = 10 ** float(rng.uniform(-4, -2))
    if rng.random() < 0.3:
        dts = np.full(n, float(rng.uniform(0.2, 0.6)))
    ts = t0 + np.cumsum(dts)
    if rng.random() < 0.5:
        ts = ts - dts[0]
        ts[0] = t0  # the first observation is taken at the initial time
    return ts


def prior(rng, kinds=("iwp", "ioup", "matern", "lti", "discrete", "tv-discrete", "tv-sde")):
    kind = str(rng.choice(kinds))
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    s = SSM()
    s.kind, s.impl = kind, (fi, bi)
    s.t0 = float(rng.choice([0.0, 0.0, -1.3, 2.5]))
    kw = dict(forward_implementation=fi, backward_implementation=bi)
    if kind in ("iwp", "ioup", "matern"):
        q, d = int(rng.integers(0, 3)), int(rng.integers(1, 3))
        n = d * (q + 1)
        m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
        irv = randvars.Normal(m0, C0)
        pk = dict(initarg=s.t0, num_derivatives=q, wiener_process_dimension=d, initrv=irv, **kw)
        if kind == "iwp":
            s.process, F1 = integrator.IntegratedWienerProcess(**pk), drift_iwp(q)
        elif kind == "ioup":
            sp = float(rng.uniform(0.2, 2))
            s.process, F1 = integrator.IntegratedOrnsteinUhlenbeckProcess(driftspeed=sp, **pk), drift_ioup(q, sp)
        else:
            el = float(rng.uniform(0.8, 3))
            s.process, F1 = integrator.MaternProcess(lengthscale=el, **pk), drift_matern(q, el)
        e = np.zeros((q + 1, 1))
        e[-1] = 1
        F, L = np.kron(np.eye(d), F1), np.kron(np.eye(d), e)
        s.step = lambda a, b, diff=1.0: ref.van_loan(F, L, b - a, diff)
    elif kind == "lti":
        n = int(rng.integers(1, 4))
        F = ref.stable_drift(rng, n) * 0.6
        L = np.linalg.cholesky(ref.spd(rng, n))
        u = rng.standard_normal(n) if rng.random() < 0.6 else np.zeros(n)
        m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
        s.process = MarkovProcess(initarg=s.t0, initrv=randvars.Normal(m0, C0),
                                  transition=continuous.LTISDE(F, u, L, **kw))
        s.step = lambda a, b, diff=1.0: ref.van_loan(F, L, b - a, diff, u)
    elif kind in ("discrete", "tv-discrete"):
        n = int(rng.integers(1, 4))
        A = rng.standard_normal((n, n)) * 0.7
        Q = ref.spd(rng, n)
        u = rng.standard_normal(n)
        m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
        if kind == "discrete":
            tr = discrete.LTIGaussian(transition_matrix=A, noise=randvars.Normal(u, Q), **kw)
            s.step = lambda a, b, diff=1.0: (A, diff * Q, u)
        else:
            At = lambda t: A * (1 + 0.3 * np.sin(t))
            ut = lambda t: u * np.cos(t)
            Qt = lambda t: Q * (1.2 + np.sin(2 * t))
            tr = discrete.LinearGaussian(input_dim=n, output_dim=n, transition_matrix_fun=At,
                                         noise_fun=lambda t: randvars.Normal(ut(t), Qt(t)), **kw)
            # the transition out of the state at time a
            s.step = lambda a, b, diff=1.0: (At(a), diff * Qt(a), ut(a))
        s.process = MarkovSequence(initarg=s.t0, initrv=randvars.Normal(m0, C0), transition=tr)
    elif kind == "tv-sde":
        n = int(rng.integers(1, 3))
        F0, F1 = ref.stable_drift(rng, n) * 0.6, 0.3 * rng.standard_normal((n, n))
        L = np.linalg.cholesky(ref.spd(rng, n))
        u0 = rng.standard_normal(n)
        F = lambda t: F0 + np.sin(t) * F1
        u = lambda t: u0 * np.cos(2 * t)
        Lt = lambda t: L * (1 + 0.2 * np.cos(t))
        m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
        s.process = MarkovProcess(initarg=s.t0, initrv=randvars.Normal(m0, C0), transition=continuous.LinearSDE(
            n, n, F, u, Lt, mde_atol=1e-10, mde_rtol=1e-10, forward_implementation=fi))

        def step(a, b, diff=1.0):
            def rhs(t, y):
                Phi, V, mm = y[:n * n].reshape(n, n), y[n * n:2 * n * n].reshape(n, n), y[2 * n * n:]
                Ft = F(t)
                return np.concatenate([(Ft @ Phi).ravel(), (Ft @ V + V @ Ft.T + diff * Lt(t) @ Lt(t).T).ravel(), Ft @ mm + u(t)])

            y = scipy.integrate.solve_ivp(rhs, (a, b), np.concatenate([np.eye(n).ravel(), np.zeros(n * n), np.zeros(n)]),
                                          method="DOP853", atol=1e-11, rtol=1e-11).y[:, -1]
            return y[:n * n].reshape(n, n), y[n * n:2 * n * n].reshape(n, n), y[2 * n * n:]

        s.step = step
    s.m0, s.C0, s.n = m0, C0, len(m0)
    s.continuous = kind not in ("discrete", "tv-discrete")
    s.tol = 1e-5 if kind == "tv-sde" else 1e-6
    return s


def observe(rng, s, N, same_model=None, close=False):
    """Observation times, models and data; reference arrays H_k, R_k, c_k."""
    s.ts = times(rng, N, s.t0, close)
    m = int(rng.integers(1, min(s.n, 2) + 1))
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    mode = str(rng.choice(["shared", "per-time", "time-varying"])) if same_model is None else same_model
    s.meas_mode, s.meas_impl = mode, (fi, bi)
    kw = dict(forward_implementation=fi, backward_implementation=bi)
    H0, R0, c0 = rng.standard_normal((m, s.n)), ref.spd(rng, m), rng.standard_normal(m)
    if mode == "shared":
        mod = discrete.LTIGaussian(transition_matrix=H0, noise=randvars.Normal(c0, R0), **kw)
        s.H, s.R, s.c = [H0] * N, [R0] * N, [c0] * N
        models = mod if rng.random() < 0.5 else [mod] * N
    elif mode == "per-time":
        s.H = [rng.standard_normal((m, s.n)) for _ in range(N)]
        s.R = [ref.spd(rng, m) for _ in range(N)]
        s.c = [rng.standard_normal(m) for _ in range(N)]
        models = [discrete.LTIGaussian(transition_matrix=h, noise=randvars.Normal(c, r), **kw)
                  for h, r, c in zip(s.H, s.R, s.c)]
    else:
        Hf = lambda t: H0 * (1 + 0.5 * np.sin(3 * t))
        Rf = lambda t: R0 * (1.1 + np.cos(t))
        cf = lambda t: c0 * np.sin(t)
        mod = discrete.LinearGaussian(input_dim=s.n, output_dim=m, transition_matrix_fun=Hf,
                                      noise_fun=lambda t: randvars.Normal(cf(t), Rf(t)), **kw)
        s.H, s.R, s.c = [Hf(t) for t in s.ts], [Rf(t) for t in s.ts], [cf(t) for t in s.ts]
        models = [mod] * N
    s.ys = np.stack([s.H[k] @ rng.standard_normal(s.n) + rng.standard_normal(m) for k in range(N)])
    s.problem = problems.TimeSeriesRegressionProblem(locations=s.ts, observations=s.ys, measurement_models=models)
    return s


def batch(s, grid, upto=None, diff=None):
    """Posterior mean/cov of the states at all grid times given y[:upto] (grid contains s.ts)."""
    grid = list(grid)
    first_pred = grid[0] > s.t0
    steps = []
    if first_pred:
        A, Q, u = s.step(s.t0, grid[0]) if diff is None else s.step(s.t0, grid[0], diff(s.t0, grid[0]))
        m, C = A @ s.m0 + u, A @ s.C0 @ A.T + Q
    else:
        m, C = s.m0, s.C0
    for a, b in zip(grid[:-1], grid[1:]):
        steps.append(s.step(a, b) if diff is None else s.step(a, b, diff(a, b)))
    mean, K = ref.joint(steps, m, C)
    n = s.n
    upto = len(s.ts) if upto is None else upto
    if upto:
        import scipy.linalg as sl
        Hs = np.zeros((sum(h.shape[0] for h in s.H[:upto]), len(grid) * n))
        r = 0
        for k in range(upto):
            j = grid.index(s.ts[k])
            h = s.H[k]
            Hs[r:r + h.shape[0], j * n:(j + 1) * n] = h
            r += h.shape[0]
        y = np.concatenate([s.ys[k] - s.c[k] for k in range(upto)])
        mean, K = ref.condition(mean, K, Hs, y, sl.block_diag(*s.R[:upto]))
    return mean.reshape(len(grid), n), K

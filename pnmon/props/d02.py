"""D02: ODE-filter solutions are the Gaussian posteriors of the linearised residual model."""
import math

import numpy as np
from probnum import diffeq, filtsmooth, problems, randprocs, randvars
from probnum.diffeq import odefilter, stepsize

from pnmon import gen_ode
from pnmon.core import Skip, scenario
from pnmon.props.d01 import TOL

P = "D02"


def iwp(q, d, h):
    """Transition matrix and a square root of the process noise of d stacked q-times integrated Wiener processes."""
    n = q + 1
    A = np.zeros((n, n))
    B = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            A[i, j] = h ** (j - i) / math.factorial(j - i)
    # Q = T Qb T with T = diag(h^(q-i+1/2)/(q-i)!), Qb_ij = 1/(2q+1-i-j)
    Qb = np.array([[1.0 / (2 * q + 1 - i - j) for j in range(n)] for i in range(n)])
    T = np.diag([math.sqrt(h) * h ** (q - i) / math.factorial(q - i) for i in range(n)])
    L = T @ np.linalg.cholesky(Qb)
    return np.kron(np.eye(d), A), np.kron(np.eye(d), L)


def proj(q, d, k):
    e = np.zeros((1, q + 1))
    e[0, k] = 1
    return np.kron(np.eye(d), e)


def tria(*blocks):
    """Lower-triangular square root of sum_i B_i B_i^T."""
    M = np.concatenate([np.asarray(b).T for b in blocks], axis=0)
    R = np.linalg.qr(M, mode="r")
    L = np.zeros((blocks[0].shape[0],) * 2)
    L[:, : R.shape[0]] = R.T
    return L


def spd_solve(L, B):
    """(L L^T)^-1 B; where the reference itself breaks down there is nothing to compare with."""
    D = np.abs(np.diag(L))
    if D.min() < 1e-13 * D.max():
        raise Skip()
    return np.linalg.solve(L.T, np.linalg.solve(L, B))


def chol_of(rv):
    return np.asarray(rv.cov_cholesky)


class Rec:
    def __init__(self, q, d, f, df, method):
        self.q, self.d, self.f, self.df, self.method = q, d, f, df, method
        self.H0, self.H1 = proj(q, d, 0), proj(q, d, 1)

    def step(self, m, L, t, h, dynamic):
        A, LQ = iwp(self.q, self.d, h)
        mp = A @ m
        y = self.H0 @ mp
        z = self.H1 @ mp - np.asarray(self.f(t + h, y))
        H = self.H1 if self.method == "EK0" else self.H1 - np.asarray(self.df(t + h, y)) @ self.H0
        L0 = tria(H @ LQ)
        AL = A @ L
        if dynamic:
            w = np.linalg.solve(L0, z)
        else:
            w = np.linalg.solve(tria(H @ LQ, H @ AL), z)
        s2 = w @ w / self.d
        s2 = max(s2, 1e-300)
        err = np.sqrt(s2) * np.sqrt(np.sum(L0**2, axis=1))
        sc = np.sqrt(s2) if dynamic else 1.0
        LP = tria(AL, sc * LQ)
        HL = H @ LP
        S = HL @ HL.T
        K = np.linalg.solve(S, HL @ LP.T).T
        mn = mp - K @ z
        Ln = tria(LP - K @ HL)
        return mn, Ln, s2, err, np.abs(K @ z), LP


def scales(q, d, h, s2):
    """Natural size of the entries of the state after a step of size h."""
    one = np.array([math.sqrt(h) * h ** (q - i) / math.factorial(q - i) for i in range(q + 1)])
    return np.tile(one, d) * math.sqrt(max(s2, 1e-30))


def smooth(fm, fL, ts, s2s, q, d):
    """Rauch-Tung-Striebel pass over filtering states with diffusions s2s[k] on (ts[k], ts[k+1]]."""
    m, C = fm[-1], fL[-1] @ fL[-1].T
    out = [(m, C)]
    for k in range(len(ts) - 2, -1, -1):
        h = ts[k + 1] - ts[k]
        A, LQ = iwp(q, d, h)
        n = (q + 1)
        T = np.kron(np.eye(d), np.diag([math.sqrt(h) * h ** (q - i) / math.factorial(q - i) for i in range(n)]))
        Ti = np.diag(1 / np.diag(T))
        # in preconditioned coordinates
        Lk = Ti @ fL[k]
        Ab = Ti @ A @ T
        LQb = Ti @ LQ * math.sqrt(s2s[k])
        LP = tria(Ab @ Lk, LQb)
        G = Lk @ spd_solve(LP, Ab @ Lk).T
        mk = Ti @ fm[k]
        ms = mk + G @ (Ti @ m - Ab @ mk)
        R = tria((np.eye(len(mk)) - G @ Ab) @ Lk, G @ LQb)
        Cb = R @ R.T + G @ (Ti @ C @ Ti) @ G.T
        m, C = T @ ms, T @ Cb @ T
        out.append((m, C))
    return out[::-1]


def setup(mon, rng, smoothing=None, kinds=None, few=False):
    o = gen_ode.make(rng) if kinds is None else gen_ode.make(rng, kinds)
    small = o.kind == "linear" and rng.random() < 0.4
    if small:  # small solutions have small diffusions
        size = 10 ** float(rng.uniform(-6, -3))
        o.y0 = o.y0 * size
    q = int(rng.integers(1, 5))
    method = str(rng.choice(["EK0", "EK1"]))
    diff = str(rng.choice(["dynamic", "constant"]))
    smoothing = bool(rng.random() < 0.6) if smoothing is None else smoothing
    init = str(rng.choice(["default", "stack", "radau", "stackjac"])) if q > 1 else "stack"
    if (o.nonautonomous and init == "stackjac") or (small and init in ("default", "radau")):  # (fits have absolute noise)
        init = "stack"
    wide = [10 * size, size] if small else [1e3 if q < 4 else 20.0, 1.0]
    T = o.tmax - o.t0
    # (diffuse initial states make the first error estimates unreliable: constant steps there)
    adaptive = bool(rng.random() < 0.5) and init in ("default", "radau") and not few
    if adaptive:
        tol = max(TOL[q], 10 ** float(rng.uniform(-4, -2)))
        rule = stepsize.AdaptiveSteps(firststep=T * float(rng.choice([0.01, 0.1])), atol=tol, rtol=tol)
    else:
        rule = stepsize.ConstantSteps(T / float(rng.choice([7, 12] if few else [7, 12, 25.5, 33])))
    routine = {"default": None, "stack": odefilter.init_routines.Stack(scale_cholesky=float(rng.choice(wide))),
               "stackjac": odefilter.init_routines.StackWithJacobian(scale_cholesky=wide[1]),
               "radau": odefilter.init_routines.NonProbabilisticFitWithJacobian()}[init]
    prior = randprocs.markov.integrator.IntegratedWienerProcess(
        initarg=o.t0, num_derivatives=q, wiener_process_dimension=o.dim, diffuse=True,
        forward_implementation="sqrt", backward_implementation="sqrt")
    dm = (randprocs.markov.continuous.ConstantDiffusion() if diff == "constant"
          else randprocs.markov.continuous.PiecewiseConstantDiffusion(t0=o.t0))
    if diff == "dynamic" and rng.random() < 0.3:
        dm = None
    solver = odefilter.ODEFilter(steprule=rule, prior_process=prior, approx_strategy=getattr(odefilter.approx_strategies, method)(),
                                 with_smoothing=smoothing, diffusion_model=dm, init_routine=routine)
    mon.describe(ode=o.kind, q=q, method=method, diffusion=diff, smoothing=smoothing, init=init, adaptive=adaptive,
                 first=rule.firststep, y0=o.y0.round(4).tolist())
    return o, q, method, diff, smoothing, solver


class Attempts:
    """Records every attempted step of a real solver."""

    def __init__(self, solver):
        self.log = []
        real = solver.attempt_step

        def attempt_step(state, dt):
            new = real(state, dt)
            self.log.append((state, dt, new))
            return new

        solver.attempt_step = attempt_step


def run(o, solver, stop_at=None):
    a = Attempts(solver)
    sol = solver.solve(gen_ode.ivp(o), stop_at=stop_at)
    accepted = [(s, h, n) for s, h, n in a.log if np.all(np.isfinite(np.asarray(n.rv.mean)))]
    return sol, a.log, accepted


def near(mon, rule, got, want, scale, tol, msg=""):
    e = np.abs(np.asarray(got) - want)
    bad = e > tol * scale
    mon.check(rule, not np.any(bad) and np.all(np.isfinite(np.asarray(got))),
              f"{msg}: got {np.asarray(got)}, expected {want}, deviation/scale {np.max(e / scale):.3g}")


@scenario(P, "filter-step", quick=160)
def filter_step(mon, rng):
    """Every accepted step is the Kalman step of the model linearised at the prediction."""
    o, q, method, diff, smoothing, solver = setup(mon, rng)
    sol, log, acc = run(o, solver)
    rec = Rec(q, o.dim, o.f, o.df, method)
    dyn = diff == "dynamic"
    s2s = []
    for k, (s, h, n) in enumerate(log):
        m, L = np.asarray(s.rv.mean), chol_of(s.rv)
        wm, wL, s2, err, upd, LP = rec.step(m, L, s.t, h, dyn)
        es = err.max() + 1e-10 * (1 + np.abs(m).max())
        near(mon, "error-estimate", n.error_estimate, err, es, 1e-4, f"step {k}")
        near(mon, "reference-state", n.reference_state, np.abs(rec.H0 @ m), 1 + np.abs(m).max(), 1e-10, f"step {k}")
        if not np.all(np.isfinite(np.asarray(n.rv.mean))):
            mon.check("rejected-only-if-inaccurate", not solver.steprule.is_accepted(solver.steprule.errorest_to_norm(err * 1.001, np.abs(rec.H0 @ m))))
            mon.event("rejected")
            continue
        s2s.append(s2)
        std = np.sqrt(np.sum(LP**2, axis=1))
        sc = np.abs(wm) + upd + std
        near(mon, "filter-mean", n.rv.mean, wm, sc + 1e-12, 1e-6, f"step {k} h={h:.3g}")
        sc = np.outer(std, std) * (1 if q < 4 else 20)
        near(mon, "filter-cov", n.rv.cov, wL @ wL.T, sc, 1e-6, f"step {k} h={h:.3g}")
        near(mon, "filter-cov-factor", chol_of(n.rv) @ chol_of(n.rv).T, wL @ wL.T, sc, 1e-6, f"step {k}")
        mon.event("accepted")
    dm = solver.diffusion_model
    floor = 1e-12 * (1 + max(s2s))
    if dyn:
        ts = np.asarray(sol.locations)
        mon.check("diffusions-recorded", len(dm.diffusions) == len(ts) - 1, f"{len(dm.diffusions)} diffusions, {len(ts)} locations")
        for k in range(len(ts) - 1):
            v = np.asarray(dm(np.array([0.5 * (ts[k] + ts[k + 1]), ts[k + 1]]))).reshape(-1)
            near(mon, "diffusion-of-interval", v, np.full(2, s2s[k]), s2s[k] + floor, 2e-3, f"interval {k}")
    else:
        near(mon, "diffusion-mean", dm.diffusion, np.mean(s2s), np.mean(s2s) + floor, 2e-3, "constant diffusion")


@scenario(P, "posterior", quick=160)
def posterior(mon, rng):
    """The returned solution, its smoothing, dense output and projections follow from the accepted states."""
    o, q, method, diff, smoothing, solver = setup(mon, rng)
    T = o.tmax - o.t0
    sol, log, acc = run(o, solver)
    d = o.dim
    ts = np.asarray(sol.locations)
    states = [acc[0][0]] + [n for _, _, n in acc]
    mon.check("all-accepted-steps", len(states) == len(ts) and np.allclose([s.t for s in states], ts))
    dyn = diff == "dynamic"
    dm = solver.diffusion_model
    if dyn:
        s2s, c = [float(x) for x in dm.diffusions], 1.0
    else:
        c = float(dm.diffusion)
        s2s = [c] * (len(ts) - 1)
    fm = [np.asarray(s.rv.mean) for s in states]
    fL = [math.sqrt(c) * chol_of(s.rv) for s in states]
    H0, H1 = proj(q, d, 0), proj(q, d, 1)
    sm = smooth(fm, fL, ts, s2s, q, d)
    filt = sol.filtering_solution
    if smoothing:
        want = sm
    else:
        want = [(m, L @ L.T) for m, L in zip(fm, fL)]
        mon.check("no-smoothing", filt is sol or np.allclose(np.asarray(filt.states.mean), np.asarray(sol.states.mean)))
    mon.check("length", len(sol) == len(ts) == len(sol.states), f"{len(sol)} {len(ts)}")
    for q_ in ("mean", "cov", "var", "std"):
        near(mon, "collected-" + q_, np.asarray(getattr(sol.states, q_)), np.array([np.asarray(getattr(rv, q_)) for rv in sol.states]), 1.0, 1e-300, q_)
        near(mon, "collected-derivative-" + q_, np.asarray(getattr(sol.derivatives, q_)), np.array([np.asarray(getattr(rv, q_)) for rv in sol.derivatives]), 1.0, 1e-300, q_)
    ymax = max(np.abs(H0 @ m).max() for m, _ in want)
    dmax = max(np.abs(H1 @ m).max() for m, _ in want)

    loose = {1: 3e-3, 2: 3e-3, 3: 6e-3}.get(q, 3e-2)  # smoothing many derivatives is ill-conditioned

    def cmp(rule, rv, H, m, C, h, s2, msg):
        # entries are known up to the noise of the interval
        sc = 1e-7 * (ymax if H is H0 else dmax) + H @ scales(q, d, h, s2) + np.sqrt(np.abs(np.diag(H @ C @ H.T)))
        near(mon, rule + "-mean", rv.mean, H @ m, sc, loose, msg)
        v = np.outer(sc, sc)
        near(mon, rule + "-cov", rv.cov, H @ C @ H.T, v, loose, msg)
        if np.ndim(rv.mean):  # the factor of a covariance is a factor of that very covariance
            LL = chol_of(rv) @ chol_of(rv).T
            near(mon, rule + "-cov-factor", LL, np.asarray(rv.cov), np.abs(rv.cov).max() + 1e-26 * (1 + ymax + dmax) ** 2, 1e-5, msg)

    for k in range(len(ts)):
        h = ts[min(k + 1, len(ts) - 1)] - ts[min(k, len(ts) - 2)]
        s2 = s2s[min(k, len(ts) - 2)]
        m, C = want[k]
        cmp("state", sol.states[k], H0, m, C, h, s2, f"location {k}/{len(ts)} {'smoothed' if smoothing else 'filtered'}")
        cmp("derivative", sol.derivatives[k], H1, m, C, h, s2, f"location {k}/{len(ts)}")
        cmp("filtering", filt.states[k], H0, fm[k], fL[k] @ fL[k].T, h, s2, f"location {k}/{len(ts)}")
        cmp("indexing", sol[k], H0, m, C, h, s2, f"index {k}")
    # dense output
    for _ in range(4):
        k = int(rng.integers(0, len(ts) - 1))
        u = float(rng.choice([0.1, 0.5, 0.93]))
        t = ts[k] + u * (ts[k + 1] - ts[k])
        h = ts[k + 1] - ts[k]
        A, LQ = iwp(q, d, t - ts[k])
        pm, pL = A @ fm[k], tria(A @ fL[k], math.sqrt(s2s[k]) * LQ)
        if smoothing:
            mm, CC = smooth_one(pm, pL, sm[k + 1], ts[k + 1] - t, s2s[k], q, d)
        else:
            mm, CC = pm, pL @ pL.T
        cmp("dense", sol(t), H0, mm, CC, h, s2s[k], f"dense output at {u} of interval {k}/{len(ts)}")
        cmp("dense-filter", filt(t), H0, pm, pL @ pL.T, h, s2s[k], f"filter output at {u} of interval {k}/{len(ts)}")
        mon.event("dense")
    k = int(rng.integers(0, len(ts)))
    cmp("dense-at-node", sol(ts[k]), H0, *want[k], ts[1] - ts[0], s2s[0], f"dense output at location {k}")
    many = sol(ts)
    near(mon, "dense-many", np.asarray(many.mean), np.asarray(sol.states.mean), 1 + ymax, 1e-8, "dense output at all locations")
    # beyond the last location
    dt = 0.2 * T
    A, LQ = iwp(q, d, dt)
    pm, pL = A @ fm[-1], tria(A @ fL[-1], math.sqrt(s2s[-1]) * LQ)
    cmp("extrapolation", sol(ts[-1] + dt), H0, pm, pL @ pL.T, dt, s2s[-1], "extrapolation")
    # samples
    if not smoothing:
        return
    seed = int(rng.integers(1 << 30))
    size = [(), (2,), (3, 2)][int(rng.integers(3))]
    tt = None if rng.random() < 0.5 else np.sort(rng.uniform(o.t0, o.tmax, 4))
    a = np.asarray(sol.sample(np.random.default_rng(seed), t=tt, size=size))
    b = np.asarray(sol.kalman_posterior.sample(np.random.default_rng(seed), t=tt, size=size))
    nt = len(ts) if tt is None else 4
    mon.check("sample-shape", a.shape == tuple(size) + (nt, d), f"{a.shape} for size {size}")
    near(mon, "sample-projection", a, b[..., :: q + 1], 1e-300 + np.abs(a).max(), 1e-9, "samples")


def smooth_one(pm, pL, nxt, h, s2, q, d):
    m, C = nxt
    n = q + 1
    A, LQ = iwp(q, d, h)
    T = np.kron(np.eye(d), np.diag([math.sqrt(h) * h ** (q - i) / math.factorial(q - i) for i in range(n)]))
    Ti = np.diag(1 / np.diag(T))
    Lk, Ab, LQb = Ti @ pL, Ti @ A @ T, Ti @ LQ * math.sqrt(s2)
    LP = tria(Ab @ Lk, LQb)
    G = Lk @ spd_solve(LP, Ab @ Lk).T
    mk = Ti @ pm
    ms = mk + G @ (Ti @ m - Ab @ mk)
    R = tria((np.eye(len(mk)) - G @ Ab) @ Lk, G @ LQb)
    Cb = R @ R.T + G @ (Ti @ C @ Ti) @ G.T
    return T @ ms, T @ Cb @ T


@scenario(P, "sampling", quick=16)
def sampling(mon, rng):
    """Samples of a smoothed solution have its mean and covariance."""
    o, q, method, diff, smoothing, solver = setup(mon, rng, smoothing=True, few=True)
    sol, log, acc = run(o, solver)
    ts = np.asarray(sol.locations)
    N = 100
    S = np.asarray(sol.sample(np.random.default_rng(int(rng.integers(1 << 30))), size=(N,)))
    for k in range(0, len(ts), max(1, len(ts) // 6)):
        m, C = np.asarray(sol.states[k].mean), np.asarray(sol.states[k].cov)
        std = np.sqrt(np.abs(np.diag(C)))
        floor = 1e-7 * (1 + np.abs(m))
        z = np.abs(S[:, k].mean(axis=0) - m) / (std / np.sqrt(N) + floor)
        mon.check("sample-mean", z.max() < 6, f"location {k}/{len(ts)}: sample mean off by {z.max():.2f} standard errors")
        r = (S[:, k].std(axis=0) + floor) / (std + floor)
        mon.check("sample-std", np.all((r > 0.65) & (r < 1.45)), f"location {k}/{len(ts)}: sample/posterior standard deviation {r}")


@scenario(P, "regression-problem", quick=200)
def regression(mon, rng):
    """The conversion of an IVP into a regression problem states the same information."""
    o = gen_ode.make(rng)
    q = int(rng.integers(1, 4))
    d = o.dim
    N = int(rng.integers(2, 8))
    locs = np.sort(np.unique(np.concatenate([[o.t0], rng.uniform(o.t0, o.tmax, N - 1)])))
    N = len(locs)
    var = float(rng.choice([0.0, 0.0, 1e-2, 0.5]))
    excl = bool(rng.random() < 0.5)
    strat = rng.choice(["none", "EK0", "EK1"])
    mon.describe(ode=o.kind, q=q, N=N, var=var, exclude=excl, strategy=str(strat), y0=o.y0.round(4).tolist())
    sol_fn = (lambda t: gen_ode.reference(o, [t])[0]) if rng.random() < 0.3 else None
    ivp = problems.InitialValueProblem(t0=o.t0, tmax=o.tmax, y0=o.y0, f=o.f, df=o.df, solution=sol_fn)
    op = odefilter.information_operators.ODEResidual(num_prior_derivatives=q, ode_dimension=d)
    ap = None if strat == "none" else getattr(odefilter.approx_strategies, str(strat))()
    kw = {}
    if var:
        kw["ode_measurement_variance"] = var
    rp = odefilter.utils.ivp_to_regression_problem(ivp=ivp, locations=locs, ode_information_operator=op, approx_strategy=ap,
                                                   exclude_initial_condition=excl, **kw)
    mon.check("locations", np.array_equal(rp.locations, locs))
    mon.check("zero-data", np.asarray(rp.observations).shape == (N, d) and not np.any(rp.observations))
    mon.check("one-model-per-location", len(rp.measurement_models) == N)
    if sol_fn is None:
        mon.check("solution", rp.solution is None)
    else:
        mon.close("solution", rp.solution, np.stack([sol_fn(t) for t in locs]), 1e-12)
    H0, H1 = proj(q, d, 0), proj(q, d, 1)
    for k in range(N):
        x = rng.standard_normal(d * (q + 1))
        mm = rp.measurement_models[k]
        t = locs[k]
        rv, _ = mm.forward_realization(x, t=t)
        if k == 0 and not excl:
            want, J = H0 @ x - o.y0, H0
        else:
            y = H0 @ x
            want = H1 @ x - o.f(t, y)
            J = H1 - (0 if strat == "EK0" else o.df(t, y)) @ H0 if strat != "EK0" else H1
        mon.close("information", rv.mean, want, 1e-10, f"location {k} (initial condition {'excluded' if excl else 'included'}, variance {var})")
        mon.close("noise", np.asarray(rv.cov), var * np.eye(d), 1e-10, f"location {k}")
        if strat != "none":
            M = rng.standard_normal((d * (q + 1),) * 2)
            C = M @ M.T
            rv, _ = mm.forward_rv(randvars.Normal(x, C), t=t)
            mon.close("linearised-mean", rv.mean, want, 1e-9, f"location {k}")
            mon.close("linearised-cov", np.asarray(rv.cov), J @ C @ J.T + var * np.eye(d), 1e-8, f"location {k}")


@scenario(P, "regression-agrees", quick=60)
def regression_agrees(mon, rng):
    """A Kalman smoother on the regression problem and the ODE filter give the same mean."""
    o = gen_ode.make(rng, ("linear", "forced", "logistic", "pendulum", "modulated"))
    q = int(rng.integers(1, 4))
    d = o.dim
    method = str(rng.choice(["EK0", "EK1"]))
    n = int(rng.integers(5, 20))
    mon.describe(ode=o.kind, q=q, method=method, n=n, y0=o.y0.round(4).tolist())
    H0, H1 = proj(q, d, 0), proj(q, d, 1)
    prior = lambda initrv: randprocs.markov.MarkovProcess(
        initarg=o.t0, initrv=initrv,
        transition=randprocs.markov.integrator.IntegratedWienerTransition(
            num_derivatives=q, wiener_process_dimension=d, forward_implementation="sqrt", backward_implementation="sqrt"))
    ini = odefilter.init_routines.Stack(scale_cholesky=1.0)
    ivp = gen_ode.ivp(o)
    p0 = randprocs.markov.integrator.IntegratedWienerProcess(initarg=o.t0, num_derivatives=q, wiener_process_dimension=d, diffuse=True,
                                                             forward_implementation="sqrt", backward_implementation="sqrt")
    initrv = ini(ivp=ivp, prior_process=p0)
    s = odefilter.ODEFilter(steprule=stepsize.ConstantSteps((o.tmax - o.t0) / n), prior_process=p0,
                            approx_strategy=getattr(odefilter.approx_strategies, method)(), with_smoothing=True,
                            init_routine=ini, diffusion_model=randprocs.markov.continuous.ConstantDiffusion())
    sol = s.solve(ivp)
    ts = np.asarray(sol.locations)
    op = odefilter.information_operators.ODEResidual(num_prior_derivatives=q, ode_dimension=d)
    rp = odefilter.utils.ivp_to_regression_problem(ivp=ivp, locations=ts[1:], ode_information_operator=op,
                                                   approx_strategy=getattr(odefilter.approx_strategies, method)(), exclude_initial_condition=True)
    rv0 = randvars.Normal(np.asarray(initrv.mean), np.asarray(initrv.cov), cov_cholesky=np.asarray(initrv.cov_cholesky))
    post, _ = filtsmooth.gaussian.Kalman(prior(rv0)).filtsmooth(rp)
    m = np.asarray(post.states.mean)[:, :: q + 1]
    w = np.asarray(sol.states.mean)[1:]
    near(mon, "same-mean", w, m, 1 + np.abs(m).max(), 1e-6, "ODE filter versus Kalman smoother of the regression problem")
    c = float(s.diffusion_model.diffusion)
    C = np.stack([np.asarray(x.cov)[:: q + 1, :: q + 1] for x in post.states])
    W = np.stack([np.asarray(x.cov) for x in sol.states])[1:]
    near(mon, "same-cov", W, c * C, c * (np.abs(C).max() + 1e-14), 1e-3, "calibrated covariance")

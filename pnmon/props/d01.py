"""D01: ODE solvers step through the whole interval, the required stops, and within tolerance."""
import contextlib

import numpy as np
from probnum import diffeq, problems, randprocs, randvars
from probnum.diffeq import callbacks, odefilter, perturbed, stepsize

from pnmon import gen_ode
from pnmon.core import scenario
import scipy.integrate

P = "D01"


class Watched(stepsize.StepRule):
    """Passes every call on to the real step rule and records it."""

    def __init__(self, real):
        super().__init__(firststep=real.firststep)
        self.real, self.log = real, []

    def suggest(self, laststep, scaled_error, localconvrate=None):
        try:
            r = self.real.suggest(laststep, scaled_error, localconvrate=localconvrate)
        except RuntimeError as e:
            self.log.append(("suggest", laststep, scaled_error, localconvrate, e))
            raise
        self.log.append(("suggest", laststep, scaled_error, localconvrate, r))
        return r

    def is_accepted(self, scaled_error):
        r = self.real.is_accepted(scaled_error)
        self.log.append(("accepted", scaled_error, bool(r)))
        return r

    def errorest_to_norm(self, errorest, reference_state):
        r = self.real.errorest_to_norm(errorest, reference_state)
        self.log.append(("norm", np.copy(errorest), np.copy(reference_state), r))
        return r


def refresh(solver, state):
    if getattr(getattr(solver, "solver", None), "f", None) is not None:
        solver.solver.f = np.asarray(state.ivp.f(state.t, state.rv.mean))


@contextlib.contextmanager
def fresh_slopes():
    """Works around the known finding D03-stale-slope, which would hide the accuracy of the solvers."""
    cls = perturbed.scipy_wrapper.WrappedScipyRungeKutta
    real = cls.attempt_step

    def attempt_step(self, state, dt):
        refresh(self, state)
        return real(self, state, dt)

    cls.attempt_step = attempt_step
    try:
        yield
    finally:
        cls.attempt_step = real


def make_filter(rng, o, rule, smoothing=True, q=None, method=None, diff=None):
    q = int(rng.integers(1, 5)) if q is None else q
    method = str(rng.choice(["EK0", "EK1"])) if method is None else method
    diff = str(rng.choice(["dynamic", "constant"])) if diff is None else diff
    prior = randprocs.markov.integrator.IntegratedWienerProcess(
        initarg=o.t0, num_derivatives=q, wiener_process_dimension=o.dim, diffuse=True,
        forward_implementation="sqrt", backward_implementation="sqrt")
    dm = (randprocs.markov.continuous.ConstantDiffusion() if diff == "constant"
          else randprocs.markov.continuous.PiecewiseConstantDiffusion(t0=o.t0))
    s = odefilter.ODEFilter(
        steprule=rule, prior_process=prior, approx_strategy=getattr(odefilter.approx_strategies, method)(),
        with_smoothing=smoothing, diffusion_model=dm,
        init_routine=odefilter.init_routines.Stack() if q == 1 else None)
    return s, (q, method, diff)


# The default initialisation of the ODE filters fits the slope to a few solution values at
# distance 0.01: the slope is only accurate to about 0.01**q, and an adaptive step can not
# get below that.  Tighter tolerances end in a (correctly reported) too small step.
TOL = {1: 1e-2, 2: 3e-3, 3: 1e-4, 4: 1e-5}


def make_solver(rng, o, rule):
    kind = str(rng.choice(["filter", "scipy", "perturbed"]))
    if kind == "filter":
        q = int(rng.integers(1, 5))
        real = getattr(rule, "real", rule)
        if isinstance(real, stepsize.AdaptiveSteps):
            real.atol = np.maximum(real.atol, TOL[q])
        s, k = make_filter(rng, o, rule, smoothing=bool(rng.random() < 0.5), q=q)
        return kind, s, k
    m = str(rng.choice(["RK45", "RK23"]))
    s = perturbed.scipy_wrapper.WrappedScipyRungeKutta(getattr(scipy.integrate, m), steprule=rule)
    if isinstance(getattr(rule, "real", rule), stepsize.AdaptiveSteps):
        rk, attempt = s, s.attempt_step

        def attempt_step(state, dt):
            refresh(rk, state)
            return attempt(state, dt)

        s.attempt_step = attempt_step
    if kind == "perturbed":
        how = str(rng.choice(["lognormal", "uniform"]))
        if o.tmax - o.t0 >= 0.99:
            how = "lognormal"  # uniform perturbations refuse steps of one or more
        mk = getattr(perturbed.step.PerturbedStepSolver, f"construct_with_{how}_perturbation")
        s = mk(rng=np.random.default_rng(int(rng.integers(1 << 31))), solver=s, noise_scale=float(rng.choice([0.01, 0.3])))
        return kind, s, (m, how)
    return kind, s, (m,)


def steps(rng, o, tight=True):
    T = o.tmax - o.t0
    kind = str(rng.choice(["adaptive", "adaptive-first", "constant", "constant-divisor"]))
    if kind.startswith("constant"):
        h = T / int(rng.integers(1, 25)) if kind == "constant-divisor" else T * float(rng.choice([0.037, 0.11, 0.3, 1.0, 1.7]))
        return kind, stepsize.ConstantSteps(min(h, 0.95)), min(h, 0.95)
    tol = 10 ** float(rng.uniform(-6, -2))
    first = stepsize.propose_firststep(gen_ode.ivp(o)) if kind == "adaptive" else T * float(rng.choice([1e-4, 0.1, 1.0, 3.0]))
    if first >= 1.0:
        first = 0.9  # uniformly perturbed steps have to be below one
    return kind, stepsize.AdaptiveSteps(firststep=first, atol=tol, rtol=tol), tol


def stops(rng, o, par=None):
    """(what is passed, what has to be visited)"""
    k = str(rng.choice(["none", "none", "inside", "many", "ends", "duplicates", "outside", "awkward", "empty", "near-steps"]))
    T = o.tmax - o.t0
    inside = np.sort(o.t0 + T * rng.uniform(0.02, 0.98, int(rng.integers(1, 4))))
    if k == "none":
        return k, None
    if k == "inside":
        return k, inside
    if k == "many":
        return k, np.linspace(o.t0, o.tmax, int(rng.integers(5, 20)))
    if k == "ends":
        return k, np.concatenate([[o.t0], inside, [o.tmax]])
    if k == "duplicates":
        return k, np.sort(np.concatenate([inside, inside]))
    if k == "outside":
        return k, np.concatenate([[o.t0 - 2, o.t0 - 1], inside, [o.tmax + 1]])
    if k == "near-steps":
        # just before or just behind the locations the solver would visit anyway
        h = par if par is not None else T / 7
        g = o.t0 + h * np.arange(1, max(2, int(T / h)))
        g = g + rng.choice([-1, 1], len(g)) * 10 ** rng.uniform(-8, -5, len(g))
        g = g[(g > o.t0) & (g < o.tmax)]
        return k, np.sort(rng.choice(g, min(len(g), 4), replace=False))
    if k == "awkward":
        return k, np.sort(o.t0 + np.unique(np.round(np.arange(1, 10) * 0.1 * T, 2)))
    return k, np.array([])


@scenario(P, "time-grid", quick=240)
def time_grid(mon, rng):
    o = gen_ode.make(rng)
    sk, rule, par = steps(rng, o)
    kind, solver, cfg = make_solver(rng, o, rule)
    stk, st = stops(rng, o, par if sk.startswith("constant") else None)
    mon.describe(ode=o.kind, solver=kind, cfg=cfg, steps=sk, stops=stk, T=round(o.tmax - o.t0, 3), t0=o.t0, par=float(f"{par:.3g}"))
    as_list = st is not None and rng.random() < 0.3
    sol = solver.solve(gen_ode.ivp(o), stop_at=list(st) if as_list else st)
    ts = np.asarray(sol.locations)
    eps = 1e-11 * (1 + abs(o.t0) + abs(o.tmax))
    mon.check("starts-at-t0", ts[0] == o.t0, f"{ts[0]} {o.t0}")
    mon.check("increasing", np.all(np.diff(ts) > 0), f"{ts}")
    mon.check("ends-at-tmax", abs(ts[-1] - o.tmax) <= eps, f"last location {ts[-1]}, tmax {o.tmax} (first step {rule.firststep})")
    mon.check("no-degenerate-step", np.all(np.diff(ts) > eps), f"{np.diff(ts).min()}")
    mon.check("one-state-per-location", len(sol.states) == len(ts))
    mon.event("steps", len(ts) - 1)
    must = [] if st is None else [t for t in st if o.t0 <= t <= o.tmax]
    for t in must:
        mon.check("stops-visited", np.min(np.abs(ts - t)) <= eps, f"stop {t} missed; nearest {ts[np.argmin(np.abs(ts - t))]}")
    if sk.startswith("constant"):
        marks = np.array(sorted(set(list(must) + [o.tmax])))
        for a, b in zip(ts[:-1], ts[1:]):
            nxt = marks[marks > a + eps]
            want = min(a + par, nxt[0]) if len(nxt) else a + par
            mon.check("constant-step", abs(b - want) <= eps, f"step {b - a} from {a}, step size {par}, next mark {nxt[:1]}")
    # alternating long and tiny constant steps are outside the stability region of a filter
    if kind == "filter" and sk.startswith("constant") and np.diff(ts).max() > 10 * np.diff(ts).min():
        return
    mon.check("initial-value", np.allclose(sol.states[0].mean, o.y0, atol=1e-4 * (1 + np.abs(o.y0).max())), f"{sol.states[0].mean} {o.y0}")
    mon.check("finite", np.all(np.isfinite(np.asarray(sol.states.mean))))


@scenario(P, "step-control", quick=120)
def step_control(mon, rng):
    """The sequence of attempted, accepted and rejected steps obeys the tolerance."""
    o = gen_ode.make(rng)
    tol = 10 ** float(rng.uniform(-6, -2))
    rt = float(rng.choice([0.0, 1.0, 10.0])) * tol
    T = o.tmax - o.t0
    rule = stepsize.AdaptiveSteps(firststep=min(0.9, T * float(rng.choice([1e-3, 0.05, 0.5]))), atol=tol, rtol=rt,
                                  limitchange=(0.2, float(rng.choice([2.0, 10.0]))), safetyscale=float(rng.choice([0.9, 0.95])))
    w = Watched(rule)
    kind, solver, cfg = make_solver(rng, o, w)
    mon.describe(ode=o.kind, solver=kind, cfg=cfg, tol=float(f"{tol:.2g}"), rt=float(f"{rt:.2g}"))
    states = []
    seen = 0
    for state in solver.solution_generator(gen_ode.ivp(o)):
        if states:
            h = state.t - states[-1].t
            ev = w.log[seen:]
            sug = [e for e in ev if e[0] == "suggest"]
            acc = [e for e in ev if e[0] == "accepted"]
            mon.check("step-is-last-attempt", abs(sug[-1][1] - h) < 1e-9 * h + 1e-15, f"attempted {sug[-1][1]}, advanced {h}")
            want = np.sqrt(np.mean((np.asarray(state.error_estimate) / (rule.atol + rt * np.abs(state.reference_state))) ** 2))
            mon.check("accepted-within-tolerance", want < 1.0, f"accepted with scaled error {want}")
            mon.close("scaled-error", sug[-1][2], want, 1e-8)
            for e in sug[:-1]:
                mon.check("rejected-above-tolerance", not e[2] < 1.0, f"rejected with scaled error {e[2]}")
                mon.check("rejected-step-shrinks", e[4] < e[1], f"{e[1]} -> {e[4]}")
            for a, b in zip(sug[:-1], sug[1:]):
                mon.check("uses-suggestion", abs(b[1] - min(a[4], o.tmax - states[-1].t)) < 1e-12, f"suggested {a[4]}, attempted {b[1]}")
            mon.event("accepted")
            mon.event("rejected", len(sug) - 1)
            # an accepted step starts from the previous state's location
        states.append(state)
        seen = len(w.log)
        if len(states) > 600:  # a low order at a tight tolerance
            break
    # the step control relies on the order of the local error: one more than the order of the solver
    rate = {"RK45": 6, "RK23": 4}.get(cfg[0], cfg[0] + 1 if isinstance(cfg[0], int) else None)
    for e in w.log:
        if e[0] == "suggest":
            mon.check("convergence-rate", e[3] == rate, f"{e[3]}, expected {rate} for {kind} {cfg}")
            lo, hi = rule.limitchange
            want = np.clip(rule.safetyscale * (1 / e[2]) ** (1 / e[3]), lo, hi) * e[1]
            mon.close("suggestion", e[4], want, 1e-10)


@scenario(P, "steprule", quick=500)
def steprule(mon, rng):
    tol, rt = 10 ** rng.uniform(-8, -1, 2)
    lo, hi = float(rng.uniform(0.1, 0.5)), float(rng.uniform(2, 10))
    sf = float(rng.uniform(0.5, 0.99))
    r = stepsize.AdaptiveSteps(firststep=0.1, atol=tol, rtol=rt, limitchange=(lo, hi), safetyscale=sf, minstep=1e-12, maxstep=1e3)
    d = int(rng.integers(0, 4))
    sh = (d,) if d else ()
    y = rng.standard_normal(sh) * 10 ** rng.uniform(-3, 3)
    if rng.random() < 0.15:
        y = np.full(sh, -tol / rt)
    e = rng.standard_normal(sh) * 10 ** rng.uniform(-9, 0)
    mon.describe(d=d, tol=float(f"{tol:.2g}"), rt=float(f"{rt:.2g}"), lo=round(lo, 2), e=np.asarray(e).tolist())
    want = np.sqrt(np.mean((e / (tol + rt * np.abs(y))) ** 2))
    got = r.errorest_to_norm(np.asarray(e), np.asarray(y))
    mon.check("norm", abs(got - want) <= 1e-10 * want, f"norm {got}, expected {want}", y=y)
    mon.check("acceptance", bool(r.is_accepted(got)) == (want < 1))
    h, p = 10 ** rng.uniform(-6, 1), int(rng.integers(1, 9))
    s = h * np.clip(sf * (1 / want) ** (1 / p), lo, hi)
    try:
        g = r.suggest(h, got, localconvrate=p)
    except RuntimeError:
        mon.check("limits", s < 1e-12 or s > 1e3, f"raised for step {s}")
    else:
        mon.check("suggestion", abs(g - s) <= 1e-10 * s, f"{g} {s}")
    # limits near the suggested step: they bound the step that is suggested, not the previous one
    for mn, mx in ((0.0, s * 10 ** rng.uniform(-0.5, 0.5)), (s * 10 ** rng.uniform(-0.5, 0.5), np.inf), (s * 0.999, s * 1.001), (h * 0.999, h * 1.001)):
        if mn > mx or min(abs(s / mx - 1), abs(mn / s - 1)) < 1e-9:
            continue
        q = stepsize.AdaptiveSteps(firststep=0.1, atol=tol, rtol=rt, limitchange=(lo, hi), safetyscale=sf, minstep=mn, maxstep=mx)
        try:
            g, fine = q.suggest(h, got, localconvrate=p), True
        except RuntimeError:
            fine = False
        mon.check("limits", fine == bool(mn <= s <= mx), f"step {s} after {h} with limits {mn}, {mx}: {'accepted' if fine else 'refused'}")
    for step, what in ((1e-13, "small"), (1e4, "large")):
        try:
            r.suggest(step, 1.0, localconvrate=2)
        except RuntimeError:
            mon.check("limits", True)
        else:
            mon.check("limits", False, f"too {what} a step suggested")
    try:
        g = r.suggest(h, np.float64(np.nan), localconvrate=p)
    except (RuntimeError, ValueError, FloatingPointError):
        mon.check("nan-not-propagated", True)
    else:
        mon.check("nan-not-propagated", np.isfinite(g), f"a step of {g} was suggested")
    c = stepsize.ConstantSteps(h)
    mon.check("constant", c.suggest(h * 7, 100.0, localconvrate=p) == h and c.is_accepted(1e10) and c.firststep == h)


@scenario(P, "global-error", quick=100)
def global_error(mon, rng):
    """With adaptive steps, the error is of the size of the tolerance."""
    o = gen_ode.make(rng)
    tol = 10 ** float(rng.uniform(-8, -3))
    which = str(rng.choice(["prob", "prob", "perturb"]))
    kw = {}
    mon.describe(ode=o.kind, tol=float(f"{tol:.2g}"), which=which)
    if which == "prob":
        kw = dict(method=str(rng.choice(["EK0", "EK1"])), algo_order=int(rng.integers(2, 5)),
                  diffusion_model=str(rng.choice(["dynamic", "constant"])), dense_output=bool(rng.random() < 0.7))
        tol = max(tol, TOL[kw["algo_order"]])
        sol = diffeq.probsolve_ivp(o.f, o.t0, o.tmax, o.y0, df=o.df, atol=tol, rtol=tol, **kw)
    else:
        kw = dict(method=str(rng.choice(["RK45", "RK23"])), perturb=str(rng.choice(["step-lognormal", "step-uniform"] if o.tmax - o.t0 < 0.99 else ["step-lognormal"])), noise_scale=1e-8)
        with fresh_slopes():
            sol = diffeq.perturbsolve_ivp(o.f, o.t0, o.tmax, o.y0, rng=np.random.default_rng(3), atol=tol, rtol=tol, **kw)
    mon.describe(cfg=kw)
    ts = np.asarray(sol.locations)
    e = np.asarray(sol.states.mean) - gen_ode.reference(o, ts)
    sc = 1 + np.abs(gen_ode.reference(o, ts)).max()
    r = np.abs(e).max() / (sc * tol)
    mon.check("global-error", r < 300, f"error is {r:.3g} times the tolerance {tol:.2g}: {o.kind} {kw}")
    mon.event("locations", len(ts))


@scenario(P, "convergence-order", quick=40)
def order(mon, rng):
    """With fixed steps, the error of an order-q solver decays like h**q."""
    o = gen_ode.make(rng)
    o.tmax = o.t0 + 1.0
    q = int(rng.integers(1, 4))
    method = str(rng.choice(["EK0", "EK1"]))
    diff = str(rng.choice(["dynamic", "constant"]))
    smoothing = bool(rng.random() < 0.5)
    mon.describe(ode=o.kind, q=q, method=method, diffusion=diff, smoothing=smoothing, y0=o.y0.round(3).tolist())
    n0 = 20
    err = []
    for n in (n0, 2 * n0, 4 * n0):
        sol = diffeq.probsolve_ivp(o.f, o.t0, o.tmax, o.y0, df=o.df, adaptive=False, step=1.0 / n, method=method, algo_order=q,
                                   diffusion_model=diff, dense_output=smoothing)
        ts = np.asarray(sol.locations)
        err.append(np.abs(np.asarray(sol.states.mean) - gen_ode.reference(o, ts)).max())
    rate = np.log2(err[0] / err[2]) / 2 if err[2] > 0 else 99
    mon.check("converges", rate > q - 0.5 or err[2] < 1e-5, f"errors {err}: rate {rate:.2f} for order {q} ({o.kind} {method} {diff})")


@scenario(P, "hard-starts", quick=90)
def hard(mon, rng):
    """Initial values and slopes that are zero, huge or tiny; solutions that cease to exist."""
    which = str(rng.choice(["zero-value", "zero-slope", "both-zero", "huge", "tiny", "blow-up", "at-rest", "nan-slope", "negative"]))
    method = str(rng.choice(["EK0", "EK1", "RK45", "RK23"]))
    t0, T = float(rng.choice([0.0, 2.0])), float(rng.uniform(0.5, 2))
    c = float(rng.uniform(0.5, 2))
    mon.describe(which=which, method=method, T=round(T, 3), c=round(c, 3))
    if which == "blow-up" and method.startswith("EK"):
        method = "RK45"  # the residual of y' grows faster than y: the filter needs unboundedly many steps
    sol_ok, exact = True, None
    if which == "zero-value":
        f, df, y0 = (lambda t, y: np.array([c * np.cos(t)])), (lambda t, y: np.zeros((1, 1))), np.zeros(1)
        exact = lambda t: c * (np.sin(t) - np.sin(t0))
    elif which == "zero-slope":
        f, df, y0 = (lambda t, y: -c * (y - 1.5)), (lambda t, y: -c * np.eye(1)), np.array([1.5])
        exact = lambda t: 1.5 + 0 * t
    elif which == "at-rest":
        v = float(rng.choice([0.0, 1.5]))
        f, df, y0 = (lambda t, y: 0.0 * y), (lambda t, y: np.zeros((1, 1))), np.array([v])
        exact = lambda t: v + 0 * t
    elif which == "both-zero":
        f, df, y0 = (lambda t, y: np.array([c * (t - t0)])), (lambda t, y: np.zeros((1, 1))), np.zeros(1)
        exact = lambda t: c * (t - t0) ** 2 / 2
    elif which in ("huge", "tiny"):
        s = 1e6 if which == "huge" else 1e-7
        f, df, y0 = (lambda t, y: -c * y), (lambda t, y: -c * np.eye(1)), np.array([s])
        exact = lambda t: s * np.exp(-c * (t - t0))
    elif which == "negative":
        f, df, y0 = (lambda t, y: -c * y), (lambda t, y: -c * np.eye(1)), np.array([-float(rng.choice([1.0, 10.0]))])
        exact = lambda t: y0[0] * np.exp(-c * (t - t0))
    elif which == "blow-up":
        f, df, y0 = (lambda t, y: y**2), (lambda t, y: np.array([[2 * y[0]]])), np.array([2.0 / T])
        sol_ok = False
    else:
        f, df, y0 = (lambda t, y: np.array([np.nan if t > t0 + T / 2 else 1.0])), (lambda t, y: np.zeros((1, 1))), np.ones(1)
        sol_ok = False
    kw = dict(atol=3e-3, rtol=3e-3)

    class Guard(Exception):
        pass

    calls = [0]

    def g(t, y):
        calls[0] += 1
        if calls[0] > 60000:
            raise Guard()
        return f(t, y)

    try:
        if method.startswith("EK"):
            sol = diffeq.probsolve_ivp(g, t0, t0 + T, y0, df=df, method=method, **kw)
        else:
            with fresh_slopes():
                sol = diffeq.perturbsolve_ivp(g, t0, t0 + T, y0, rng=np.random.default_rng(1), method=method, noise_scale=1e-8, **kw)
    except Guard:
        mon.check("terminates", False, f"more than 60000 evaluations: {which} {method}")
        return
    except (RuntimeError, ValueError, FloatingPointError, np.linalg.LinAlgError) as e:
        mon.check("solved", not sol_ok, f"{which} {method}: {type(e).__name__}: {e}")
        mon.reject(type(e).__name__)
        return
    if not sol_ok:
        mon.check("failure-reported", False, f"{which} {method}: returned a solution with final value {sol.states[-1].mean} after {len(sol.locations)} steps")
        return
    ts = np.asarray(sol.locations)
    mon.check("ends-at-tmax", abs(ts[-1] - t0 - T) < 1e-10)
    e = np.abs(np.asarray(sol.states.mean)[:, 0] - exact(ts)).max()
    mon.check("accurate", e < 30 * 3e-3 * (1 + np.abs(exact(ts)).max()), f"{which} {method}: error {e}")


@scenario(P, "first-step", quick=100)
def first_step(mon, rng):
    """The proposed first step is positive, and a quantity with the unit of time: it follows a change of units."""
    o = gen_ode.make(rng, ("linear", "logistic", "forced", "modulated"))
    ivp = gen_ode.ivp(o)
    h = stepsize.propose_firststep(ivp)
    mon.describe(ode=o.kind, y0=o.y0.round(5).tolist(), h=float(f"{h:.4g}"))
    mon.check("positive-first-step", np.isfinite(h) and h > 0, f"{h}")
    y0, f0 = np.linalg.norm(o.y0), np.linalg.norm(o.f(o.t0, o.y0))
    if min(y0, f0) > 1e-2 and max(y0, f0) < 1e4:
        c = float(rng.choice([0.5, 2.0, 3.0]))
        slow = problems.InitialValueProblem(f=lambda t, y: np.asarray(o.f(o.t0 + (t - o.t0) / c, y)) / c, t0=o.t0, tmax=o.t0 + c * (o.tmax - o.t0), y0=o.y0)
        mon.close("time-unit", stepsize.propose_firststep(slow), c * h, 1e-9, "time stretched")
        big = problems.InitialValueProblem(f=lambda t, y: c * np.asarray(o.f(t, np.asarray(y) / c)), t0=o.t0, tmax=o.tmax, y0=c * o.y0)
        mon.close("state-unit", stepsize.propose_firststep(big), h, 1e-9, "state scaled")
        mon.check("small-relative-to-scale", h * f0 <= 0.2 * y0, f"step {h} moves the state by {h * f0} of {y0}")


@scenario(P, "callbacks", quick=120)
def callback(mon, rng):
    """A callback sees every accepted step once and its replacement is what the solver continues from."""
    o = gen_ode.make(rng, ("linear", "logistic", "forced", "modulated"))
    sk, rule, par = steps(rng, o)
    kind, solver, cfg = make_solver(rng, o, rule)
    tc = o.t0 + 0.4 * (o.tmax - o.t0)
    seen, done = [], []
    factor = float(rng.choice([0.5, 1.0, 2.0]))
    if kind == "filter" and sk.startswith("adaptive"):
        factor = 1.0  # scaling value and slope of a nonlinear ODE makes them inconsistent
    mon.describe(ode=o.kind, solver=kind, cfg=cfg, steps=sk, factor=factor, y0=o.y0.round(4).tolist())

    def cond(s):
        seen.append(s.t)
        return s.t >= tc and not done

    import dataclasses

    def repl(s):
        done.append(s.t)
        return dataclasses.replace(s, rv=factor * s.rv if not isinstance(s.rv, randvars.Constant) else randvars.Constant(factor * s.rv.mean))

    cb = callbacks.DiscreteCallback(replace=repl, condition=cond)
    after = []
    chain = str(rng.choice(["single", "list", "first", "last", "middle", "many", "generator"]))
    watch = [callbacks.DiscreteCallback(replace=lambda s: after.append((s.t, np.array(s.rv.mean))) or s, condition=lambda s: True)]
    idle = [callbacks.DiscreteCallback(replace=lambda s: mon.check("condition-respected", False) or s, condition=lambda s: False)]
    if chain != "single":  # several callbacks act one after the other, in order
        cb = {"list": [cb], "first": [cb] + watch, "last": idle + [cb], "middle": tuple(idle + [cb] + watch + idle),
              "many": idle * 3 + [cb] + idle + watch, "generator": (c for c in idle + [cb] + watch)}[chain]
    out = list(solver.solution_generator(gen_ode.ivp(o), callbacks=cb))
    ts = [s.t for s in out]
    mon.check("callback-every-step", seen == ts[1:], f"{len(seen)} calls, {len(ts) - 1} steps")
    mon.check("callback-once", len(done) == 1)
    if after or chain in ("first", "middle", "many", "generator"):
        mon.check("callbacks-chained", [t for t, _ in after] == ts[1:] and all(np.array_equal(m, np.asarray(s.rv.mean)) for (_, m), s in zip(after, out[1:])),
                  f"a later callback did not see what an earlier one returned ({chain})")
    if kind == "scipy" and sk.startswith("constant"):
        k = ts.index(done[0])
        import scipy.integrate._ivp.rk as rk
        cls = solver.solver_type
        for j in range(len(ts) - 1):
            y, h = np.asarray(out[j].rv.mean), ts[j + 1] - ts[j]
            K = np.zeros((cls.n_stages + 1, len(y)))
            want, _ = rk.rk_step(o.f, ts[j], y, np.asarray(o.f(ts[j], y)), h, cls.A, cls.B, cls.C, K)
            if j + 1 == k:
                want = factor * want
            mon.close("continues-from-replacement", out[j + 1].rv.mean, want, 1e-9, f"step {j} (replaced at {k}) {cfg}")


@scenario(P, "moving-end", quick=60)
def moving_end(mon, rng):
    """A callback that moves the end of the interval: the solver ends there, and not elsewhere."""
    import dataclasses
    o = gen_ode.make(rng, ("linear", "logistic", "forced"))
    T = o.tmax - o.t0
    h = min(0.9, T / int(rng.integers(6, 15)))
    kind, solver, cfg = make_solver(rng, o, stepsize.ConstantSteps(h))
    new = o.t0 + T * float(rng.choice([0.55, 0.8, 1.2]))
    when = o.t0 + 0.3 * T
    mon.describe(ode=o.kind, solver=kind, cfg=cfg, h=round(h, 4), T=round(T, 4), new=round(new, 4))
    done = []

    def repl(s):
        done.append(s.t)
        return dataclasses.replace(s, ivp=dataclasses.replace(s.ivp, tmax=new))

    cb = callbacks.DiscreteCallback(replace=repl, condition=lambda s: s.t >= when and not done)
    ts = []
    for s in solver.solution_generator(gen_ode.ivp(o), callbacks=cb):
        ts.append(s.t)
        if len(ts) > 60:
            break
    ts = np.asarray(ts)
    mon.check("ends-at-moved-end", abs(ts[-1] - new) <= 1e-10 * (1 + abs(new)), f"ended at {ts[-1]}, end moved from {o.tmax} to {new}")
    mon.check("increasing", np.all(np.diff(ts) > 0), f"{ts}")

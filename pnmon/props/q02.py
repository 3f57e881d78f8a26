"""Q02: Bayesian quadrature reports the posterior of all evaluations it made, within its budget."""
import warnings

import numpy as np
from probnum.quad import bayesquad, bayesquad_from_data, multilevel_bayesquad_from_data
from probnum.quad.integration_measures import GaussianMeasure, LebesgueMeasure
from probnum.quad.kernel_embeddings import KernelEmbedding
from probnum.quad.solvers import BayesianQuadrature
from probnum.quad.solvers.acquisition_functions import (
    IntegralVarianceReduction,
    MutualInformation,
    WeightedPredictiveVariance,
)
from probnum.quad.solvers.belief_updates import BQStandardBeliefUpdate
from probnum.quad.solvers.stopping_criteria import MaxNevals
from probnum.randprocs.covfuncs import ExpQuad, Matern, ProductMatern

from pnmon.core import Skip, scenario

P = "Q02"


def setup(rng, dmax=3):
    d = int(rng.integers(1, dmax + 1))
    gauss = bool(rng.random() < 0.35)
    norm = False
    if gauss:
        m = rng.uniform(-1, 1, d)
        S = np.diag(rng.uniform(0.5, 1.5, d))
        if rng.random() < 0.5:
            q, _ = np.linalg.qr(rng.standard_normal((d, d)))
            S = q @ S @ q.T
            S = (S + S.T) / 2
        meas = GaussianMeasure(m, S)
        kern = ExpQuad((d,), lengthscales=float(rng.uniform(0.5, 2)))
        kind = "gauss"
    else:
        a = rng.uniform(-2, 1, d)
        b = a + rng.uniform(0.5, 3, d)
        norm = bool(rng.random() < 0.5)
        meas = LebesgueMeasure((a, b), normalized=norm)
        kind = str(rng.choice(["expquad", "matern", "product"]))
        if kind == "matern" and d > 1:
            kind = "product"
        l = float(rng.uniform(0.5, 2))
        if kind == "expquad":
            kern = ExpQuad((d,), lengthscales=l)
        elif kind == "matern":
            kern = Matern((1,), nu=float(rng.choice([0.5, 1.5, 2.5])), lengthscales=l)
        else:
            kern = ProductMatern((d,), lengthscales=rng.uniform(0.5, 2, d), nus=rng.choice([0.5, 1.5, 2.5], d))
    return d, kind, norm, meas, kern


def integrand(rng, d):
    c, w, s = rng.standard_normal(3), rng.standard_normal(d), 10 ** rng.uniform(-1, 1)
    return lambda x: s * (c[0] + c[1] * np.sin(x @ w) + c[2] * np.sum(x, axis=1) ** 2 * 0.1)


def posterior(kern, meas, X, y, jitter, mle, scale=1.0):
    """The Gaussian law of the integral given the data (textbook formula, dense algebra)."""
    emb = KernelEmbedding(kern, meas)
    n = len(y)
    K = kern(X[:, None, :], X[None, :, :]) + jitter * np.eye(n)
    z = emb.kernel_mean(X)
    a = np.linalg.solve(K, np.column_stack([y, z]))
    if mle:
        scale = y @ a[:, 0] / n
    return z @ a[:, 0], scale * (emb.kernel_variance() - z @ a[:, 1]), scale, np.linalg.cond(K)


def agree(mon, belief, ref, y, msg):
    m, v, s, cond = ref
    tol = 1e-12 * cond + 1e-9
    mon.check("posterior-mean", abs(belief.mean - m) <= tol * (1 + abs(m) + np.abs(y).max()), f"{msg}: {belief.mean}, expected {m}")
    mon.check("posterior-variance", abs(belief.cov - v) <= tol * (1 + abs(s)) * 10, f"{msg}: {belief.cov}, expected {v}")


@scenario(P, "from-data", quick=500)
def from_data(mon, rng):
    d, kind, norm, meas, kern = setup(rng)
    n = int(rng.integers(1, 12))
    jitter = float(rng.choice([1e-8, 1e-4, 1e-2]))
    mle = bool(rng.random() < 0.6)
    X = meas.sample(n, rng)
    if rng.random() < 0.2 and n > 2:
        X[1] = X[0]  # the same node twice
    f = integrand(rng, d)
    y = f(X)
    opts = dict(jitter=jitter, scale_estimation="mle" if mle else None)
    mon.describe(d=d, kind=kind, norm=norm, n=n, jitter=jitter, mle=mle, y=y.round(5).tolist())
    X0, y0 = X.copy(), y.copy()
    belief, info = bayesquad_from_data(nodes=X, fun_evals=y, kernel=kern, measure=meas, options=dict(opts))
    mon.check("inputs-intact", np.array_equal(X, X0) and np.array_equal(y, y0))
    ref = posterior(kern, meas, X, y, jitter, mle)
    if ref[3] > 1e9:
        raise Skip("ill-conditioned data")
    agree(mon, belief, ref, y, "from data")
    mon.check("scalar-belief", np.ndim(belief.mean) == 0 and belief.shape == ())
    mon.check("info", info.nevals == n and info.iteration == 0 and bool(info.has_converged), f"{info}")
    # more nodes never increase the variance (without re-estimated scale)
    if not mle and n > 1:
        k = int(rng.integers(1, n))
        b1, _ = bayesquad_from_data(nodes=X[:k], fun_evals=y[:k], kernel=kern, measure=meas, options=dict(opts))
        mon.check("variance-shrinks", belief.cov <= b1.cov + 1e-7, f"{b1.cov} with {k} nodes, {belief.cov} with {n}")
    # the order of the data does not matter
    p = rng.permutation(n)
    b2, _ = bayesquad_from_data(nodes=X[p], fun_evals=y[p], kernel=kern, measure=meas, options=dict(opts))
    tol = 1e-12 * ref[3] + 1e-9
    mon.check("order", abs(b2.mean - belief.mean) <= tol * (1 + np.abs(y).max()) and abs(b2.cov - belief.cov) <= 10 * tol * (1 + ref[2]), "permuted data")
    # adding data in two batches to the belief equals adding them at once
    if n > 2:
        k = int(rng.integers(1, n))
        bq = BayesianQuadrature.from_problem(input_dim=d, kernel=kern, measure=meas, policy=None, options=dict(opts))
        _, st, _ = bq.integrate(fun=None, nodes=X[:k], fun_evals=y[:k])
        b3, st = bq.belief_update(st, X[k:], y[k:])
        agree(mon, b3, ref, y, f"in two batches of {k} and {n - k}")
        mon.check("state-data", np.array_equal(st.nodes, X) and np.array_equal(st.fun_evals, y))
        mon.check("history", len(st.previous_integral_beliefs) == 2)
        # prediction of the integrand
        xs = meas.sample(3, rng)
        pm, pv = BQStandardBeliefUpdate.predict_integrand(xs, st)
        K = kern(X[:, None], X[None]) + jitter * np.eye(n)
        ks = kern(X[:, None], xs[None])
        A = np.linalg.solve(K, np.column_stack([y, ks]))
        wm, wv = ks.T @ A[:, 0], ref[2] * (1 - np.sum(ks * A[:, 1:], axis=0))
        mon.check("predict-mean", np.abs(pm - wm).max() <= tol * (1 + np.abs(y).max()), f"{pm}, expected {wm}")
        mon.check("predict-variance", np.abs(pv - wv).max() <= 10 * tol * (1 + ref[2]), f"{pv}, expected {wv}")
        acquisition(mon, rng, st, xs, kern, meas, X, y, ref, pv, jitter)


def acquisition(mon, rng, st, xs, kern, meas, X, y, ref, pv, jitter):
    """Acquisition values against what would happen to the integral if the node were added."""
    emb = KernelEmbedding(kern, meas)
    n = len(y)
    s = st.scale_sq
    K = kern(X[:, None], X[None]) + jitter * np.eye(n)
    v0 = emb.kernel_variance() - emb.kernel_mean(X) @ np.linalg.solve(K, emb.kernel_mean(X))
    if v0 < 1e-5 or np.min(pv) < 1e-5 * s or s < 1e-8:
        return
    ivr, _ = IntegralVarianceReduction()(xs, st)
    mi, _ = MutualInformation()(xs, st)
    us, _ = WeightedPredictiveVariance()(xs, st)
    for i, x in enumerate(xs):
        # noise-free observation at x
        Xa = np.vstack([X, x])
        Ka = kern(Xa[:, None], Xa[None]) + jitter * np.diag(np.r_[np.ones(n), 0.0])
        za = emb.kernel_mean(Xa)
        v1 = emb.kernel_variance() - za @ np.linalg.solve(Ka, za)
        want = (v0 - v1) / v0
        mon.check("acq-ivr", abs(ivr[i] - want) <= 1e-5 + 1e-11 * ref[3] / v0, f"{ivr[i]}, expected {want}")
        if want < 0.999:
            mon.check("acq-mi", abs(mi[i] + 0.5 * np.log(1 - want)) <= 1e-3 + 1e-9 * ref[3] / v0, f"{mi[i]}, expected {-0.5 * np.log(1 - want)}")
    wus = pv / s * meas(xs) ** 2
    mon.check("acq-us", np.abs(us - wus).max() <= 1e-9 * (1 + np.abs(wus).max()), f"{us}, expected {wus}")
    mon.event("acquisitions", len(xs))


@scenario(P, "bayesquad", quick=400)
def full(mon, rng):
    pol = str(rng.choice(["bmc", "vdc", "us_rand", "mi_rand", "ivr_rand", "us", "mi", "ivr"], p=[0.3, 0.2, 0.1, 0.1, 0.1, 0.07, 0.06, 0.07]))
    opt = not (pol in ("bmc", "vdc") or pol.endswith("_rand"))
    d, kind, norm, meas, kern = setup(rng, 1 if pol == "vdc" else 2)
    if pol == "vdc" and kind == "gauss":
        raise Skip("unbounded domain")
    init = [None, "mc", "latin"][int(rng.integers(3))]
    if kind == "gauss" and init == "latin":
        init = "mc"
    jitter = float(rng.choice([1e-8, 1e-4]))
    opts = dict(jitter=jitter, scale_estimation="mle" if rng.random() < 0.5 else None)
    if pol in ("bmc", "vdc"):
        opts["batch_size"] = int(rng.integers(1, 5))
    batch = opts.get("batch_size", 1)
    if rng.random() < 0.8 or opt:
        opts["max_evals"] = int(rng.integers(1, 7 if opt else 20))
    if rng.random() < 0.5:
        opts["var_tol"] = float(10 ** rng.uniform(-6, 0))
    if rng.random() < 0.3:
        opts["rel_tol"] = float(10 ** rng.uniform(-6, -1))
    if not {"max_evals", "var_tol", "rel_tol"} & set(opts) and d > 1 and (pol != "bmc" or kind in ("gauss", "expquad")):
        opts["max_evals"] = 10
    if "max_evals" not in opts and ("rel_tol" in opts or "var_tol" in opts):
        opts["max_evals"] = 60
    if rng.random() < 0.5:
        opts["n_initial_design_nodes"] = int(rng.integers(1, 6)) if rng.random() < 0.7 else int(rng.integers(6, 14))
    if pol.endswith("_rand"):
        opts["n_candidates"] = int(rng.integers(1, 20))
    if opt:
        opts["n_restarts"] = 2
    ninit = 0 if init is None else opts.get("n_initial_design_nodes", 5 * d)
    mon.describe(policy=pol, d=d, kind=kind, norm=norm, init=init, opts={k: (round(v, 9) if isinstance(v, float) else v) for k, v in opts.items()})
    f0 = integrand(rng, d)
    log = []

    def f(x):
        mon.check("called-with", isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == d, f"{np.shape(x)}")
        log.append(np.array(x))
        return f0(x)

    seed = int(rng.integers(1 << 30))
    state = np.random.get_state()[1].copy()
    try:
        belief, info = bayesquad(fun=f, input_dim=d, kernel=kern, measure=meas, policy=pol, initial_design=init, rng=np.random.default_rng(seed), options=dict(opts))
    except (RuntimeError, np.linalg.LinAlgError) as e:
        # the optimizer found nothing, or identical nodes made the Gram matrix singular: loud
        raise Skip(f"{type(e).__name__}: {e}")
    mon.check("no-global-state", np.array_equal(state, np.random.get_state()[1]))
    X = np.vstack(log) if log else np.zeros((0, d))
    y = f0(X) if len(X) else np.zeros(0)
    mon.check("evaluations-counted", info.nevals == len(X), f"reported {info.nevals}, made {len(X)}")
    calls = log[1:] if init is not None else log
    if init is not None:
        mon.check("initial-design", log[0].shape == (ninit, d), f"{log[0].shape}")
        if init == "latin":
            # one node in each of the strata of every coordinate
            lo, hi = meas.domain
            cells = np.floor((log[0] - lo) / (hi - lo) * ninit).astype(int)
            mon.check("latin-strata", all(sorted(c) == list(range(ninit)) for c in cells.T), f"strata {cells.tolist()} of {ninit} nodes")
    mon.check("batches", all(len(c) == batch for c in calls) and info.iteration == len(calls), f"{[len(c) for c in calls]}, {info}")
    a, b = meas.domain
    mon.check("inside-domain", np.all(X >= a - 1e-12) and np.all(X <= b + 1e-12))
    mle = opts["scale_estimation"] == "mle"
    # replay of the stopping rule on the beliefs after every batch
    default = not {"max_evals", "var_tol", "rel_tol"} & set(opts)
    emb = KernelEmbedding(kern, meas)
    means, ok = [0.0], True
    counts = ([ninit] if init is not None else [0]) + [ninit + batch * (i + 1) for i in range(len(calls))]
    for i, k in enumerate(counts):
        if k == 0:
            m, v, s, cond = 0.0, emb.kernel_variance(), 1.0, 1.0
        else:
            m, v, s, cond = posterior(kern, meas, X[:k], y[:k], jitter, mle)
        if cond > 1e9:
            ok = False
            break
        tol = 1e-11 * cond * (1 + s) + 1e-9
        sure, maybe = False, False
        me, vt, rt = opts.get("max_evals"), opts.get("var_tol"), opts.get("rel_tol")
        if default:
            me, vt = 25 * d, 1e-6
        if me is not None:
            sure |= k >= me
        if vt is not None:
            sure |= v < vt - tol
            maybe |= abs(v - vt) <= tol
        if rt is not None and not (k == 0):
            prev = means[-1]
            q = abs((m - prev) / m) if m else np.inf
            sure |= q < rt * (1 - 1e-3) - tol / max(abs(m), 1e-12)
            maybe |= abs(q - rt) <= 1e-3 * rt + tol / max(abs(m), 1e-12)
        if k:
            means.append(m)
        last = i == len(counts) - 1
        if last:
            mon.check("stops-when-allowed", sure or maybe, f"stopped after {k} evaluations, variance {v}, limits {me}, {vt}, {rt}")
        else:
            mon.check("continues-while-needed", not sure or maybe, f"went on after {k} evaluations, variance {v}, limits {me}, {vt}, {rt}")
    mon.check("converged-flag", bool(info.has_converged))
    if ok:
        if len(X):
            agree(mon, belief, posterior(kern, meas, X, y, jitter, mle), y, f"{len(X)} evaluations")
        else:
            mon.check("prior", belief.mean == 0.0 and abs(belief.cov - emb.kernel_variance()) < 1e-12)
    if pol == "vdc":
        n0 = ninit
        seqs = np.array([int(bin(j)[2:][::-1], 2) / 2 ** len(bin(j)[2:]) for j in range(n0 + 1, n0 + 1 + batch * len(calls))])
        mon.check("van-der-corput", np.abs(X[n0:, 0] - (a + (b - a) * seqs)).max() < 1e-12 if len(seqs) else True)
    # same generator state, same answer
    log.clear()
    again, info2 = bayesquad(fun=f, input_dim=d, kernel=kern, measure=meas, policy=pol, initial_design=init, rng=np.random.default_rng(seed), options=dict(opts))
    mon.check("reproducible", again.mean == belief.mean and again.cov == belief.cov and info2.nevals == info.nevals)
    mon.event("integrand-evaluations", len(X))


@scenario(P, "integrate", quick=200)
def integrate(mon, rng):
    """The solver object: data given by the user, data of the design and data of the policy are all used."""
    d, kind, norm, meas, kern = setup(rng, 1)
    pol = [None, "bmc", "vdc"][int(rng.integers(3))]
    init = None if pol is None else [None, "mc", "latin"][int(rng.integers(3))]
    if kind == "gauss":
        pol, init = (pol and "bmc"), (init and "mc")
    n = int(rng.integers(1 if pol is None else 0, 5))
    n0 = int(rng.integers(1, 5))
    me = int(rng.integers(1, 12))
    opts = dict(jitter=1e-4, scale_estimation=None if rng.random() < 0.5 else "mle", max_evals=me, n_initial_design_nodes=n0, batch_size=int(rng.integers(1, 3)))
    f = integrand(rng, d)
    log = []
    fun = lambda x: log.append(np.array(x)) or f(x)
    X = meas.sample(n, rng) if n else None
    evals_given = bool(rng.random() < 0.5) and n > 0
    fresh = pol is None and bool(rng.random() < 0.5)
    mon.describe(kind=kind, policy=pol, init=init, n=n, n0=n0, me=me, evals=evals_given, fresh=fresh)
    bq = BayesianQuadrature.from_problem(input_dim=d, kernel=kern, measure=meas, policy=pol, initial_design=init, options=opts)
    if fresh:  # without a policy there is nothing to wait for, whatever the criterion says
        bq = BayesianQuadrature(kernel=kern, measure=meas, policy=None, belief_update=bq.belief_update, stopping_criterion=MaxNevals(n + 3), initial_design=None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        belief, st, info = bq.integrate(fun=None if (pol is None and evals_given) else fun, nodes=X, fun_evals=f(X) if evals_given else None, rng=np.random.default_rng(1))
    Z, y = st.nodes, st.fun_evals
    seen = ([X] if evals_given else []) + log
    seen = np.vstack(seen) if seen else np.zeros((0, d))
    mon.check("state-data", Z.shape == (len(y), d) and len(Z) == info.nevals and np.array_equal(np.sort(Z[:, 0]), np.sort(seen[:, 0])), f"{Z.ravel()} of {seen.ravel()}")
    mon.check("values-belong-to-nodes", np.allclose(y, f(Z), rtol=1e-12, atol=1e-12), f"{y}, expected {f(Z)}")
    start = n + (n0 if init else 0)
    want = start if (pol is None or start >= me) else start + -(-(me - start) // opts["batch_size"]) * opts["batch_size"]
    mon.check("budget", len(Z) == want, f"{len(Z)} evaluations, expected {want}")
    if len(Z):
        agree(mon, belief, posterior(kern, meas, Z, y, 1e-4, opts["scale_estimation"] == "mle"), y, "solver object")
        mon.check("belief-in-state", st.integral_belief.mean == belief.mean and st.integral_belief.cov == belief.cov)


@scenario(P, "defaults", quick=60)
def defaults(mon, rng):
    """A domain stands for its Lebesgue measure, a missing kernel for the unit exponentiated quadratic."""
    d = int(rng.integers(1, 3))
    a = rng.uniform(-1, 1, d)
    b = a + rng.uniform(0.5, 2, d)
    dom = (a, b)
    if rng.random() < 0.4:
        a, b = np.full(d, a[0]), np.full(d, b[0])
        dom = (float(a[0]), float(b[0]))
        if b[0] <= a[0]:
            raise Skip("empty")
    f = integrand(rng, d)
    meas = LebesgueMeasure((a, b))
    kern = ExpQuad((d,))
    both = bool(rng.random() < 0.3)
    X = meas.sample(int(rng.integers(1, 5)), rng)
    mon.describe(d=d, dom=np.round(np.concatenate([a, b]), 4).tolist(), scalar=np.isscalar(dom[0]), both=both)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(domain=(np.full(d, -9.0), np.full(d, 9.0)), measure=meas) if both else dict(domain=dom)
        if np.isscalar(dom[0]) and d > 1 and not both:
            kw = dict(measure=LebesgueMeasure(dom, input_dim=d))
        belief, _ = bayesquad_from_data(nodes=X, fun_evals=f(X), **kw)
        log = []
        full_belief, info = bayesquad(fun=lambda x: log.append(np.array(x)) or f(x), input_dim=d, rng=np.random.default_rng(0),
                                      options=dict(max_evals=4, jitter=1e-4), **kw)
    ref = posterior(kern, meas, X, f(X), 1e-8, True)
    if ref[3] < 1e9:
        agree(mon, belief, ref, f(X), "defaults")
    Z = np.vstack(log)
    mon.check("nodes-in-domain", len(Z) == 4 and np.all(Z >= a) and np.all(Z <= b), f"{Z}")
    agree(mon, full_belief, posterior(kern, meas, Z, f(Z), 1e-4, True), f(Z), "defaults with policy")


@scenario(P, "policy-choice", quick=80)
def choice(mon, rng):
    """Random-candidate policies return the best of the candidates they drew."""
    d, kind, norm, meas, kern = setup(rng, 2)
    name = str(rng.choice(["us_rand", "mi_rand", "ivr_rand"]))
    nc = int(rng.integers(1, 30))
    n = int(rng.integers(0, 5))
    mon.describe(policy=name, d=d, kind=kind, nc=nc, n=n)
    bq = BayesianQuadrature.from_problem(input_dim=d, kernel=kern, measure=meas, policy=name, options=dict(n_candidates=nc, jitter=1e-6))
    bqd = BayesianQuadrature.from_problem(input_dim=d, kernel=kern, measure=meas, policy=None, options=dict(jitter=1e-6))
    X = meas.sample(max(n, 1), rng)
    f = integrand(rng, d)
    _, st, _ = bqd.integrate(fun=None, nodes=X, fun_evals=f(X))
    acq = {"us": WeightedPredictiveVariance, "mi": MutualInformation, "ivr": IntegralVarianceReduction}[name[:-5]]()
    seed = int(rng.integers(1 << 30))
    x = bq.policy(st, np.random.default_rng(seed))
    cand = meas.sample(nc, np.random.default_rng(seed))
    mon.check("is-candidate", x.shape == (1, d) and np.any(np.all(cand == x, axis=1)), f"{x}")
    vals, best = acq(cand, st)[0], acq(x, st)[0][0]
    if np.isfinite(vals).all():
        mon.check("best-candidate", best >= vals.max() - 1e-9 * (1 + abs(vals.max())), f"{best} of at most {vals.max()}")


@scenario(P, "policy-optimum", quick=40)
def optimum(mon, rng):
    """Optimising policies return the best of everything the optimiser saw, over all its restarts."""
    from probnum.quad.solvers.policies import MaxAcquisitionPolicy
    d, kind, norm, meas, kern = setup(rng, 1)
    name = str(rng.choice(["us", "mi", "ivr"]))
    acq = {"us": WeightedPredictiveVariance, "mi": MutualInformation, "ivr": IntegralVarianceReduction}[name]()
    n, nr = int(rng.integers(2, 6)), int(rng.integers(2, 5))
    mon.describe(acq=name, kind=kind, n=n, restarts=nr)
    bqd = BayesianQuadrature.from_problem(input_dim=d, kernel=kern, measure=meas, policy=None, options=dict(jitter=1e-5))
    X = meas.sample(n, rng)
    f = integrand(rng, d)
    _, st, _ = bqd.integrate(fun=None, nodes=X, fun_evals=f(X))
    seen = []

    class Recorded(type(acq)):
        def __call__(self, predictions, bq_state):
            out = super().__call__(predictions, bq_state)
            seen.extend(np.ravel(out[0]).tolist())
            return out

    try:
        x = MaxAcquisitionPolicy(1, Recorded(), nr)(st, np.random.default_rng(int(rng.integers(1 << 30))))
    except RuntimeError as e:
        raise Skip(f"{e}")
    if len(seen) >= 200 * d or not np.all(np.isfinite(seen)):
        raise Skip("a restart may have failed")  # its values do not count
    best = acq(x, st)[0][0]
    mon.check("best-of-all-restarts", best >= max(seen) - 1e-9 * (1 + abs(max(seen))), f"{best}, but {max(seen)} was seen in {len(seen)} evaluations")


@scenario(P, "multilevel", quick=80)
def multilevel(mon, rng):
    d, kind, norm, meas, kern = setup(rng, 2)
    L = int(rng.integers(1, 8))
    share = bool(rng.random() < 0.3)
    n = [int(rng.integers(2, 7)) for _ in range(L)]
    if share:
        n = [n[0]] * L
    Xs = [meas.sample(k, rng) for k in n]
    if share:
        Xs = [Xs[0]] * L
    ys = [integrand(rng, d)(X) for X in Xs]
    opts = dict(jitter=1e-5, scale_estimation="mle" if rng.random() < 0.5 else None)
    kern_given = bool(rng.random() < 0.6)
    mon.describe(d=d, kind=kind, L=L, n=n, share=share, kernels=kern_given)
    if not kern_given:
        kerns = [ExpQuad((d,))] * L
    elif kind in ("expquad", "gauss"):
        kerns = [ExpQuad((d,), lengthscales=float(rng.uniform(0.5, 2))) for _ in range(L)]
    else:
        kerns = [kern] * L
    belief, infos = multilevel_bayesquad_from_data(nodes=(Xs[0],) if share else tuple(Xs), fun_diff_evals=tuple(ys),
                                                   kernels=tuple(kerns) if kern_given else None, measure=meas, options=dict(opts))
    m = v = 0.0
    cond = 1.0
    sc = 0.0
    for X, y, kl in zip(Xs, ys, kerns):
        r = posterior(kl, meas, X, y, 1e-5, opts["scale_estimation"] == "mle")
        m, v, sc, cond = m + r[0], v + r[1], sc + r[2], max(cond, r[3])
    agree(mon, belief, (m, v, sc, cond), np.concatenate(ys), f"{L} levels")
    mon.check("infos", len(infos) == L and all(i.nevals == k for i, k in zip(infos, n)))


@scenario(P, "refusals", quick=60)
def refusals(mon, rng):
    f = lambda x: np.ones(len(x))
    G = GaussianMeasure(np.zeros(1), np.eye(1))
    r = np.random.default_rng(0)
    cases = {
        "no-domain": lambda: bayesquad(f, 1, rng=r),
        "no-rng": lambda: bayesquad(f, 1, domain=(0.0, 1.0)),
        "no-rng-init": lambda: bayesquad(f, 1, domain=(0.0, 1.0), policy="vdc", initial_design="mc"),
        "policy": lambda: bayesquad(f, 1, domain=(0.0, 1.0), policy="nope", rng=r),
        "design": lambda: bayesquad(f, 1, domain=(0.0, 1.0), initial_design="nope", rng=r),
        "vdc-dim": lambda: bayesquad(f, 2, domain=(0.0, 1.0), policy="vdc"),
        "vdc-gauss": lambda: bayesquad(f, 1, measure=G, policy="vdc"),
        "latin-gauss": lambda: bayesquad(f, 1, measure=G, initial_design="latin", rng=r),
        "nodes-dim": lambda: bayesquad_from_data(np.zeros(3), np.zeros(3), domain=(0.0, 1.0)),
        "lengths": lambda: bayesquad_from_data(np.zeros((3, 1)), np.zeros(4), domain=(0.0, 1.0)),
        "evals-dim": lambda: bayesquad_from_data(np.zeros((3, 1)), np.zeros((3, 1)), domain=(0.0, 1.0)),
        "jitter": lambda: bayesquad_from_data(np.zeros((3, 1)), np.zeros(3), domain=(0.0, 1.0), options=dict(jitter=-1.0)),
        "scale": lambda: bayesquad_from_data(np.arange(3.0)[:, None], np.ones(3), domain=(0.0, 1.0), options=dict(scale_estimation="nope")),
        "levels": lambda: multilevel_bayesquad_from_data(nodes=(np.zeros((2, 1)),) * 2, fun_diff_evals=(np.zeros(2),) * 3, domain=(0.0, 1.0)),
    }
    k = list(cases)[int(rng.integers(len(cases)))]
    mon.describe(case=k)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cases[k]()
    except (ValueError, NotImplementedError):
        mon.check("refused", True)
    else:
        mon.check("refused", False, k)

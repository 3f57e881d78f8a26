"""S01: Gaussian filtering and smoothing equal exact batch conditioning."""
import numpy as np
from probnum import filtsmooth, problems, randvars
from probnum.filtsmooth import gaussian

from pnmon import gen_ssm as G
from pnmon import refmarkov as ref
from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense

P = "S01"


def block(K, j, n):
    return K[j * n:(j + 1) * n, j * n:(j + 1) * n]


def key(s):
    return (s.kind, s.n, s.impl, s.meas_mode, s.meas_impl, len(s.ts), bool(s.ts[0] == s.t0))


def container(mon, post, rng):
    """A posterior is the sequence of its states; collected quantities are those of the states, in order."""
    states = post.states
    n = len(states)
    mon.check("length", len(post) == n == len(post.locations), f"{len(post)} {n} {len(post.locations)}")
    k = int(rng.integers(-n, n))
    mon.close("index", dense(post[k].mean), dense(states[k].mean), 0.0, f"state {k}")
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
    part = post[a:b]
    mon.check("slice-length", len(part) == b - a)
    for q in ("mean", "cov", "var", "std", "mode"):
        want = np.array([dense(getattr(rv, q)) for rv in states])
        mon.close("collected-" + q, np.asarray(getattr(states, q)), want, 0.0, q)
        if b > a:
            mon.close("sliced-" + q, np.asarray(getattr(part, q)), want[a:b], 0.0, q)
    mon.check("collected-shape", tuple(states.shape) == (n,) + states[0].shape, f"{states.shape}")


@scenario(P, "filter", quick=350)
def filt(mon, rng):
    s = G.observe(rng, G.prior(rng), int(rng.integers(1, 6)), close=True)
    mon.describe(key=key(s))
    post, info = gaussian.Kalman(s.process).filter(s.problem)
    mon.check("one-state-per-observation", len(post.states) == len(s.ts) and np.array_equal(post.locations, s.ts))
    mon.check("one-info-per-observation", len(info) == len(s.ts))
    container(mon, post, rng)
    for k in range(len(s.ts)):
        m, K = G.batch(s, s.ts[:k + 1], upto=k + 1)
        mon.close("filter-mean", dense(post.states[k].mean), m[k], s.tol, f"{key(s)} k={k}")
        mon.close("filter-cov", dense(post.states[k].cov), block(K, k, s.n), s.tol, f"{key(s)} k={k}")
    # states are appended in order of time, and not at all once the posterior is frozen
    last = float(s.ts[-1])
    for frozen in (False, True):
        if frozen:
            post.freeze()
        for t in (last, last - 0.1) + ((last + 1.0,) if frozen else ()):
            try:
                post.append(location=t, state=post.states[-1])
                mon.check("append-refused", False, f"frozen={frozen}: location {t} after {last} accepted")
            except ValueError:
                mon.check("append-refused", True)
    mon.check("nothing-appended", len(post.states) == len(s.ts) == len(post.locations))


@scenario(P, "smoother", quick=350)
def smooth(mon, rng):
    s = G.observe(rng, G.prior(rng), int(rng.integers(1, 6)), close=True)
    mon.describe(key=key(s))
    kal = gaussian.Kalman(s.process)
    if rng.random() < 0.5:
        post, _ = kal.filtsmooth(s.problem)
    else:
        post = kal.smooth(kal.filter(s.problem)[0])
    m, K = G.batch(s, s.ts)
    mon.check("one-state-per-observation", len(post.states) == len(s.ts) and np.array_equal(post.locations, s.ts))
    for k in range(len(s.ts)):
        mon.close("smoother-mean", dense(post.states[k].mean), m[k], s.tol, f"{key(s)} k={k}")
        mon.close("smoother-cov", dense(post.states[k].cov), block(K, k, s.n), s.tol, f"{key(s)} k={k}")
    container(mon, post, rng)
    f = post.filtering_posterior
    mon.close("last-smoothed-is-filtered", dense(post.states[-1].mean), dense(f.states[-1].mean), 1e-12)
    for k in range(len(s.ts)):
        d = dense(f.states[k].cov) - dense(post.states[k].cov)
        mon.check("smoothing-shrinks", np.linalg.eigvalsh((d + d.T) / 2).min() > -1e-6, f"{key(s)} k={k}")


@scenario(P, "dense-output", quick=300)
def dense_output(mon, rng):
    """Evaluating the posterior between and after the observations conditions the process."""
    s = G.observe(rng, G.prior(rng, ("iwp", "ioup", "matern", "lti", "iwp", "tv-sde")), int(rng.integers(1, 5)))
    mon.describe(key=key(s))
    which = str(rng.choice(["smooth", "filter"]))
    kal = gaussian.Kalman(s.process)
    fpost, _ = kal.filter(s.problem)
    post = kal.smooth(fpost) if which == "smooth" else fpost
    q = []
    for a, b in zip(s.ts[:-1], s.ts[1:]):
        q.append(a + (b - a) * rng.uniform(0.1, 0.9))
    q.append(s.ts[-1] + rng.uniform(0.1, 1))
    q = np.array(q + [s.ts[rng.integers(len(s.ts))]])
    q = np.sort(q)
    out = post(q)
    for j, t in enumerate(q):
        grid = sorted(set(list(s.ts) + [t]))
        idx = grid.index(t)
        if which == "smooth":
            m, K = G.batch(s, grid)
        else:
            upto = int(np.sum(s.ts <= t))
            g2 = [x for x in grid if x <= t]
            m, K = G.batch(s, g2, upto=upto)
            idx = len(g2) - 1
        for rv, how in ((out[j], "array"), (post(float(t)), "scalar")):
            mon.close("dense-mean", dense(rv.mean), m[idx], s.tol, f"{which} {how} {key(s)} t={t}")
            mon.close("dense-cov", dense(rv.cov), block(K, idx, s.n), s.tol, f"{which} {how} {key(s)} t={t}")
    if len(s.ts) > 1:
        for bad in (lambda: post(q[::-1]) if len(set(q)) > 1 else None,):
            try:
                bad()
                mon.check("unsorted-refused", False, "unsorted query accepted")
            except ValueError:
                mon.check("unsorted-refused", True)
                mon.reject("unsorted")


@scenario(P, "functional-interface", quick=120)
def functional(mon, rng):
    n, N = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    pm = str(rng.choice(["continuous", "discrete"]))
    s = G.SSM()
    s.n, s.kind, s.impl, s.tol = n, pm, ("classic", "classic"), 1e-6
    s.m0, s.C0 = rng.standard_normal(n), ref.spd(rng, n)
    s.t0 = float(rng.uniform(-1, 1))
    F, L = ref.stable_drift(rng, n) * 0.6, ref.spd(rng, n)
    s.step = (lambda a, b: ref.van_loan(F, L, b - a)) if pm == "continuous" else (lambda a, b: (F, L, np.zeros(n)))
    s.ts = s.t0 + np.concatenate([[0], np.cumsum(rng.uniform(0.1, 1, N - 1))])
    m = int(rng.integers(1, n + 1))
    H, R = rng.standard_normal((m, n)), ref.spd(rng, m)
    s.H, s.R, s.c = [H] * N, [R] * N, [np.zeros(m)] * N
    s.ys = rng.standard_normal((N, m))
    s.meas_mode, s.meas_impl = "shared", ""
    mon.describe(n=n, N=N, pm=pm)
    kw = dict(observations=s.ys, locations=s.ts, F=F, L=L, H=H, R=R, m0=s.m0, C0=s.C0, prior_model=pm)
    fp, sp = filtsmooth.filter_kalman(**kw), filtsmooth.smooth_rts(**kw)
    ms, Ks = G.batch(s, s.ts)
    for k in range(N):
        mf, Kf = G.batch(s, s.ts[:k + 1], upto=k + 1)
        mon.close("filter-mean", fp.states[k].mean, mf[k], 1e-6, pm)
        mon.close("filter-cov", fp.states[k].cov, block(Kf, k, n), 1e-6, pm)
        mon.close("smoother-mean", sp.states[k].mean, ms[k], 1e-6, pm)
        mon.close("smoother-cov", sp.states[k].cov, block(Ks, k, n), 1e-6, pm)


@scenario(P, "merged-problems", quick=120)
def merged(mon, rng):
    """Merging two data sets and filtering equals filtering all data."""
    s = G.observe(rng, G.prior(rng, ("iwp", "lti", "ioup")), int(rng.integers(2, 7)), same_model="per-time")
    mask = rng.random(len(s.ts)) < 0.5
    if mask.all() or not mask.any():
        mask[0] = not mask[0]
    mon.describe(key=key(s), mask=mask.tolist())
    mods = np.empty(len(s.ts), dtype=object)
    mods[:] = s.problem.measurement_models
    sol = rng.standard_normal((len(s.ts), 2))
    mk = lambda m: problems.TimeSeriesRegressionProblem(
        locations=s.ts[m], observations=s.ys[m], measurement_models=list(mods[m]), solution=sol[m])
    p = filtsmooth.utils.merge_regression_problems(mk(mask), mk(~mask))
    mon.close("merged-locations", p.locations, s.ts, 0.0)
    mon.close("merged-data", p.observations, s.ys, 0.0)
    mon.close("merged-solution", p.solution, sol, 0.0)
    mon.check("merged-models", all(a is b for a, b in zip(p.measurement_models, mods)), "models permuted")
    post, _ = gaussian.Kalman(s.process).filtsmooth(p)
    m, K = G.batch(s, s.ts)
    for k in range(len(s.ts)):
        mon.close("smoother-mean", dense(post.states[k].mean), m[k], s.tol)
        mon.close("smoother-cov", dense(post.states[k].cov), block(K, k, s.n), s.tol)
    try:
        filtsmooth.utils.merge_regression_problems(mk(mask), mk(mask))
        mon.check("shared-locations-refused", False, "accepted")
    except ValueError:
        mon.check("shared-locations-refused", True)


@scenario(P, "rejections", quick=40)
def rejections(mon, rng):
    s = G.observe(rng, G.prior(rng, ("iwp", "lti")), int(rng.integers(2, 6)), same_model="shared")
    mon.describe(key=key(s))
    for ts in (s.ts[::-1], np.concatenate([s.ts[:1], s.ts[:1], s.ts[2:]])):
        p = problems.TimeSeriesRegressionProblem(locations=ts, observations=s.ys, measurement_models=s.problem.measurement_models)
        try:
            gaussian.Kalman(s.process).filter(p)
            mon.check("unsorted-or-repeated-refused", False, "accepted")
        except ValueError:
            mon.check("unsorted-or-repeated-refused", True)
            mon.reject("unsorted")
    post, _ = gaussian.Kalman(s.process).filter(s.problem)
    try:
        post.append(s.ts[-1], post.states[-1])
        mon.check("append-must-ascend", False, "accepted")
    except ValueError:
        mon.check("append-must-ascend", True)
    post.freeze()
    try:
        post.append(s.ts[-1] + 1, post.states[-1])
        mon.check("frozen-posterior-immutable", False, "accepted")
    except ValueError:
        mon.check("frozen-posterior-immutable", True)
    try:
        problems.TimeSeriesRegressionProblem(locations=s.ts[1:], observations=s.ys, measurement_models=s.problem.measurement_models)
        mon.check("length-mismatch-refused", False, "accepted")
    except ValueError:
        mon.check("length-mismatch-refused", True)

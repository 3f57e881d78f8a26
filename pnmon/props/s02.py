"""S02: prior and posterior path samples have the joint law of the process."""
import numpy as np
from probnum import randvars
from probnum.filtsmooth import gaussian
from probnum.randprocs import markov
from probnum.randprocs.markov import continuous

from pnmon import gen_ssm as G
from pnmon import refmarkov as ref
from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense
from pnmon.props.r02 import moments_of_samples
from pnmon.props.s01 import block, key

P = "S02"
CONT = ("iwp", "ioup", "matern", "lti")


def affine(f, shape):
    """The affine map Z -> f(Z): offset and matrix, by probing with unit vectors."""
    o = np.asarray(f(np.zeros(shape)), dtype=float)
    size = int(np.prod(shape))
    M = np.empty((o.size, size))
    for j in range(size):
        z = np.zeros(size)
        z[j] = 1.0
        M[:, j] = (np.asarray(f(z.reshape(shape))) - o).ravel()
    return o, M


@scenario(P, "prior-base-measure", quick=150)
def prior_map(mon, rng):
    s = G.prior(rng, CONT + ("discrete", "tv-discrete"))
    N = int(rng.integers(1, 5))
    ts = s.t0 + np.concatenate([[0.0], np.cumsum(rng.uniform(0.1, 0.8, N - 1))])
    diffs = rng.uniform(0.3, 3, max(N - 1, 1)) if rng.random() < 0.5 else np.ones(max(N - 1, 1))
    mon.describe(kind=s.kind, n=s.n, impl=s.impl, N=N, diffs=diffs)
    tr = s.process.transition
    f = lambda Z: np.array(tr.jointly_transform_base_measure_realization_list_forward(
        base_measure_realizations=Z, t=ts, initrv=s.process.initrv, _diffusion_list=diffs))
    o, M = affine(f, (N, s.n))
    mean, K = ref.joint([s.step(a, b, d) for a, b, d in zip(ts[:-1], ts[1:], diffs)], s.m0, s.C0)
    mon.close("prior-sample-mean", o.ravel(), mean, 1e-5, s.kind)
    mon.close("prior-sample-joint-cov", M @ M.T, K, 1e-5, f"{s.kind} {s.impl} N={N}")


@scenario(P, "prior-sample", quick=24)
def prior_sample(mon, rng):
    s = G.prior(rng, ("iwp", "ioup", "lti", "discrete", "tv-discrete"))
    N = int(rng.integers(2, 4))
    ts = s.t0 + np.concatenate([[0.0], np.cumsum(rng.uniform(0.1, 0.8, N - 1))])
    size = [(), (1,), (300,), (15, 20), (300,)][rng.integers(5)]
    mon.describe(kind=s.kind, n=s.n, impl=s.impl, N=N, size=size)
    X = s.process.sample(np.random.default_rng(int(rng.integers(1 << 31))), args=ts, size=size)
    mon.check("sample-shape", np.shape(X) == size + (N, s.n), f"{np.shape(X)} for size {size}")
    if np.prod(size) >= 300:
        mean, K = ref.joint([s.step(a, b) for a, b in zip(ts[:-1], ts[1:])], s.m0, s.C0)
        moments_of_samples(mon, np.reshape(X, (300, N * s.n)), mean, K, f"prior {s.kind}")


def posterior(rng, with_diffusion, kinds=CONT, N=None):
    s = G.prior(rng, kinds)
    N = int(rng.integers(2, 5)) if N is None else N
    s = G.observe(rng, s, N)
    if not with_diffusion:
        post, _ = gaussian.Kalman(s.process).filtsmooth(s.problem)
        return s, post, None
    d = rng.uniform(0.2, 4, N - 1)
    if rng.random() < 0.25:
        d[:] = d[0]
        dm = continuous.ConstantDiffusion()
        dm.update_in_place(float(d[0]), t=s.ts[0])
    else:
        dm = continuous.PiecewiseConstantDiffusion(t0=s.ts[0])
        for k in range(N - 1):
            dm.update_in_place(float(d[k]), t=s.ts[k + 1])

    def diff(a, b):
        mid = (a + b) / 2
        if mid < s.ts[0]:
            return 1.0
        return float(d[min(int(np.searchsorted(s.ts, mid)) - 1, N - 2)])

    states = []
    for k in range(N):
        m, K = G.batch(s, s.ts[:k + 1], upto=k + 1, diff=diff)
        states.append(randvars.Normal(m[k], block(K, k, s.n)))
    tr = s.process.transition
    fp = gaussian.FilteringPosterior(transition=tr, locations=s.ts, states=states, diffusion_model=dm)
    sm = tr.smooth_list(fp.states, s.ts, _diffusion_list=d)
    post = gaussian.SmoothingPosterior(filtering_posterior=fp, transition=tr, locations=s.ts, states=sm, diffusion_model=dm)
    return s, post, diff


def query(rng, s, left=False):
    q = []
    for a, b in zip(s.ts[:-1], s.ts[1:]):
        if rng.random() < 0.6:
            q.append(a + (b - a) * rng.uniform(0.1, 0.9))
    for _ in range(int(rng.integers(0, 3))):
        q.append(s.ts[-1] + rng.uniform(0.1, 1))
    return np.array(sorted(q))


@scenario(P, "posterior-base-measure", quick=150)
def posterior_map(mon, rng):
    wd = bool(rng.random() < 0.5)
    s, post, diff = posterior(rng, wd)
    grid = np.array(sorted(set(list(s.ts) + list(query(rng, s)))))
    mon.describe(key=key(s), diffusion=wd, grid=np.round(grid, 3))
    o, M = affine(lambda Z: post.transform_base_measure_realizations(Z, t=grid), (len(grid), s.n))
    m, K = G.batch(s, grid, diff=diff)
    mon.close("posterior-sample-mean", o, m, 1e-4, f"{key(s)}")
    mon.close("posterior-sample-joint-cov", M @ M.T, K, 1e-4, f"{key(s)} diffusion={wd}")


@scenario(P, "posterior-dense-with-diffusion", quick=150)
def posterior_dense(mon, rng):
    """Interpolation uses the diffusion of the interval it interpolates in."""
    s, post, diff = posterior(rng, True)
    q = query(rng, s)
    mon.describe(key=key(s), q=np.round(q, 3))
    for t in q:
        grid = sorted(set(list(s.ts) + [t]))
        m, K = G.batch(s, grid, diff=diff)
        j = grid.index(t)
        rv = post(float(t))
        mon.close("dense-mean", dense(rv.mean), m[j], 1e-5, f"{key(s)} t={t}")
        mon.close("dense-cov", dense(rv.cov), block(K, j, s.n), 1e-5, f"{key(s)} t={t}")
        g2 = [x for x in grid if x <= t]
        m, K = G.batch(s, g2, upto=int(np.sum(s.ts <= t)), diff=diff)
        rv = post.filtering_posterior(float(t))
        mon.close("filter-dense-mean", dense(rv.mean), m[-1], 1e-5, f"{key(s)} t={t}")
        mon.close("filter-dense-cov", dense(rv.cov), block(K, len(g2) - 1, s.n), 1e-5, f"{key(s)} t={t}")


@scenario(P, "posterior-sample", quick=40)
def posterior_sample(mon, rng):
    s, post, _ = posterior(rng, False, ("iwp", "ioup", "lti"), int(rng.integers(2, 4)))
    mode = str(rng.choice(["grid", "query", "query-unsorted"]))
    size = [(), (2,), (250,), (10, 25), (250,)][rng.integers(5)]
    mon.describe(key=key(s), mode=mode, size=size)
    r = np.random.default_rng(int(rng.integers(1 << 31)))
    if mode == "grid":
        t = s.ts
        X = post.sample(r, size=size)
    else:
        t = np.unique(np.concatenate([query(rng, s), s.ts[:1], [s.ts[-1] + 0.3]]))
        if mode == "query-unsorted":
            t = t[::-1].copy()
        X = post.sample(r, t=t, size=size)
    mon.check("sample-shape", np.shape(X) == size + (len(t), s.n), f"{np.shape(X)} for size {size}, {len(t)} times")
    if np.prod(size) >= 200:
        grid = sorted(set(list(s.ts) + list(t)))
        m, K = G.batch(s, grid)
        idx = np.array([grid.index(x) for x in t])
        rows = (idx[:, None] * s.n + np.arange(s.n)).ravel()
        moments_of_samples(mon, np.reshape(X, (250, len(t) * s.n)), m[idx].ravel(), K[np.ix_(rows, rows)],
                           f"posterior {s.kind} {mode}")


@scenario(P, "sampling-refusals", quick=20)
def refusals(mon, rng):
    s, post, _ = posterior(rng, False, ("iwp", "lti"), 3)
    mon.describe(key=key(s))
    r = np.random.default_rng(1)
    for what, f, exc in (
        ("left-extrapolation", lambda: post(s.ts[0] - 0.1), NotImplementedError),
        ("left-sampling", lambda: post.sample(r, t=np.array([s.ts[0] - 0.1])), NotImplementedError),
        ("filter-sampling", lambda: post.filtering_posterior.sample(r), NotImplementedError),
        ("missing-grid", lambda: post.transform_base_measure_realizations(np.zeros((1, s.n)), t=s.ts[:1]), ValueError),
        ("path-sampling", lambda: s.process.sample(r), NotImplementedError),
    ):
        try:
            f()
            mon.check("refused", False, what)
        except exc:
            mon.check("refused", True)
            mon.reject(what)


@scenario(P, "diffusion-models", quick=150)
def diffusions(mon, rng):
    """Diffusion models return the estimate that covers the queried time."""
    n = int(rng.integers(1, 7))
    t0 = float(rng.uniform(-1, 1))
    ts = t0 + np.concatenate([[0], np.cumsum(rng.uniform(0.1, 1, n))])
    v = rng.uniform(0.1, 5, n)
    mon.describe(n=n, v=v)
    pc = continuous.PiecewiseConstantDiffusion(t0=t0)
    cd = continuous.ConstantDiffusion()
    for k in range(n):
        pc.update_in_place(v[k], t=ts[k + 1])
        cd.update_in_place(v[k], t=ts[k + 1])
        mon.close("constant-is-running-mean", cd.diffusion, v[:k + 1].mean(), 1e-10, f"after {k + 1} updates")
    for k in range(n):
        t = float(ts[k] + (ts[k + 1] - ts[k]) * rng.uniform(0.05, 0.95))
        mon.close("piecewise-scalar", pc(t), v[k], 1e-12, f"interval {k}")
        mon.close("piecewise-right-end", pc(float(ts[k + 1])), v[k], 1e-12, f"right end of {k}")
        mon.close("piecewise-index", pc[k], v[k], 1e-12)
        mon.close("constant-call", cd(t), v.mean(), 1e-10)
    mon.close("piecewise-before", pc(t0 - 1.0), v[0], 1e-12)
    mon.close("piecewise-start", pc(t0), v[0], 1e-12, "at the left end of the domain")
    mon.close("piecewise-after", pc(float(ts[-1] + 1)), v[-1], 1e-12)
    q = np.sort(rng.uniform(t0 - 0.5, ts[-1] + 0.5, 6))
    want = v[np.clip(np.searchsorted(ts, q) - 1, 0, n - 1)]
    mon.close("piecewise-array", pc(q), want, 1e-12)
    m = int(rng.integers(1, 4))
    C = ref.spd(rng, m)
    mu = rng.standard_normal(m)
    C2 = ref.spd(rng, m)
    z, z2 = randvars.Normal(mu, C), randvars.Normal(mu, C2)
    mon.close("local-quasi-mle", cd.estimate_locally(z, z2, t=0.0), mu @ np.linalg.solve(C, mu) / m, 1e-7)
    mon.close("local-quasi-mle", pc.estimate_locally(z, z2, t=ts[-1] + 1), mu @ np.linalg.solve(C2, mu) / m, 1e-7)

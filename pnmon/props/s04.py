"""S04: particle filtering is sequential importance sampling of the state-space model."""
import numpy as np
from probnum import problems, randvars
from probnum.filtsmooth import particle
from probnum.randprocs.markov import MarkovProcess, MarkovSequence, continuous, discrete

from pnmon import gen_ssm as G
from pnmon import refmarkov as ref
from pnmon.core import scenario
from pnmon.gen_rv import dense
from pnmon.props.s03 import Model, statistical_linearisation

P = "S04"


def logpdf(x, m, C):
    d = x - m
    return -0.5 * (d @ np.linalg.solve(C, d) + np.linalg.slogdet(C)[1] + len(m) * np.log(2 * np.pi))


class RecordedNormal(randvars.Normal):
    """A normal that reports the samples drawn from it."""

    def watch(self, log):
        self._log = log
        return self

    def sample(self, rng, size=()):
        x = super().sample(rng, size)
        self._log.append(np.array(x, copy=True))
        return x


class Watched(particle.ImportanceDistribution):
    """Passes every call on to the real importance distribution and records it."""

    def __init__(self, real):
        super().__init__(real.dynamics_model)
        self.real, self.log = real, []

    def _rec(self, rv, ev):
        ev["q"] = (dense(rv.mean), dense(rv.cov))
        ev["draws"] = []
        self.log.append(ev)
        return RecordedNormal(dense(rv.mean), dense(rv.cov)).watch(ev["draws"])

    def generate_importance_rv(self, particle, data, t, dt=None, measurement_model=None):
        out = self.real.generate_importance_rv(particle, data, t, dt, measurement_model=measurement_model)
        ev = dict(kind="step", particle=np.array(particle, copy=True), data=data, t=t, dt=dt)
        return (self._rec(out[0], ev),) + tuple(out[1:])

    def process_initrv_with_data(self, initrv, data, t, measurement_model=None):
        out = self.real.process_initrv_with_data(initrv, data, t, measurement_model=measurement_model)
        ev = dict(kind="init", data=data, t=t)
        return (self._rec(out[0], ev),) + tuple(out[1:])

    def log_correction_factor(self, *args, **kw):
        return self.real.log_correction_factor(*args, **kw)


def setup(rng, N):
    n, m = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    t0 = float(rng.choice([0.0, 1.7]))
    ts = G.times(rng, N, t0)
    m0, C0 = rng.standard_normal(n), ref.spd(rng, n)
    kind = str(rng.choice(["linear", "nonlinear", "lti-sde"]))
    if kind == "nonlinear":
        dyn = Model(rng, n, n, 0.5)
        proc = MarkovSequence(transition=dyn.pn, initrv=randvars.Normal(m0, C0), initarg=t0)
        law = lambda x, a, b: (dyn.g(a, x) + dyn.c(a), dyn.R(a))
    elif kind == "linear":
        A, Q, u = rng.standard_normal((n, n)), ref.spd(rng, n), rng.standard_normal(n)
        proc = MarkovSequence(transition=discrete.LTIGaussian(transition_matrix=A, noise=randvars.Normal(u, Q)),
                              initrv=randvars.Normal(m0, C0), initarg=t0)
        law = lambda x, a, b: (A @ x + u, Q)
    else:
        F, L, u = ref.stable_drift(rng, n) * 0.6, np.linalg.cholesky(ref.spd(rng, n)), rng.standard_normal(n)
        proc = MarkovProcess(initarg=t0, initrv=randvars.Normal(m0, C0), transition=continuous.LTISDE(F, u, L))

        def law(x, a, b):
            A, Q, s = ref.van_loan(F, L, b - a, 1.0, u)
            return A @ x + s, Q
    meas = Model(rng, n, m, 0.5)
    return n, m, t0, ts, m0, C0, kind, proc, law, meas


@scenario(P, "trace", quick=160)
def trace(mon, rng):
    N = int(rng.integers(1, 5))
    n, m, t0, ts, m0, C0, kind, proc, law, meas = setup(rng, N)
    extreme = str(rng.choice(["typical", "typical", "outlier", "absurd"]))
    scale = {"typical": 1.0, "outlier": 8.0, "absurd": 300.0}[extreme]
    ys = rng.standard_normal((N, m)) * scale
    num = int(rng.choice([1, 2, 7, 30]))
    imp = str(rng.choice(["bootstrap", "ekf", "ukf"]))
    resample, thr = bool(rng.random() < 0.7), float(rng.choice([0.1, 0.5, 0.9, 1.1]))
    mon.describe(n=n, m=m, N=N, kind=kind, data=extreme, particles=num, importance=imp, resampling=resample, threshold=thr,
                 first=bool(ts[0] == t0))
    real = {"bootstrap": particle.BootstrapImportanceDistribution,
            "ekf": particle.LinearizationImportanceDistribution.from_ekf,
            "ukf": particle.LinearizationImportanceDistribution.from_ukf}[imp](proc.transition)
    w = Watched(real)
    pf = particle.ParticleFilter(proc, importance_distribution=w, num_particles=num,
                                 rng=np.random.default_rng(int(rng.integers(1 << 31))),
                                 with_resampling=resample, resampling_percentage_threshold=thr)
    prob = problems.TimeSeriesRegressionProblem(locations=ts, observations=ys, measurement_models=[meas.pn] * N)
    post, info = pf.filter(prob)
    mon.check("one-state-per-observation", len(post.states) == N and np.array_equal(post.locations, ts) and len(info) == N)
    st = post.states
    for q in ("support", "probabilities", "mode"):
        mon.close("collected-" + q, np.asarray(getattr(st, q)), np.array([np.asarray(getattr(rv, q)) for rv in st]), 0.0, q)
    if not np.any(np.isnan(np.asarray(st.probabilities))):
        new = st.resample(rng=np.random.default_rng(3))
        mon.check("resampled-all", len(new) == N)
        for a, b in zip(st, new):
            mon.close("resampled-uniform", np.asarray(b.probabilities), np.full(num, 1 / num), 1e-12)
            p = np.asarray(a.probabilities)
            old = np.asarray(a.support).reshape(num, -1)[p > 0]
            mon.check("resampled-from-support", all(np.any(np.all(old == x, axis=1)) for x in np.asarray(b.support).reshape(num, -1)))
    mon.event("proposals", sum(len(e["draws"]) for e in w.log))
    log = list(w.log)
    prev_p, prev_w = None, np.full(num, 1 / num)
    for k in range(N):
        rv = post.states[k]
        S, p = np.asarray(rv.support), np.asarray(rv.probabilities)
        mon.check("weights-normalised", np.all(np.isfinite(p)) and np.all(p >= 0) and abs(p.sum() - 1) < 1e-9,
                  f"weights {p} at step {k} ({extreme} data)")
        mon.check("particle-shape", S.shape == (num, n), f"{S.shape}")
        mon.check("particles-finite", np.all(np.isfinite(S)))
        a = t0 if k == 0 else ts[k - 1]
        if k == 0 and ts[0] == t0:
            evs = [log.pop(0)]
            mon.check("initial-proposal", evs[0]["kind"] == "init" and evs[0]["t"] == t0 and np.array_equal(evs[0]["data"], ys[0]))
            draws = evs[0]["draws"]
            qs = [evs[0]["q"]] * num
            priors = [(m0, C0)] * num
        else:
            evs, log = log[:num], log[num:]
            mon.check("proposal-context", all(e["kind"] == "step" and e["t"] == a and abs(e["dt"] - (ts[k] - a)) < 1e-12
                                              and np.array_equal(e["data"], ys[k]) for e in evs), f"step {k}")
            if prev_p is not None:
                mon.check("continues-from-posterior", np.array_equal(np.stack([e["particle"] for e in evs]), prev_p),
                          f"step {k}: proposals do not start from the particles of step {k - 1} (resampling {resample}, {thr})")
            draws = [e["draws"][0] for e in evs]
            qs = [e["q"] for e in evs]
            priors = [law(e["particle"], a, ts[k]) for e in evs]
        mon.check("one-draw-per-particle", len(draws) == num, f"{len(draws)}")
        X = np.stack(draws)
        # the proposal distributions are what they claim to be
        for (qm, qC), (pm, pC) in list(zip(qs, priors))[:3]:
            if imp == "bootstrap":
                wm, wC = pm, pC
            else:
                H, c, R = meas.ekf(ts[k], pm) if imp == "ekf" else statistical_linearisation(meas, ts[k], pm, pC)
                wm, wC, _ = ref.backward(pm, pC, H, c, R, ys[k], np.zeros((m, m)))
            mon.close("proposal-mean", qm, wm, 1e-6, imp)
            mon.close("proposal-cov", qC, wC, 1e-6, imp)
        # importance weights
        ll = np.array([logpdf(ys[k], meas.g(ts[k], x) + meas.c(ts[k]), meas.R(ts[k]))
                       + logpdf(x, *priors[i]) - logpdf(x, *qs[i]) for i, x in enumerate(X)])
        cand = []
        for floor in (0.0, 1e-14):
            l = ll + np.log(prev_w + floor)
            v = np.exp(l - l.max())
            cand.append(v / v.sum())
        want = cand[0]
        ess = [1 / np.sum(c**2) for c in cand]
        lim = thr * num
        sure = all(abs(e - lim) > 1e-6 * num for e in ess) and (ess[0] < lim) == (ess[1] < lim)
        if sure and (not resample or ess[0] >= lim):
            mon.check("particles-are-proposals", np.array_equal(S, X), f"step {k}")
            mon.check("weights", min(np.max(np.abs(p - c)) for c in cand) < 1e-7, f"step {k}: {p} expected {want} ({imp}, {extreme})")
        elif sure:
            mon.event("resampled")
            mon.check("resampled-uniform", np.allclose(p, 1 / num, atol=1e-12), f"{p}")
            rows = {x.tobytes(): i for i, x in enumerate(X)}
            idx = [rows.get(s.tobytes()) for s in S]
            mon.check("resampled-from-proposals", all(i is not None for i in idx), f"step {k}")
            if all(i is not None for i in idx):
                # nobody is drawn against (almost) impossible odds
                c = np.bincount(idx, minlength=num)
                top = max(cand, key=lambda q: 1)  # exact weights
                lo = [i for i in range(num) if max(q[i] for q in cand) < 1e-9 and c[i] > 0]
                mon.check("resampled-by-weight", not lo, f"particles {lo} with negligible weight survived")
                z = (c - num * top) / np.sqrt(np.maximum(num * top * (1 - top), 1e-3) + 1)
                mon.check("resampled-by-weight", np.all(np.abs(z) < 7), f"counts {c} weights {top}")
        prev_p, prev_w = S, p


@scenario(P, "converges-to-exact-posterior", quick=12, thorough=120)
def convergence(mon, rng):
    """Averages over many particles approach the exact conditional law of a linear model."""
    s = G.observe(rng, G.prior(rng, ("discrete", "lti", "tv-discrete")), int(rng.integers(2, 5)), same_model="per-time")
    imp = str(rng.choice(["bootstrap", "ekf"]))
    thr = float(rng.choice([0.3, 1.1]))
    num = 400
    mon.describe(kind=s.kind, n=s.n, N=len(s.ts), importance=imp, threshold=thr)
    real = (particle.BootstrapImportanceDistribution(s.process.transition) if imp == "bootstrap"
            else particle.LinearizationImportanceDistribution.from_ekf(s.process.transition))
    pf = particle.ParticleFilter(s.process, importance_distribution=real, num_particles=num,
                                 rng=np.random.default_rng(int(rng.integers(1 << 31))),
                                 resampling_percentage_threshold=thr)
    post, _ = pf.filter(s.problem)
    mon.event("particles", num * len(s.ts))
    for k in range(len(s.ts)):
        m, K = G.batch(s, s.ts[:k + 1], upto=k + 1)
        C = K[k * s.n:(k + 1) * s.n, k * s.n:(k + 1) * s.n]
        S, p = np.asarray(post.states[k].support), np.asarray(post.states[k].probabilities)
        sd = np.sqrt(np.diag(C))
        uniq = len(np.unique(S, axis=0))
        ess = min(1 / np.sum(p**2), uniq)
        if ess < 60:
            mon.event("too-degenerate-to-judge")
            continue
        z = (p @ S - m[k]) / (sd / np.sqrt(ess))
        mon.check("posterior-mean", np.all(np.abs(z) < 12), f"{imp} step {k}: deviation {z} standard errors (ess {ess:.0f})")
        V = (p[:, None] * (S - p @ S)).T @ (S - p @ S)
        r = np.diag(V) / np.diag(C)
        mon.check("posterior-variance", np.all(np.abs(r - 1) < 12 * np.sqrt(2 / ess) + 0.05), f"{imp} step {k}: variance ratio {r}")


@scenario(P, "effective-number", quick=100)
def effective(mon, rng):
    n = int(rng.integers(1, 20))
    p = rng.random(n) ** rng.integers(1, 6)
    p /= p.sum()
    mon.describe(n=n, p=p.round(4).tolist())
    rv = randvars.Categorical(probabilities=p, support=rng.standard_normal((n, 2)))
    e = particle.effective_number_of_events(rv)
    mon.close("effective-number", e, 1 / np.sum(p**2), 1e-12)
    mon.check("effective-number-range", 1 - 1e-9 <= e <= n + 1e-9)
    r = rv.resample(np.random.default_rng(int(rng.integers(1 << 31))))
    mon.close("resampled-probabilities", r.probabilities, np.full(n, 1 / n), 1e-12)
    mon.check("resampled-support", all(any(np.array_equal(x, y) for y in rv.support) for x in r.support))


@scenario(P, "refusals", quick=20)
def refusals(mon, rng):
    n, m, t0, ts, m0, C0, kind, proc, law, meas = setup(rng, 3)
    mon.describe(kind=kind, t=ts.round(3).tolist())
    imp = particle.BootstrapImportanceDistribution(proc.transition)
    pf = particle.ParticleFilter(proc, importance_distribution=imp, num_particles=3, rng=np.random.default_rng(1))
    bad = ts[[0, 0, 1]]
    prob = problems.TimeSeriesRegressionProblem(locations=bad, observations=np.zeros((3, m)), measurement_models=[meas.pn] * 3)
    try:
        pf.filter(prob)
        mon.check("repeated-refused", False, "repeated locations accepted")
    except ValueError:
        mon.check("repeated-refused", True)

"""G01: calls have no side effects: arguments, global state and other calls stay untouched."""
import importlib
import os
import sys
import threading
import warnings

import numpy as np

from pnmon import core, sanitizer
from pnmon.core import CaseAborted, Monitor, Skip, case_rng, scenario

INSTRUMENTED = sanitizer.instrument()

from probnum import config  # noqa: E402  pylint: disable=wrong-import-position

P = "G01"
SOURCES = ("l01", "l02", "r01", "r02", "r03", "m01", "m02", "s01", "s02", "s03", "s04", "k01", "f01",
           "d01", "d02", "d03", "a01", "a02", "q01", "q02", "u01", "z01", "z02")
OPTS = ("covariance_inversion_damping", "matrix_free", "lazy_matrix_matrix_matmul")
_POOL = None


def pool():
    """All scenarios of the other properties: their workloads drive the sanitizer."""
    global _POOL
    if _POOL is None:
        for s in SOURCES:
            importlib.import_module("pnmon.props." + s)
        _POOL = [(p, s) for p in sorted(core.REGISTRY) if p != P for s in core.REGISTRY[p] if s.quick >= 20]  # the long ones are no use here
    return _POOL


def keops(p, s):
    return "keops" in s.name


def global_state():
    st = np.random.get_state()
    return {
        "numpy.random": (st[0], st[1].tobytes(), st[2:]),
        "config": tuple(getattr(config, o) for o in OPTS),
        "errstate": tuple(sorted(np.geterr().items())),
        "warning filters": tuple(map(str, warnings.filters)),
        "print options": str(sorted(np.get_printoptions().items(), key=str)),
        "cwd": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "recursion limit": sys.getrecursionlimit(),
    }


def run(p, s, seed, index, watch_global=True):
    """One case of another property under the sanitizer; its own verdicts are ignored here."""
    rec = sanitizer.Recorder()
    inner = Monitor(p)
    inner.begin(s.name, index)
    outcome = "returned"
    before = global_state() if watch_global else None
    sanitizer.TLS.rec = rec
    try:
        s.fn(inner, case_rng(seed, p, s.name, index))
    except (CaseAborted, Skip) as e:
        outcome = type(e).__name__
    except Exception as e:  # pylint: disable=broad-except
        outcome = type(e).__name__
    finally:
        sanitizer.TLS.rec = None
    changed = []
    if watch_global:
        after = global_state()
        changed = [k for k in before if before[k] != after[k]]
    return rec, outcome, changed


def same(a, b):
    """First difference between two traces, or None."""
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} calls"
    for (na, va), (nb, vb) in zip(a, b):
        if na != nb:
            return f"call {na} and call {nb}"
        if va.shape != vb.shape:
            return f"{na}: {va.shape} and {vb.shape} numbers"
        if va.tobytes() == vb.tobytes():
            continue
        with np.errstate(all="ignore"):
            x, y = np.asarray(va), np.asarray(vb)
            if x.dtype == bool or y.dtype == bool:
                return f"{na}: {x[:5]} and {y[:5]}"
            if not np.array_equal(np.isfinite(x), np.isfinite(y)):
                return f"{na}: {x[:5]} and {y[:5]}"
            f = np.isfinite(x)
            sc = np.abs(x[f]).max() if f.any() else 0.0
            if f.any() and np.abs(x[f] - y[f]).max() > 1e-7 * (1e-12 + sc):
                return f"{na}: {x[:5]} and {y[:5]}"
    return None


def report(mon, rec, what):
    mon.event("calls", rec.calls)
    mon.event("arrays watched", rec.arrays)
    for n in rec.names:
        mon.event("fn:" + n)
    mon.check("arguments-untouched", not rec.mutations, f"{what}: " + "; ".join(f"{n} changed an argument: {d}" for n, d in rec.mutations[:3]))


def pick(rng, ok=lambda p, s: True):
    cand = [c for c in pool() if ok(*c)]
    props = sorted({p for p, _ in cand})
    p = props[int(rng.integers(len(props)))]
    ss = [s for q, s in cand if q == p]
    s = ss[int(rng.integers(len(ss)))]
    return p, s, int(rng.integers(2**31)), int(rng.integers(s.quick))


@scenario(P, "repeat", quick=700, thorough=12000)
def repeat(mon, rng):
    """The same calls give the same results before and after unrelated work."""
    p, s, seed, i = pick(rng, lambda p, s: not keops(p, s))
    mon.describe(workload=f"{p}/{s.name}", seed=seed, index=i)
    rec, out, changed = run(p, s, seed, i)
    report(mon, rec, f"{p}/{s.name}")
    mon.check("global-state-untouched", not changed, f"{p}/{s.name} changed {changed}")
    q, s2, seed2, i2 = pick(rng, lambda p, s: not keops(p, s))
    other, _, changed = run(q, s2, seed2, i2)
    report(mon, other, f"{q}/{s2.name}")
    mon.check("global-state-untouched", not changed, f"{q}/{s2.name} changed {changed}")
    again, out2, _ = run(p, s, seed, i)
    mon.check("same-outcome", out == out2, f"{p}/{s.name}: {out}, later {out2}")
    diff = same(rec.trace, again.trace)
    mon.check("same-results", diff is None, f"{p}/{s.name} after {q}/{s2.name}: {diff}")
    mon.event("outcome:" + out)


CONFIGURED = ("matrix-free", "suitesparse", "matrix_free")


def threadable(p, s):
    return not keops(p, s) and p not in ("C01", "U01", "K01") and not any(c in s.name for c in CONFIGURED)


@scenario(P, "threads", quick=60, thorough=1200)
def threads(mon, rng):
    """Runs in concurrent threads do not influence each other."""
    k = int(rng.integers(2, 5))
    jobs = [pick(rng, threadable) for _ in range(k)]
    if rng.random() < 0.5:
        # the same code at the same time on different data
        p, s, seed, i = jobs[0]
        jobs = [(p, s, seed + j, i) for j in range(k)]
    mon.describe(workloads=[f"{p}/{s.name}" for p, s, _, _ in jobs], seed=jobs[0][2])
    alone = [run(*j) for j in jobs]
    out = [None] * k
    barrier = threading.Barrier(k)
    err = []

    def body(j):
        try:
            barrier.wait(60)
            with np.errstate(all="ignore"):
                out[j] = run(*jobs[j], watch_global=False)
        except BaseException as e:  # pylint: disable=broad-except
            err.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(j,), daemon=True) for j in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if err:
        raise err[0]
    for j, (p, s, _, _) in enumerate(jobs):
        diff = same(alone[j][0].trace, out[j][0].trace)
        what = f"{p}/{s.name} next to " + ", ".join(f"{a[0]}/{a[1].name}" for n, a in enumerate(jobs) if n != j)
        mon.check("same-outcome-in-thread", alone[j][1] == out[j][1], f"{what}: {alone[j][1]}, in a thread {out[j][1]}")
        mon.check("same-results-in-thread", diff is None, f"{what}: {diff}")
        report(mon, out[j][0], what)
    mon.event("threads", k)


class Watch:
    """Arrays handed to the library, in assorted memory layouts, with copies of what they held."""

    def __init__(self, mon, rng):
        self.mon, self.rng, self.items = mon, rng, []

    def __call__(self, x, dtype=float):
        x = np.array(x, dtype=dtype)
        k = int(self.rng.integers(4))
        if k == 1:
            x = np.asfortranarray(x)
        elif k == 2 and x.ndim:  # every second entry of a larger buffer
            buf = np.full(x.shape[:-1] + (2 * x.shape[-1],), 7, dtype=x.dtype)
            buf[..., ::2] = x
            x = buf[..., ::2]
        elif k == 3 and x.ndim > 1:  # a transposed view
            x = np.ascontiguousarray(x.T).T
        base = x if x.base is None else x.base
        self.items.append((x, base, np.array(base, copy=True)))
        self.mon.event("layout:" + ("F" if x.ndim > 1 and x.flags.f_contiguous else "C" if x.flags.c_contiguous else "strided"))
        return x

    def verify(self, what):
        for x, base, want in self.items:
            self.mon.check("arrays-untouched", np.array_equal(base, want), f"{what} changed an array of shape {x.shape} it was given")

    def attempt(self, what, fn):
        """Refusals are fine here, side effects are not."""
        try:
            out = fn()
            self.mon.event("did:" + what.split(" ")[0])
        except Exception as e:  # pylint: disable=broad-except
            self.mon.event("refused:" + type(e).__name__)
            out = None
        self.verify(what)
        return out


def spd(rng, n):
    M = rng.standard_normal((n, n))
    return M @ M.T + n * np.eye(n)


def fresh(rng):
    return np.random.default_rng(int(rng.integers(1 << 30)))


def use_linop(w, rng):
    from probnum import linops
    n = int(rng.integers(2, 5))
    k = str(rng.choice(["matrix", "spd", "triangular", "scaling", "kron", "identity-kron", "symkron", "block", "sum", "product", "inverse"]))
    w.mon.describe(use="linop", kind=k, n=n)
    general = lambda: w(rng.standard_normal((n, n)) + n * np.eye(n))
    M = linops.Matrix
    if k == "spd":
        op = M(w(spd(rng, n)))
        op.is_symmetric = True
        op.is_positive_definite = bool(rng.random() < 0.5) or None
    elif k == "triangular":
        op = M(w(np.tril(spd(rng, n))))
        op.is_lower_triangular = True
    else:
        op = {"matrix": lambda: M(general()), "scaling": lambda: linops.Scaling(w(rng.uniform(1, 2, n))),
              "kron": lambda: linops.Kronecker(general(), general()), "identity-kron": lambda: linops.IdentityKronecker(2, general()),
              "symkron": lambda: linops.SymmetricKronecker(general(), general()), "block": lambda: linops.BlockDiagonalMatrix(M(general()), M(general())),
              "sum": lambda: M(general()) + M(general()), "product": lambda: M(general()) @ M(general()),
              "inverse": lambda: M(general()).inv()}[k]()
    N = op.shape[1]
    x, X = w(rng.standard_normal(N)), w(rng.standard_normal((N, 3)))
    calls = {
        "matvec": lambda: op @ x, "matmat": lambda: op @ X, "rmatvec": lambda: x @ op, "apply": lambda: op(X, axis=0), "solve": lambda: op.solve(X),
        "inv": lambda: op.inv() @ x, "transpose": lambda: op.T @ X, "inv-transpose": lambda: op.inv().T @ X,
        "cholesky": lambda: op.cholesky(lower=bool(rng.random() < 0.5)), "symmetrize": lambda: op.symmetrize() @ x,
        "det": op.det, "logabsdet": op.logabsdet, "cond": op.cond, "eigvals": op.eigvals, "rank": op.rank, "trace": op.trace, "diagonal": op.diagonal,
        "scaled": lambda: (2.5 * op) @ x, "sum": lambda: (op + op) @ X, "product": lambda: (op @ op) @ x, "astype": lambda: op.astype(np.float32) @ x,
        "dense": op.todense, "equal": lambda: op == op.T, "entry": lambda: op[0, 1],
    }
    for name in rng.permutation(sorted(calls))[:10]:
        w.attempt(f"linop.{name} of {k}", calls[name])


def use_randvar(w, rng):
    from probnum import randvars
    n = int(rng.integers(1, 4))
    k = str(rng.choice(["vector", "matrix", "factor", "constant", "categorical"]))
    w.mon.describe(use="randvar", kind=k, n=n)
    if k == "vector":
        rv = randvars.Normal(w(rng.standard_normal(n)), w(spd(rng, n)))
    elif k == "matrix":
        rv = randvars.Normal(w(rng.standard_normal((n, 2))), w(spd(rng, 2 * n)))
    elif k == "factor":
        L = np.linalg.cholesky(spd(rng, n))
        rv = randvars.Normal(w(rng.standard_normal(n)), w(L @ L.T), cov_cholesky=w(L))
    elif k == "constant":
        rv = randvars.Constant(w(rng.standard_normal((n, 2))))
    else:
        rv = randvars.Categorical(probabilities=w(np.full(4, 0.25)), support=w(rng.standard_normal((4, n))))
    c, A, at = w(rng.standard_normal(rv.shape)), w(rng.standard_normal((2, n))), w(rng.standard_normal((3,) + rv.shape))
    calls = {
        "add": lambda: rv + c, "sub": lambda: c - rv, "neg": lambda: (-rv).cov, "mul": lambda: 2.0 * rv, "matmul": lambda: (A @ rv).cov, "self": lambda: (rv + rv).cov,
        "sample": lambda: rv.sample(fresh(rng), (2,)), "factor": lambda: rv.cov_cholesky, "pdf": lambda: rv.pdf(at), "logpdf": lambda: rv.logpdf(at), "pmf": lambda: rv.pmf(c),
        "cdf": lambda: rv.cdf(c), "index": lambda: rv[..., 0].cov, "reshape": lambda: rv.reshape((-1,)).cov, "transpose": lambda: rv.T.cov,
        "std": lambda: rv.std, "entropy": lambda: rv.entropy, "mode": lambda: rv.mode, "resample": lambda: rv.resample(fresh(rng)), "in_support": lambda: rv.in_support(c),
        "damped": lambda: rv.compute_cov_cholesky(1e-6) if hasattr(rv, "compute_cov_cholesky") else rv.precompute_cov_cholesky(1e-6),
    }
    for name in rng.permutation(sorted(calls))[:10]:
        w.attempt(f"randvar.{name} of {k}", calls[name])
    # what was drawn belongs to the caller
    seed = int(rng.integers(1 << 30))
    size = [(), (2,)][int(rng.integers(2))]
    first = np.asarray(rv.sample(np.random.default_rng(seed), size))
    keep = first.copy()
    if first.ndim and first.flags.writeable:
        first += 1.0
    w.mon.check("samples-are-private", np.array_equal(np.asarray(rv.sample(np.random.default_rng(seed), size)), keep), f"writing to a sample changed the variable ({k})")
    w.verify(f"writing to a sample of {k}")


def use_markov(w, rng):
    from probnum import filtsmooth, problems, randprocs, randvars
    disc = randprocs.markov.discrete
    n = int(rng.integers(1, 4))
    impl = lambda: str(rng.choice(["classic", "sqrt"]))
    A = w(rng.standard_normal((n, n)) / n)
    tr = disc.LTIGaussian(transition_matrix=A, noise=randvars.Normal(w(rng.standard_normal(n)), w(spd(rng, n))), forward_implementation=impl(),
                          backward_implementation=str(rng.choice(["classic", "sqrt", "joseph"])))
    rv = randvars.Normal(w(rng.standard_normal(n)), w(spd(rng, n)))
    ob = randvars.Normal(w(rng.standard_normal(n)), w(0.1 * spd(rng, n)))
    x = w(rng.standard_normal(n))
    out = w.attempt("markov.forward_rv", lambda: tr.forward_rv(rv, t=0.0, compute_gain=True))
    w.attempt("markov.forward_realization", lambda: tr.forward_realization(x, t=0.0))
    w.attempt("markov.backward_rv", lambda: tr.backward_rv(ob, rv, t=0.0))
    if out is not None:
        w.attempt("markov.backward_rv-gain", lambda: tr.backward_rv(ob, rv, rv_forwarded=out[0], gain=out[1]["gain"], t=0.0))
    w.attempt("markov.backward_realization", lambda: tr.backward_realization(x, rv, t=0.0))
    q = int(rng.integers(1, 3))
    prior = randprocs.markov.integrator.IntegratedWienerProcess(initarg=0.0, num_derivatives=q, wiener_process_dimension=1, forward_implementation=impl(),
                                                                 backward_implementation=impl())
    H, ts, ys = w(np.eye(1, q + 1)), w(np.cumsum(rng.uniform(0.1, 0.5, 5))), w(rng.standard_normal((5, 1)))
    mm = disc.LTIGaussian(transition_matrix=H, noise=randvars.Normal(w(np.zeros(1)), w(0.1 * np.eye(1))), forward_implementation=impl(), backward_implementation=impl())
    prob = problems.TimeSeriesRegressionProblem(observations=ys, locations=ts, measurement_models=[mm] * 5)
    kal = filtsmooth.gaussian.Kalman(prior)
    post = w.attempt("markov.filtsmooth", lambda: kal.filtsmooth(prob)[0])
    if post is not None:
        tt = w(np.sort(rng.uniform(0.1, 3.0, 4)))
        w.attempt("markov.dense", lambda: post(tt))
        w.attempt("markov.sample", lambda: post.sample(fresh(rng), t=tt, size=2))
        z = w(rng.standard_normal((5, q + 1)))
        w.attempt("markov.transform", lambda: post.transform_base_measure_realizations(z, t=ts))
        w.attempt("markov.prior-sample", lambda: prior.sample(fresh(rng), args=tt, size=2))


def use_solver(w, rng):
    from probnum import diffeq, linalg, quad
    from probnum.randprocs import covfuncs
    k = str(rng.choice(["linear", "ode", "perturbed", "quad", "kernel"]))
    n = int(rng.integers(2, 5))
    w.mon.describe(use="solver", kind=k, n=n)
    if k == "linear":
        A, b, x0 = w(spd(rng, n)), w(rng.standard_normal((n, 1)) if rng.random() < 0.5 else rng.standard_normal(n)), w(rng.standard_normal(n))
        w.attempt("solver.problinsolve", lambda: linalg.problinsolve(A, b, x0=x0 if rng.random() < 0.5 else None))
    elif k in ("ode", "perturbed"):
        J, y0 = w(rng.standard_normal((n, n)) - np.eye(n)), w(rng.standard_normal(n))
        stops = w(np.array([0.21, 0.4]))
        f, df = (lambda t, y: J @ y), (lambda t, y: J)
        if k == "ode":
            sol = w.attempt("solver.probsolve_ivp", lambda: diffeq.probsolve_ivp(f, 0.0, 0.5, y0, df=df, algo_order=int(rng.integers(1, 4)), adaptive=False, step=0.1,
                                                                                  time_stops=stops, method=str(rng.choice(["EK0", "EK1"]))))
        else:
            sol = w.attempt("solver.perturbsolve_ivp", lambda: diffeq.perturbsolve_ivp(f, 0.0, 0.5, y0, rng=fresh(rng), adaptive=False, step=0.1, time_stops=stops))
        if sol is not None:
            tt = w(np.array([0.05, 0.3, 0.5]))
            w.attempt("solver.dense-output", lambda: sol(tt))
    elif k == "quad":
        nodes, vals, dom = w(rng.uniform(0, 1, (6, 2))), w(rng.standard_normal(6)), (w(np.zeros(2)), w(np.ones(2)))
        w.attempt("solver.bayesquad_from_data", lambda: quad.bayesquad_from_data(nodes=nodes, fun_evals=vals, domain=dom))
        w.attempt("solver.bayesquad", lambda: quad.bayesquad(fun=lambda x: np.sum(x, axis=1), input_dim=2, domain=dom, options={"max_evals": 5}, rng=fresh(rng)))
        mean, cov = w(rng.standard_normal(2)), w(spd(rng, 2))
        m = w.attempt("solver.gaussian-measure", lambda: quad.integration_measures.GaussianMeasure(mean=mean, cov=cov))
        if m is not None:
            w.attempt("solver.gaussian-measure-density", lambda: m(nodes))
            w.attempt("solver.gaussian-measure-sample", lambda: m.sample(4, rng=fresh(rng)))
    else:
        X0, X1, ls = w(rng.standard_normal((4, 2))), w(rng.standard_normal((5, 2))), w(rng.uniform(0.5, 1, 2))
        ker = [lambda: covfuncs.ExpQuad(input_shape=(2,), lengthscales=ls), lambda: covfuncs.Matern(input_shape=(2,), nu=2.5, lengthscales=ls),
               lambda: covfuncs.Linear(input_shape=(2,)), lambda: covfuncs.WhiteNoise(input_shape=(2,)), lambda: covfuncs.ProductMatern(input_shape=(2,), lengthscales=1.0, nus=1.5)][int(rng.integers(5))]()
        w.attempt("solver.kernel-matrix", lambda: ker.matrix(X0, X1))
        w.attempt("solver.kernel-gram", lambda: ker.matrix(X0))
        w.attempt("solver.kernel-call", lambda: (2.0 * ker + ker * ker)(X0, None))


@scenario(P, "array-layouts", quick=500, thorough=12000)
def array_layouts(mon, rng):
    """Whatever is built from arrays never writes to them, in whichever memory layout they come."""
    use = [use_linop, use_linop, use_randvar, use_markov, use_solver][int(rng.integers(5))]
    mon.describe(use=use.__name__)
    w = Watch(mon, rng)
    before = global_state()
    use(w, rng)
    after = global_state()
    mon.check("global-state-untouched", all(before[k] == after[k] for k in before), f"{use.__name__} changed {[k for k in before if before[k] != after[k]]}")

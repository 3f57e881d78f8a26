"""C01: configuration scopes are exact, and options change representations, not results."""
import warnings

import numpy as np
import probnum
from probnum import config, filtsmooth, linops, problems, randprocs, randvars

from pnmon import gen_linops as G
from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense, spd

P = "C01"
OPTS = ("covariance_inversion_damping", "matrix_free", "lazy_matrix_matrix_matmul")


class Boom(Exception):
    pass


def snapshot(conf, keys):
    return {k: getattr(conf, k) for k in keys}


def walk(mon, rng, conf, model, depth, log):
    """Random nested use of the configuration, against a dictionary with scopes."""
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(["get", "set", "scope", "scope", "raise", "unknown-get", "unknown-set", "unknown-scope", "register", "again", "decorate"]))
        log.append(op)
        keys = list(model)
        if op == "get":
            k = str(rng.choice(keys))
            mon.check("get", getattr(conf, k) == model[k], f"{k}: {getattr(conf, k)} != {model[k]} after {log}")
        elif op == "set":
            k, v = str(rng.choice(keys)), int(rng.integers(1000))
            setattr(conf, k, v)
            model[k] = v
        elif op in ("scope", "raise", "decorate") and depth < 4:
            ks = [str(k) for k in rng.choice(keys, int(rng.integers(0, len(keys) + 1)), replace=False)]
            kw = {k: int(rng.integers(1000)) for k in ks}
            saved = {k: model[k] for k in ks}
            if op == "decorate":
                # a context object that is created but not entered changes nothing
                ctx = conf(**kw)
                mon.check("lazy-scope", snapshot(conf, model) == model, f"after {log}")
            else:
                ctx = conf(**kw)
            try:
                with ctx:
                    model.update(kw)
                    mon.check("inside", snapshot(conf, model) == model, f"after {log}")
                    walk(mon, rng, conf, model, depth + 1, log)
                    if op == "raise":
                        raise Boom()
            except Boom:
                mon.check("exception-passes", op == "raise")
            else:
                mon.check("exception-passes", op != "raise", "the scope swallowed an exception")
            # leaving a scope restores exactly the options it set
            model.update(saved)
            mon.check("restored", snapshot(conf, model) == model, f"after {log}: {snapshot(conf, model)} != {model}")
        elif op.startswith("unknown"):
            k = str(rng.choice(list(model)))
            try:
                if op == "unknown-get":
                    getattr(conf, "no_such_option")
                elif op == "unknown-set":
                    conf.no_such_option = 3
                else:
                    with conf(**dict([(k, 12345), ("no_such_option", 1)][:: int(rng.choice([1, -1]))])):
                        mon.check("unknown-entered", False)
                mon.check("unknown-refused", False, op)
            except AttributeError:
                mon.check("unknown-refused", True)
                mon.reject("unknown option")
            mon.check("refusal-without-effect", snapshot(conf, model) == model, f"after {log}")
        elif op == "register":
            k = f"opt{len(model)}_{int(rng.integers(10**6))}"
            if k not in model:
                v = int(rng.integers(1000))
                conf.register(k, v, "description")
                model[k] = v
                mon.check("registered", getattr(conf, k) == v)
        elif op == "again":
            k = str(rng.choice(list(model)))
            try:
                conf.register(k, -1, "again")
                mon.check("second-registration-refused", False, k)
            except KeyError:
                mon.check("second-registration-refused", True)
            mon.check("refusal-without-effect", snapshot(conf, model) == model, f"after {log}")


@scenario(P, "scopes", quick=600, thorough=20000)
def scopes(mon, rng):
    conf = type(config)()
    model = {}
    for i in range(int(rng.integers(1, 5))):
        v = int(rng.integers(1000))
        conf.register(f"o{i}", v, f"option {i}")
        model[f"o{i}"] = v
    log = []
    before = snapshot(config, OPTS)
    walk(mon, rng, conf, model, 0, log)
    mon.describe(log=log)
    mon.check("instances-independent", snapshot(config, OPTS) == before)
    mon.event("operations", len(log))


@scenario(P, "defaults", quick=20)
def defaults(mon, rng):
    """The process-wide options have their documented defaults and reach the code at call time."""
    mon.describe(i=int(rng.integers(10**6)))
    mon.check("default-damping", config.covariance_inversion_damping == 1e-12)
    mon.check("default-matrix-free", config.matrix_free is False)
    mon.check("default-lazy", config.lazy_matrix_matrix_matmul is True)
    mon.check("same-object", probnum.config is config)


@scenario(P, "damping", quick=150, thorough=3000)
def damping(mon, rng):
    """The damping in force when the factor is first needed is the one that is used."""
    n = int(rng.integers(1, 6))
    C = spd(rng, n)
    d1, d2 = float(10 ** rng.uniform(-6, 0)), float(10 ** rng.uniform(-6, 0))
    repr_ = str(rng.choice(["array", "linop", "matrix-shape"]))
    how = str(rng.choice(["scope", "argument", "argument-in-scope", "precomputed", "dense"]))
    if repr_ == "matrix-shape":
        n = n * 2
        C = spd(rng, n)
    mon.describe(n=n, repr=repr_, how=how)
    cov = linops.Matrix(C.copy()) if repr_ == "linop" else C.copy()
    mean = np.zeros((n // 2, 2)) if repr_ == "matrix-shape" else np.zeros(n)
    L0 = np.tril(rng.standard_normal((n, n)))
    given = linops.Matrix(L0) if repr_ == "linop" else L0
    rv = randvars.Normal(mean, cov, cov_cholesky=given if how == "precomputed" else None)
    want = d1
    if how == "scope":
        with config(covariance_inversion_damping=d1):
            L = rv.cov_cholesky
    elif how == "argument":
        rv.precompute_cov_cholesky(damping_factor=d1)
        L = rv.cov_cholesky
    elif how == "argument-in-scope":
        with config(covariance_inversion_damping=d2):
            rv.precompute_cov_cholesky(damping_factor=d1)
        L = rv.cov_cholesky
    elif how == "dense":
        with config(covariance_inversion_damping=d1):
            L = rv.dense_cov_cholesky()
        L2 = rv.dense_cov_cholesky(damping_factor=d2)
        mon.close("dense-argument", L2 @ L2.T, C + d2 * np.eye(n), tol=1e-12)
        mon.check("dense-not-stored", not rv.cov_cholesky_is_precomputed)
    else:
        with config(covariance_inversion_damping=d1):
            L = rv.cov_cholesky
        mon.close("given-factor-kept", dense(L), L0, tol=0)
        return
    L = dense(L)
    mon.check("lower", np.array_equal(L, np.tril(L)))
    mon.close("damped", L @ L.T, C + want * np.eye(n), tol=1e-12, msg=f"{how}, {repr_}")
    if how != "dense":
        with config(covariance_inversion_damping=d2):
            mon.close("factor-stays", dense(rv.cov_cholesky), L, tol=0)
        try:
            rv.precompute_cov_cholesky()
            mon.check("recompute-refused", False)
        except Exception:  # pylint: disable=broad-except
            mon.check("recompute-refused", True)
    mon.close("covariance-undamped", dense(rv.cov), C, tol=0)
    mon.check("damping-restored", config.covariance_inversion_damping == 1e-12)


def derived(op, D, rng):
    out = {"dense": dense(op), "T": dense(op.T)}
    x = rng.standard_normal(D.shape[1])
    out["matvec"] = op @ x
    if D.shape[0] == D.shape[1]:
        out["trace"] = np.array(op.trace())
        out["diagonal"] = np.asarray(op.diagonal())
        out["det"] = np.array(op.det())
    return out


@scenario(P, "lazy-products", quick=300, thorough=6000)
def lazy(mon, rng):
    """Products of operators denote the same matrix whether formed at once or lazily."""
    k = int(rng.integers(2, 5))
    dims = rng.integers(1, 5, k + 1)
    if rng.random() < 0.5:
        dims[-1] = dims[0]
    seed = int(rng.integers(2**31))
    forms = [str(rng.choice(["matrix", "matrix", "sparse", "T", "inv", "any"])) for _ in range(k)]

    def build():
        r = np.random.default_rng(seed)
        ops, Ds = [], []
        for i in range(k):
            m, n = int(dims[i]), int(dims[i + 1])
            f = forms[i]
            if f == "inv" and m != n:
                f = "matrix"
            if f == "any":
                e = G.make(r, m, n, depth=1)
                ops.append(e.op)
                Ds.append(np.asarray(e.D))
                continue
            A = r.standard_normal((m, n))
            if f == "inv":
                A = A + 3 * np.eye(n)
                ops.append(linops.Matrix(A).inv())
                Ds.append(np.linalg.inv(A))
            elif f == "T":
                ops.append(linops.Matrix(A.T.copy()).T)
                Ds.append(A)
            elif f == "sparse":
                import scipy.sparse

                A = A * (r.random((m, n)) < 0.6)
                ops.append(linops.Matrix(scipy.sparse.csr_matrix(A)))
                Ds.append(A)
            else:
                ops.append(linops.Matrix(A))
                Ds.append(A)
        return ops, Ds

    left = bool(rng.random() < 0.5)
    mon.describe(forms=forms, dims=dims.tolist(), left=left)
    res, kinds = [], []
    for mode in (True, False):
        ops, Ds = build()
        with config(lazy_matrix_matrix_matmul=mode):
            acc = ops[0] if left else ops[-1]
            for o in ops[1:] if left else ops[-2::-1]:
                acc = acc @ o if left else o @ acc
        D = Ds[0]
        for M in Ds[1:]:
            D = D @ M
        mon.check("restored", config.lazy_matrix_matrix_matmul is True)
        res.append(derived(acc, D, np.random.default_rng(1)))
        kinds.append(type(acc).__name__)
        scale = np.prod([1 + np.abs(M).max() for M in Ds])
        mon.close("product", res[-1]["dense"], D, tol=1e-10, scale=scale, msg=f"lazy={mode}")
        if not mode and set(forms) == {"matrix"}:
            mon.check("eager-matrix", isinstance(acc, linops.Matrix), kinds[-1])
    for q in res[0]:
        mon.close("same:" + q, np.asarray(res[1][q]), np.asarray(res[0][q]), tol=1e-9, scale=scale ** (len(D) if q == "det" else 1), msg=str(kinds))
    mon.event("pair:" + "/".join(kinds))


@scenario(P, "matrix-free-filter", quick=80, thorough=1200)
def mf_filter(mon, rng):
    """A filter and smoother run with operators gives what it gives with arrays."""
    q, d = int(rng.integers(0, 3)), int(rng.integers(1, 4))
    N = int(rng.integers(2, 6))
    n = d * (q + 1)
    ts = np.cumsum(rng.uniform(0.2, 1.0, N))
    m = int(rng.integers(1, d + 1))
    H, R = rng.standard_normal((m, n)), spd(rng, m)
    m0, C0 = rng.standard_normal(n), spd(rng, n)
    Y = rng.standard_normal((N, m))
    bwd = str(rng.choice(["classic", "joseph"]))
    first = bool(rng.random() < 0.3)
    mon.describe(q=q, d=d, N=N, m=m, bwd=bwd, first=first)
    if first:
        ts[0] = 0.0

    def run(mf):
        A = (lambda M: linops.aslinop(M.copy())) if mf else (lambda M: M.copy())
        with config(matrix_free=mf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tr = randprocs.markov.integrator.IntegratedWienerTransition(
                num_derivatives=q, wiener_process_dimension=d, backward_implementation=bwd
            )
            pr = randprocs.markov.MarkovProcess(initarg=0.0, initrv=randvars.Normal(m0, A(C0)), transition=tr)
            mm = randprocs.markov.discrete.LTIGaussian(
                transition_matrix=A(H), noise=randvars.Normal(np.zeros(m), A(R)), backward_implementation=bwd
            )
            rp = problems.TimeSeriesRegressionProblem(locations=ts, observations=Y, measurement_models=mm)
            post, _ = filtsmooth.gaussian.Kalman(pr).filter(rp)
            f = [(dense(rv.mean), dense(rv.cov)) for rv in post.states]
            kinds = {type(rv.cov).__name__ for rv in post.states}
            sm = filtsmooth.gaussian.Kalman(pr).smooth(post)
            s = [(dense(rv.mean), dense(rv.cov)) for rv in sm.states]
            return f, s, kinds

    fa, sa, _ = run(False)
    fb, sb, kinds = run(True)
    mon.check("restored", config.matrix_free is False)
    for what, a, b in (("filter", fa, fb), ("smoother", sa, sb)):
        mon.check(what + "-length", len(a) == len(b))
        for (ma, Ca), (mb, Cb) in zip(a, b):
            mon.close(what + "-mean", mb, ma, tol=1e-7)
            mon.close(what + "-cov", Cb, Ca, tol=1e-7)
    for kd in kinds:
        mon.event("operator covariance:" + kd)


@scenario(P, "constants", quick=80, thorough=1500)
def constants(mon, rng):
    """Constants keep value and zero covariance under either representation and in arithmetic."""
    shape = [(), (2,), (3,), (2, 2)][int(rng.integers(4))]
    x = rng.standard_normal(shape) if shape else float(rng.standard_normal())
    mon.describe(shape=list(shape))
    out = []
    for mf in (False, True):
        with config(matrix_free=mf):
            c = randvars.Constant(x)
        size = int(np.prod(shape))
        cov = dense(c.cov)
        mon.close("zero-covariance", np.asarray(cov), np.zeros((size, size)) if shape else np.zeros(()), tol=0)
        mon.check("representation", not shape or isinstance(c.cov, linops.LinearOperator) == mf)
        mon.close("mean", np.asarray(c.mean), np.asarray(x), tol=0)
        mon.close("var", np.asarray(c.var), np.zeros(shape), tol=0)
        mon.close("std", np.asarray(c.std), np.zeros(shape), tol=0)
        y = 2.0 * c + c
        mon.close("arithmetic", np.asarray(y.mean), 3 * np.asarray(x), tol=1e-13)
        mon.close("arithmetic-cov", np.asarray(dense(y.cov)), np.asarray(cov), tol=0)
        if len(shape) == 1:
            z = randvars.Normal(np.zeros(shape), np.eye(size)) + c
            mon.close("normal-plus-constant", dense(z.cov), np.eye(size), tol=0)
            mon.close("normal-plus-constant-mean", z.mean, x, tol=0)
        out.append(np.asarray(c.sample(np.random.default_rng(0), (2,))))
    mon.close("same-samples", out[1], out[0], tol=0)


@scenario(P, "changed-scope", quick=80, thorough=1200)
def changed(mon, rng):
    """Models built in one configuration and used in another give the same distributions."""
    q, d = int(rng.integers(0, 3)), int(rng.integers(1, 3))
    n = d * (q + 1)
    built, used, warm = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
    dt = float(rng.uniform(0.1, 1.5))
    m0, C0 = rng.standard_normal(n), spd(rng, n)
    mon.describe(q=q, d=d, built=built, used=used, warm=warm)

    def rv(mf):
        return randvars.Normal(m0, linops.aslinop(C0.copy()) if mf else C0.copy())

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref, _ = randprocs.markov.integrator.IntegratedWienerTransition(
            num_derivatives=q, wiener_process_dimension=d
        ).forward_rv(rv(False), 0.0, dt=dt)
        with config(matrix_free=built):
            tr = randprocs.markov.integrator.IntegratedWienerTransition(num_derivatives=q, wiener_process_dimension=d)
            if warm:
                tr.forward_rv(rv(built), 0.0, dt=dt)
        with config(matrix_free=used):
            out, _ = tr.forward_rv(rv(used), 0.0, dt=dt)
            mon.close("mean", dense(out.mean), ref.mean, tol=1e-9)
            mon.close("cov", dense(out.cov), ref.cov, tol=1e-9)
            E = dense(tr.proj2coord(q))
            mon.close("projection", E, np.kron(np.eye(d), np.eye(q + 1)[q : q + 1]), tol=0)
            disc = tr.discretise(dt)
            ro = randvars.Normal(np.asarray(dense(disc.transition_matrix)) @ m0, np.asarray(dense(disc.noise.cov)))
            mon.close("discretised", ro.cov, ref.cov - dense(disc.transition_matrix) @ C0 @ dense(disc.transition_matrix).T, tol=1e-9)
    mon.check("restored", config.matrix_free is False)

"""M01: discrete linear-Gaussian transitions propagate and condition exactly."""
import numpy as np
from probnum import config, linops, randvars
from probnum.randprocs.markov import discrete

from pnmon import refmarkov as ref
from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense

P = "M01"
T = 1e-7
FWD = ["classic", "sqrt"]
BWD = ["classic", "joseph", "sqrt"]


def model(rng, n=None, m=None, noise="spd"):
    n = int(rng.integers(1, 5)) if n is None else n
    m = int(rng.integers(1, 5)) if m is None else m
    H = rng.standard_normal((m, n))
    if rng.random() < 0.15:
        H[:, rng.integers(n)] = 0.0
    R = ref.spd(rng, m)
    s = rng.standard_normal(m) if rng.random() < 0.7 else np.zeros(m)
    return n, m, H, s, R


def trans(rng, H, s, R, fi, bi, tv=None):
    """LTI, or a time-varying transition whose value at time tv is (H, s, R)."""
    if tv is None:
        return discrete.LTIGaussian(transition_matrix=H, noise=randvars.Normal(s, R),
                                    forward_implementation=fi, backward_implementation=bi)
    m, n = H.shape
    return discrete.LinearGaussian(
        input_dim=n, output_dim=m,
        transition_matrix_fun=lambda t: H * (1.0 + (t - tv)),
        noise_fun=lambda t: randvars.Normal(s + (t - tv), R * (1.0 + (t - tv) ** 2)),
        forward_implementation=fi, backward_implementation=bi)


def check_rv(mon, rv, m, C, what, tol=T):
    mon.check("gaussian", isinstance(rv, randvars.Normal), f"{what}: {type(rv).__name__}")
    mon.close("mean", dense(rv.mean), m, tol, what)
    mon.close("cov", dense(rv.cov), C, tol, what)
    if rv.cov_cholesky_is_precomputed:
        L = dense(rv.cov_cholesky)
        mon.close("cov-cholesky", L @ L.T, C, tol, what)
        mon.check("cov-cholesky-lower", np.allclose(L, np.tril(L)), what)


@scenario(P, "forward", quick=900)
def forward(mon, rng):
    n, m, H, s, R = model(rng)
    fi = str(rng.choice(FWD))
    tv = None if rng.random() < 0.5 else float(rng.uniform(-2, 2))
    d = 1.0 if rng.random() < 0.4 else float(rng.uniform(0.1, 5))
    mon.describe(n=n, m=m, impl=fi, diffusion=d, tv=tv)
    tr = trans(rng, H, s, R, fi, "classic", tv)
    mx, Cx = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(mx.copy(), Cx.copy())
    t = 0.7 if tv is None else tv
    out, info = tr.forward_rv(rv, t, compute_gain=True, _diffusion=d)
    wm, wC, cross = ref.forward(mx, Cx, H, s, d * R)
    check_rv(mon, out, wm, wC, f"forward {fi}")
    mon.close("crosscov", dense(info["crosscov"]), cross, T, fi)
    mon.close("gain", dense(info["gain"]), np.linalg.solve(wC, cross.T).T, 1e-6, fi)
    x = rng.standard_normal(n)
    out2, _ = tr.forward_realization(x, t, _diffusion=d)
    check_rv(mon, out2, H @ x + s, d * R, f"forward realization {fi}")
    mon.close("input-untouched", rv.mean, mx, 0.0)
    mon.close("input-untouched", rv.cov, Cx, 0.0)


@scenario(P, "backward", quick=1200)
def backward(mon, rng):
    n, m, H, s, R = model(rng)
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    tv = None if rng.random() < 0.5 else float(rng.uniform(-2, 2))
    d = 1.0 if rng.random() < 0.4 else float(rng.uniform(0.1, 5))
    how = str(rng.choice(["plain", "gain", "gain+fwd"]))
    mon.describe(n=n, m=m, impl=(fi, bi), diffusion=d, tv=tv, how=how)
    tr = trans(rng, H, s, R, fi, bi, tv)
    t = 0.7 if tv is None else tv
    mx, Cx = rng.standard_normal(n), ref.spd(rng, n)
    mo, Co = rng.standard_normal(m), ref.spd(rng, m)
    if rng.random() < 0.2:
        Co = np.zeros((m, m))
    rv, ro = randvars.Normal(mx, Cx), randvars.Normal(mo, Co)
    kw = {}
    if how != "plain":
        f, info = tr.forward_rv(rv, t, compute_gain=True, _diffusion=d)
        kw["gain"] = info["gain"]
        if how == "gain+fwd":
            kw["rv_forwarded"] = f
    out, _ = tr.backward_rv(ro, rv, t=t, _diffusion=d, **kw)
    wm, wC, _ = ref.backward(mx, Cx, H, s, d * R, mo, Co)
    check_rv(mon, out, wm, wC, f"backward {fi}/{bi}/{how}", 1e-6)
    y = rng.standard_normal(m)
    out, _ = tr.backward_realization(y, rv, t=t, _diffusion=d, **kw)
    wm, wC, _ = ref.backward(mx, Cx, H, s, d * R, y, np.zeros((m, m)))
    check_rv(mon, out, wm, wC, f"backward realization {fi}/{bi}/{how}", 1e-6)
    f, info = tr.forward_rv(rv, t, compute_gain=True, _diffusion=d)
    for name, args, want in (("condition_state_on_measurement", (y,), (wm, wC)),
                             ("condition_state_on_rv", (ro,), ref.backward(mx, Cx, H, s, d * R, mo, Co)[:2])):
        fn = getattr(discrete, name, None)
        if fn is not None:
            out = fn(*args, f, rv, info["gain"])
            mon.close(name + "-mean", dense(out.mean), want[0], 1e-6)
            mon.close(name + "-cov", dense(out.cov), want[1], 1e-6)


@scenario(P, "marginalisation-identity", quick=300)
def identity(mon, rng):
    """Conditioning on what was predicted anyway changes nothing; conditioning on more shrinks."""
    n, m, H, s, R = model(rng)
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    mon.describe(n=n, m=m, impl=(fi, bi))
    tr = trans(rng, H, s, R, fi, bi)
    mx, Cx = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(mx, Cx)
    f, info = tr.forward_rv(rv, 0.0, compute_gain=True)
    back, _ = tr.backward_rv(f, rv, rv_forwarded=f, gain=info["gain"], t=0.0)
    check_rv(mon, back, mx, Cx, f"identity {fi}/{bi}", 1e-6)
    post, _ = tr.backward_realization(rng.standard_normal(m), rv, t=0.0)
    mon.check("information-shrinks-covariance",
              np.linalg.eigvalsh(Cx - dense(post.cov)).min() > -1e-8, f"{fi}/{bi}")


@scenario(P, "matrix-free", quick=200)
def matrix_free(mon, rng):
    n, m, H, s, R = model(rng)
    d = float(rng.uniform(0.1, 5))
    mon.describe(n=n, m=m, d=d)
    mx, Cx = rng.standard_normal(n), ref.spd(rng, n)
    mo, Co = rng.standard_normal(m), ref.spd(rng, m)
    A = lambda M: linops.aslinop(M.copy())
    with config(matrix_free=True):
        tr = discrete.LTIGaussian(transition_matrix=A(H), noise=randvars.Normal(s, A(R)))
        rv, ro = randvars.Normal(mx, A(Cx)), randvars.Normal(mo, A(Co))
        out, info = tr.forward_rv(rv, 0.0, compute_gain=True, _diffusion=d)
        wm, wC, cross = ref.forward(mx, Cx, H, s, d * R)
        check_rv(mon, out, wm, wC, "matrix-free forward")
        mon.check("stays-matrix-free", isinstance(out.cov, linops.LinearOperator), type(out.cov).__name__)
        mon.close("gain", dense(info["gain"]), np.linalg.solve(wC, cross.T).T, 1e-6)
        out, _ = tr.backward_rv(ro, rv, t=0.0, _diffusion=d)
    wm, wC, _ = ref.backward(mx, Cx, H, s, d * R, mo, Co)
    check_rv(mon, out, wm, wC, "matrix-free backward", 1e-6)


@scenario(P, "degenerate", quick=300)
def degenerate(mon, rng):
    """Noise-free transitions and singular states: same answers in every implementation."""
    n, m, H, s, R = model(rng)
    m = int(rng.integers(1, n + 1))
    H = np.linalg.qr(rng.standard_normal((n, n)))[0][:m]
    s = rng.standard_normal(m)
    fi, bi = str(rng.choice(FWD)), str(rng.choice(BWD))
    mon.describe(n=n, m=m, impl=(fi, bi))
    tr = discrete.LTIGaussian(
        transition_matrix=H,
        noise=randvars.Normal(s, np.zeros((m, m)), cov_cholesky=np.zeros((m, m))),
        forward_implementation=fi, backward_implementation=bi)
    mx, Cx = rng.standard_normal(n), ref.spd(rng, n)
    rv = randvars.Normal(mx, Cx)
    f, info = tr.forward_rv(rv, 0.0, compute_gain=True)
    wm, wC, cross = ref.forward(mx, Cx, H, s, np.zeros((m, m)))
    check_rv(mon, f, wm, wC, "noise-free forward " + fi)
    y = rng.standard_normal(m)
    out, _ = tr.backward_realization(y, rv, t=0.0)
    wm, wC, _ = ref.backward(mx, Cx, H, s, np.zeros((m, m)), y, np.zeros((m, m)))
    check_rv(mon, out, wm, wC, f"noise-free backward {fi}/{bi}", 1e-6)
    mon.close("interpolates", H @ dense(out.mean) + s, y, 1e-6, f"{fi}/{bi}")


@scenario(P, "bad-shapes-refused", quick=40)
def bad_shapes(mon, rng):
    n, m, H, s, R = model(rng)
    mon.describe(n=n, m=m)
    for args in (dict(transition_matrix=H[0], noise=randvars.Normal(s, R)),
                 dict(transition_matrix=np.vstack([H, H]), noise=randvars.Normal(s, R)),
                 dict(transition_matrix=H, noise=randvars.Normal(0.0, 1.0))):
        try:
            discrete.LTIGaussian(**args)
            mon.check("refused", False, "accepted inconsistent shapes")
        except TypeError:
            mon.check("refused", True)
            mon.reject("shape")

"""F01: function algebra and Gaussian processes are pointwise what they are made of."""
import numpy as np

from probnum import functions, randprocs
from probnum.randprocs import covfuncs

from ..core import scenario
from .k01 import expression as kernel_expression, flat, points

P = "F01"


def leaf(rng, ish, osh):
    kind = str(rng.choice(["lambda", "lambda", "zero"]))
    if kind == "zero":
        return functions.Zero(ish, osh), lambda x: np.zeros(x.shape[: x.ndim - len(ish)] + osh), "zero"
    W = rng.standard_normal(osh + (int(np.prod(ish)) if ish else 1,))
    b = rng.standard_normal(osh)

    def f(x):
        z = flat(x, ish)
        return np.sin(np.tensordot(z, W, axes=([-1], [-1]))) + b

    return functions.LambdaFunction(f, ish, osh), f, "f"


def expression(rng, ish, osh, depth=3):
    if depth == 0 or rng.random() < 0.25:
        return leaf(rng, ish, osh)
    op = str(rng.choice(["add", "sub", "scale", "rscale", "neg"]))
    f, rf, df = expression(rng, ish, osh, depth - 1)
    if op == "neg":
        return -f, (lambda x: -rf(x)), ("neg", df)
    if op in ("scale", "rscale"):
        c = [0.0, 2, -1.5, np.float64(0.3), np.array(2.5), 1][rng.integers(6)]
        g = f * c if op == "scale" else c * f
        c = float(c)
        return g, (lambda x: c * rf(x)), (op, c, df)
    g, rg, dg = expression(rng, ish, osh, depth - 1)
    if op == "add":
        return f + g, (lambda x: rf(x) + rg(x)), ("add", df, dg)
    return f - g, (lambda x: rf(x) - rg(x)), ("sub", df, dg)


SH = [((), ()), ((2,), ()), ((), (3,)), ((2,), (2,)), ((1,), (1,)), ((2, 2), (2, 3))]


@scenario(P, "function-algebra", quick=1200)
def algebra(mon, rng):
    ish, osh = SH[rng.integers(len(SH))]
    f, rf, d = expression(rng, ish, osh)
    b = [(), (4,), (2, 3), (0,), (2, 1, 3), (1, 2, 2, 2)][rng.integers(6)]
    x = rng.standard_normal(b + ish)
    if rng.random() < 0.2:
        x = rng.integers(-3, 4, b + ish)
    mon.describe(shapes=(ish, osh), f=d, batch=b)
    mon.check("shapes", f.input_shape == ish and f.output_shape == osh, f"{f.input_shape} {f.output_shape}")
    mon.close("value", f(x), rf(np.asarray(x, dtype=float)), 1e-12, str(d)[:80])
    mon.close("value-again", f(x), rf(np.asarray(x, dtype=float)), 1e-12, str(d)[:80])
    # operands are not changed by having been combined
    g, rg, _ = leaf(rng, ish, osh)
    h1 = f + g
    h2 = f - g
    mon.close("operand-unchanged", f(x), rf(np.asarray(x, dtype=float)), 1e-12)
    mon.close("value", h1(x), rf(np.asarray(x, float)) + rg(np.asarray(x, float)), 1e-12)
    mon.close("value", h2(x), rf(np.asarray(x, float)) - rg(np.asarray(x, float)), 1e-12)


@scenario(P, "function-refusals", quick=150)
def refusals(mon, rng):
    ish, osh = SH[rng.integers(len(SH))]
    ish2, osh2 = SH[rng.integers(len(SH))]
    f, _, d = expression(rng, ish, osh, 1)
    mon.describe(a=(ish, osh), b=(ish2, osh2), f=d)
    if (ish, osh) != (ish2, osh2):
        g, _, dg = expression(rng, ish2, osh2, 1)
        for name, op in (("add", lambda: f + g), ("sub", lambda: f - g)):
            try:
                op()
            except (ValueError, TypeError):
                mon.check("refused", True)
            else:
                mon.check("refused", False, f"{name} of {(ish, osh)} {d} and {(ish2, osh2)} {dg} accepted")
    if ish:
        try:
            f(np.zeros(ish[:-1] + (ish[-1] + 1,)))
        except ValueError:
            mon.check("input-refused", True)
        else:
            mon.check("input-refused", False, "input of the wrong shape accepted")
    for bad in ("a", [1.0, 2.0]):
        try:
            f * bad if not isinstance(bad, str) else f + bad
        except (TypeError, ValueError):
            mon.check("refused", True)
        else:
            mon.check("refused", False, f"combined with {bad!r}")


class MultiOutput(covfuncs.CovarianceFunction):
    """Intrinsic coregionalisation: k(x, y) B with a non-diagonal B."""

    def __init__(self, k, B):
        self.k, self.B = k, B
        super().__init__(input_shape=k.input_shape, output_shape_0=(len(B),), output_shape_1=(len(B),))

    def _evaluate(self, x0, x1):
        return np.asarray(self.k(x0, x1))[..., None, None] * self.B


@scenario(P, "gaussian-process", quick=500)
def gp(mon, rng):
    ish = [(), (1,), (2,)][rng.integers(3)]
    k, kref, kd, _ = kernel_expression(rng, ish, 1)
    multi = rng.random() < 0.35
    osh = (int(rng.integers(1, 6)),) if multi else ()
    m, mref, md = expression(rng, ish, osh, 1)
    if multi:
        A = rng.standard_normal(osh * 2)
        B = A @ A.T
        cov = MultiOutput(k, B)
    else:
        B = np.ones((1, 1))
        cov = k
    proc = randprocs.GaussianProcess(m, cov)
    b = [(), (1,), (4,), (2, 3)][rng.integers(3 if multi else 4)]
    style, x = points(rng, b, ish)
    mon.describe(ish=ish, osh=osh, k=kd, mean=md, batch=b, style=style)
    rv = proc(x)
    xf = flat(x, ish).reshape((-1, int(np.prod(ish)) if ish else 1))
    n = len(xf)
    K = kref(xf[:, None], xf[None])
    want = np.kron(K, B)  # inputs first, outputs second, as in the mean
    wm = mref(np.asarray(x, float))
    mon.close("mean", rv.mean, wm, 1e-9)
    mon.close("covariance", np.asarray(rv.cov), want if wm.ndim else want[0, 0], 1e-9, f"batch {b} out {osh}")
    wv = np.diag(want).reshape(wm.shape)
    mon.close("var", proc.var(x), wv, 1e-9)
    mon.close("std", proc.std(x), np.sqrt(wv), 1e-9)
    mon.close("mean-function", proc.mean(x), wm, 1e-9)
    if not multi:
        mon.close("list-input", proc.var(x.tolist()), wv, 1e-9)
    mon.check("process-shapes", proc.input_shape == ish and proc.output_shape == osh)
    if rng.random() < 0.15 and n <= 4:
        N = 4000
        S = np.asarray(proc.sample(np.random.default_rng(int(rng.integers(1 << 31))), x, size=(N,)))
        mon.check("sample-shape", S.shape == (N,) + wm.shape, f"{S.shape}")
        S = S.reshape(N, -1)
        sc = np.sqrt(np.diag(want)) + 1e-12
        mon.check("sample-mean", np.all(np.abs(S.mean(0) - wm.ravel()) <= 6.5 * sc / np.sqrt(N) + 1e-6), "sample mean")
        C = np.cov(S.T).reshape(want.shape)
        mon.check("sample-cov", np.all(np.abs(C - want) <= 7 * np.sqrt(2.0 / N) * np.outer(sc, sc) + 1e-6), f"{C} {want}")


@scenario(P, "process-refusals", quick=60)
def process_refusals(mon, rng):
    ish = [(1,), (2,)][rng.integers(2)]
    mon.describe(ish=ish, r=int(rng.integers(1 << 20)))
    for name, f in (
        ("input shapes", lambda: randprocs.GaussianProcess(functions.Zero(ish), covfuncs.ExpQuad((ish[0] + 1,)))),
        ("output shapes", lambda: randprocs.GaussianProcess(functions.Zero(ish, (2,)), covfuncs.ExpQuad(ish))),
        ("mean type", lambda: randprocs.GaussianProcess(lambda x: x, covfuncs.ExpQuad(ish))),
        ("cov type", lambda: randprocs.GaussianProcess(functions.Zero(ish), lambda x, y: 1.0)),
    ):
        try:
            f()
        except (TypeError, ValueError):
            mon.check("refused", True)
        else:
            mon.check("refused", False, name + " accepted")

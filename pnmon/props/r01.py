"""R01: arithmetic of Gaussian random variables is the push-forward of the distribution."""
import numpy as np
from probnum import linops, randvars

from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense, normal, spd

P = "R01"
T = 1e-8


def judge(mon, rv, mean, cov, what, chol=True):
    """The observable distribution equals the expected Gaussian."""
    mean = np.asarray(mean)
    size = mean.size
    if isinstance(rv, randvars.Constant):
        mon.check("degenerate-only-if-no-variance", np.allclose(cov, 0), what)
        mon.close("mean", dense(rv.mean), mean, T, what)
        return False
    if not isinstance(rv, randvars.Normal):
        mon.check("gaussian-stays-gaussian", False, f"{what}: result is {type(rv).__name__}")
        return False
    mon.check("shape", rv.shape == mean.shape and rv.size == size and rv.ndim == mean.ndim, f"{what}: {rv.shape}")
    mon.close("mean", dense(rv.mean), mean, T, what)
    want = np.asarray(cov).reshape((size, size)) if mean.ndim else np.asarray(cov).reshape(())
    mon.close("cov", dense(rv.cov), want, T, what)
    mon.close("var", rv.var, np.diag(np.atleast_2d(want)).reshape(mean.shape), T, what)
    mon.close("std", rv.std, np.sqrt(np.diag(np.atleast_2d(want))).reshape(mean.shape), T, what)
    if chol and rv.cov_cholesky_is_precomputed:
        C = np.atleast_2d(dense(rv.cov_cholesky))
        mon.event("carried-cholesky")
        mon.close("carried-cholesky-shape", np.zeros(np.shape(dense(rv.cov_cholesky))), np.zeros(want.shape), 0, what)
        mon.close("carried-cholesky", C @ C.T, np.atleast_2d(want), 1e-6, what)
    return True


def const(rng, a):
    k = rng.integers(3)
    return randvars.Constant(a) if k == 0 else a


def step(mon, rng, rv, mean, cov):
    """One operation; returns what it is called and the pushed-forward moments."""
    mean = np.asarray(mean)
    sh = mean.shape
    n = mean.size
    C = np.asarray(cov).reshape(n, n)
    ops = ["addc", "subc", "csub", "caddr", "mul", "rmul", "div", "neg", "pos", "addn", "subn", "scalarc"]
    if len(sh) >= 1:
        ops += ["lmat", "rmat", "lmat", "rmat", "lvec", "rvec", "llin"]
    k = str(rng.choice(ops))
    if k in ("addc", "subc", "csub", "caddr"):
        c = rng.standard_normal(sh) if sh else float(rng.standard_normal())
        cc = const(rng, c)
        if k == "addc":
            return k, rv + cc, mean + c, C
        if k == "caddr":
            return k, cc + rv, c + mean, C
        if k == "subc":
            return k, rv - cc, mean - c, C
        return k, cc - rv, c - mean, C
    if k == "scalarc":
        # a scalar constant with broadcasting to the shape of the variable
        c = float(rng.standard_normal())
        return k, rv + c, mean + c, C
    if k in ("mul", "rmul", "div"):
        s = float(rng.uniform(0.4, 2) * (1 if rng.random() < 0.5 else -1))
        if rng.random() < 0.1:
            s = int(np.ceil(abs(s)))
        sc = const(rng, np.float64(s)) if rng.random() < 0.5 else s
        if k == "mul":
            return k, rv * sc, mean * s, C * s * s
        if k == "rmul":
            return k, sc * rv, mean * s, C * s * s
        return k, rv / sc, mean / s, C / s / s
    if k == "neg":
        return k, -rv, -mean, C
    if k == "pos":
        return k, +rv, mean, C
    if k in ("addn", "subn"):
        o = normal(rng, sh)
        if k == "addn":
            return k + ":" + o.kind, rv + o.rv, mean + o.mean, C + o.cov.reshape(n, n)
        return k + ":" + o.kind, rv - o.rv, mean - o.mean, C + o.cov.reshape(n, n)
    r = int(rng.integers(1, 4))
    if k == "lmat":
        A = rng.standard_normal((r, sh[0]))
        res = const(rng, A) @ rv
        L = np.kron(A, np.eye(sh[1])) if len(sh) == 2 else A
        return f"A{A.shape}@rv{sh}", res, A @ mean, L @ C @ L.T
    if k == "rmat":
        A = rng.standard_normal((sh[-1], r))
        res = rv @ const(rng, A)
        L = np.kron(np.eye(sh[0]), A.T) if len(sh) == 2 else A.T
        return f"rv{sh}@A{A.shape}", res, mean @ A, L @ C @ L.T
    if k == "lvec":
        a = rng.standard_normal(sh[0])
        L = np.kron(a[None], np.eye(sh[1])) if len(sh) == 2 else a[None]
        return f"a@rv{sh}", const(rng, a) @ rv, a @ mean, L @ C @ L.T
    if k == "rvec":
        a = rng.standard_normal(sh[-1])
        L = np.kron(np.eye(sh[0]), a[None]) if len(sh) == 2 else a[None]
        return f"rv{sh}@a", rv @ const(rng, a), mean @ a, L @ C @ L.T
    if k == "llin":
        A = rng.standard_normal((sh[0], sh[0]))
        op = linops.Matrix(A.copy()) if rng.random() < 0.6 else linops.Scaling(np.diag(A).copy())
        D = op.todense()
        L = np.kron(D, np.eye(sh[1])) if len(sh) == 2 else D
        return f"linop@rv{sh}", op @ rv, D @ mean, L @ C @ L.T
    raise AssertionError


@scenario(P, "chains", quick=2600)
def chains(mon, rng):
    g = normal(rng)
    rv, mean, cov = g.rv, g.mean, g.cov
    trail = [g.kind + str(np.shape(mean))]
    judge(mon, rv, mean, cov, trail[0])
    m0, c0 = dense(rv.mean).copy(), dense(rv.cov).copy()
    for _ in range(int(rng.integers(1, 5))):
        src = rv
        pre_m, pre_c = dense(src.mean).copy(), dense(src.cov).copy()
        name, rv, mean, cov = step(mon, rng, rv, mean, cov)
        trail.append(name)
        mon.event("op:" + name.split("(")[0].split(":")[0])
        mon.describe(trail=list(trail))
        if not judge(mon, rv, mean, cov, "->".join(trail)):
            break
        mon.close("operand-unchanged", dense(src.mean), pre_m, 0.0)
        mon.close("operand-unchanged", dense(src.cov), pre_c, 0.0)
        if rng.random() < 0.3 and rv.ndim and not rv.cov_cholesky_is_precomputed:
            w = np.linalg.eigvalsh(np.asarray(cov).reshape(np.size(mean), -1))
            if w[0] > 1e-8 * w[-1]:
                rv.precompute_cov_cholesky(damping_factor=0.0)
                trail.append("chol")
                mon.event("op:precompute")
                judge(mon, rv, mean, cov, "->".join(trail))
    mon.close("operand-unchanged", dense(g.rv.mean), m0, 0.0)
    mon.close("operand-unchanged", dense(g.rv.cov), c0, 0.0)


@scenario(P, "zero-scaling", quick=60)
def zero(mon, rng):
    g = normal(rng)
    mon.describe(kind=g.kind, shape=np.shape(g.mean))
    z = [0, 0.0, np.float64(0)][rng.integers(3)]
    r = g.rv * z if rng.random() < 0.5 else z * g.rv
    mon.close("zero-scaling", dense(r.mean), np.zeros(np.shape(g.mean)), 0.0)
    mon.close("zero-scaling", np.abs(dense(r.cov)).max(), 0.0, 0.0)
    try:
        g.rv / z
        ok = False
    except ZeroDivisionError:
        ok = True
    mon.check("division-by-zero-refused", ok)


@scenario(P, "constants", quick=400)
def constants(mon, rng):
    """Constants obey ordinary array arithmetic."""
    sh = [(), (2,), (3, 2), (2, 2)][rng.integers(4)]
    a = rng.uniform(0.5, 3, sh)
    b = rng.uniform(0.5, 3, sh)
    if rng.random() < 0.3:
        a, b = rng.integers(1, 5, sh), rng.integers(1, 4, sh)
    A = randvars.Constant(a)
    k = str(rng.choice(["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "neg", "abs"]))
    mon.describe(op=k, shape=sh, dtype=str(np.asarray(a).dtype))
    import operator as o
    if k in ("neg", "abs"):
        r, w = getattr(o, k)(A), getattr(o, k)(a)
    else:
        if k == "matmul":
            if sh != (2, 2):
                raise Skip
        B = randvars.Constant(b) if rng.random() < 0.6 else b
        f = getattr(o, k)
        if rng.random() < 0.5:
            r, w = f(A, B), f(a, b)
        else:
            r, w = f(B, A), f(b, a)
    mon.check("constant-closed", isinstance(r, randvars.Constant))
    mon.close("constant-value", r.support, w, 1e-12, k)
    mon.close("constant-mean", r.mean, np.asarray(w, float), 1e-12, k)
    mon.close("constant-cov", np.abs(dense(r.cov)).max(initial=0), 0.0, 0.0)


@scenario(P, "generic-arithmetic", quick=250)
def generic(mon, rng):
    """Non-Gaussian results still push samples forward through the operation."""
    import operator as o
    sh = [(), (2,), (2, 2)][rng.integers(3)]
    g = normal(rng, sh, allow_linop=False)
    k = str(rng.choice(["mul", "mod", "floordiv", "truediv", "pow", "sub", "add"]))
    other = normal(rng, sh, allow_linop=False) if rng.random() < 0.6 else None
    if k in ("add", "sub") and other is not None:
        raise Skip
    if other is None:
        if sh == () and k in ("mul", "truediv"):
            raise Skip
        if k == "pow":
            val = np.full(sh, 2.0) if sh else 2.0
        else:
            val = rng.uniform(0.5, 2, sh) if sh else float(rng.uniform(0.5, 2))
        rhs = val
    else:
        rhs = other.rv
    f = getattr(o, k)
    if k in ("add", "sub"):
        raise Skip
    if k == "pow" and other is not None:
        raise Skip
    r = f(g.rv, rhs)
    seed = int(rng.integers(1 << 30))
    size = [(), (3,), (2, 3)][rng.integers(3)]
    mon.describe(op=k, shape=sh, size=size, other=None if other is None else other.kind)
    got = r.sample(np.random.default_rng(seed), size)
    rr = np.random.default_rng(seed)
    left = g.rv.sample(rr, size)
    right = rhs.sample(rr, size) if other is not None else rhs
    mon.close("samples-are-pushed-forward", got, f(left, right), 1e-9, k)
    mon.check("shape", r.shape == sh and np.shape(got) == tuple(size) + sh)


@scenario(P, "generic-shapes", quick=400)
def generic_shapes(mon, rng):
    """Operands of different shapes, matrix products, reflected and unary operations of non-Gaussian variables."""
    import operator as o
    g = normal(rng, [(), (1,), (2,), (3,), (2, 3), (3, 2), (3, 3)][rng.integers(7)], allow_linop=False)
    sh = g.mean.shape
    base = str(rng.choice(["abs", "square", "normal"]))
    X = {"abs": lambda: abs(g.rv), "square": lambda: g.rv * g.rv, "normal": lambda: g.rv}[base]()
    k = str(rng.choice(["add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "neg", "pos", "abs"]))
    size = [(), 2, 3, (2, 3), (3, 2)][rng.integers(5)]
    seed = int(rng.integers(1 << 30))
    if k in ("neg", "pos", "abs"):
        f = getattr(o, k)
        if base == "normal" and k != "abs":
            raise Skip("Gaussian results are judged in `chains`")
        R = f(X)
        mon.describe(op=k, base=base, shape=sh, size=size)
        got = R.sample(np.random.default_rng(seed), size)
        mon.close("samples-are-pushed-forward", got, f(X.sample(np.random.default_rng(seed), size)), 1e-12, k)
        if k == "neg":
            center = rng.uniform(0.5, 2.0, sh)
            Y = randvars.RandomVariable(sh, np.dtype(float), mode=lambda: center, median=lambda: center + 1 if sh == () else None,
                                        mean=lambda: center + 2, cov=lambda: np.eye(int(np.prod(sh))) if sh else np.float64(1.5),
                                        var=lambda: np.full(sh, 1.5) if sh else np.float64(1.5),
                                        in_support=lambda x: bool(np.all(np.asarray(x) > 0)))
            N = -Y
            mon.close("negated-mode", N.mode, -center, 1e-12)
            mon.close("negated-mean", N.mean, -(center + 2), 1e-12)
            mon.close("negated-cov", N.cov, Y.cov, 1e-12)
            mon.close("negated-var", N.var, Y.var, 1e-12)
            if sh == ():
                mon.close("negated-median", N.median, -(center + 1), 1e-12)
            mon.check("negated-support", bool(np.all(N.in_support(-center))) and not np.any(N.in_support(center)), "in_support of the negation")
        mon.check("shape", R.shape == sh and np.shape(got) == (np.empty(size).shape if size != () else ()) + sh, f"{k}: {np.shape(got)}")
        return
    f = getattr(o, k)
    if k == "matmul":
        if len(sh) == 0:
            raise Skip("scalar")
        osh = [(sh[-1],), (sh[-1], 2), (sh[-1], sh[-1])][rng.integers(3)]
    else:
        osh = [(), sh, sh[-1:], (1,) * len(sh), (2,) + sh][rng.integers(5)]
    kind = str(rng.choice(["normal", "array", "scalar", "constant"]))
    if kind == "scalar" or (osh == () and kind == "array"):
        if k == "matmul":
            raise Skip("scalar")
        osh, kind = (), "scalar"
    val = rng.uniform(0.5, 2.0, osh)
    if kind == "normal":
        if len(osh) > 2:
            raise Skip("tensor-variate")
        rhs = normal(rng, osh, allow_linop=False).rv
        if k == "pow":
            raise Skip("complex")
    elif kind == "constant":
        rhs = randvars.Constant(val)
    else:
        rhs = float(val) if kind == "scalar" else val
    if k == "pow":
        rhs, kind = 2, "scalar"
    flip = bool(rng.random() < 0.4) and k not in ("pow",) and kind != "normal"
    if flip and k == "matmul":
        osh = (2, sh[0])
        val = rng.uniform(0.5, 2.0, osh)
        rhs = randvars.Constant(val) if kind == "constant" else val
    if base == "normal" and kind != "normal" and k in ("add", "sub", "mul", "matmul", "truediv"):
        raise Skip("Gaussian results are judged in `chains`")
    if base == "normal" and kind == "normal" and k in ("add", "sub"):
        raise Skip("Gaussian results are judged in `chains`")
    mon.describe(op=k, base=base, shape=sh, other=osh, kind=kind, flip=flip, size=size)
    R = f(rhs, X) if flip else f(X, rhs)
    got = np.asarray(R.sample(np.random.default_rng(seed), size))
    rr = np.random.default_rng(seed)
    full = np.empty(size).shape if size != () else ()
    take = lambda v: np.asarray(v.sample(rr, size)) if isinstance(v, randvars.RandomVariable) else np.broadcast_to(np.asarray(v), full + np.shape(v))
    first, second = (rhs, X) if flip else (X, rhs)
    a, b = take(first), take(second)
    sa, sb = a.shape[len(full):], b.shape[len(full):]
    a, b = a.reshape((-1,) + sa), b.reshape((-1,) + sb)
    want = np.array([f(x, y) for x, y in zip(a, b)])
    want = want.reshape(full + want.shape[1:])
    mon.check("shape", got.shape == want.shape and R.shape == want.shape[len(full):], f"{k}: sample {got.shape}, variable {R.shape}, expected {want.shape}")
    if got.shape == want.shape:
        mon.close("samples-are-pushed-forward", got, want, 1e-9, f"{k} {sa} {sb} size {size}")


@scenario(P, "broadcast-sums", quick=200)
def broadcast_sums(mon, rng):
    """Sums of Gaussians (or constants) of different shapes: refused, or the law of the broadcast sum."""
    shapes = [(), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2)]
    sa, sb = shapes[rng.integers(7)], shapes[rng.integers(7)]
    a, b = normal(rng, sa, allow_linop=False), normal(rng, sb, allow_linop=False)
    sgn = 1 if rng.random() < 0.5 else -1
    const_b = bool(rng.random() < 0.3)
    mon.describe(sa=sa, sb=sb, sgn=sgn, const=const_b, kinds=(a.kind, b.kind))
    B = b.mean.copy() if const_b else b.rv
    try:
        out = np.broadcast_shapes(sa, sb)
    except ValueError:
        out = None
    try:
        r = a.rv + B if sgn > 0 else a.rv - B
    except (ValueError, TypeError) as e:
        if sa == sb:
            raise
        mon.reject(f"{type(e).__name__}")
        return
    mon.check("incompatible-refused", out is not None, f"{sa} {sb}: {r.shape}")
    if out is None:
        return
    # linear maps that broadcast each operand
    la = np.stack([np.broadcast_to(e.reshape(sa), out).ravel() for e in np.eye(max(a.mean.size, 1))], axis=1)
    lb = np.stack([np.broadcast_to(e.reshape(sb), out).ravel() for e in np.eye(max(b.mean.size, 1))], axis=1)
    C = la @ np.asarray(a.cov).reshape(la.shape[1], -1) @ la.T
    if not const_b:
        C = C + lb @ np.asarray(b.cov).reshape(lb.shape[1], -1) @ lb.T
    judge(mon, r, a.mean + sgn * b.mean, C, f"{sa} {'+' if sgn > 0 else '-'} {sb}")

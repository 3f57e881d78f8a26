"""R03: indexing, reshaping and transposing act on the distribution as on its values."""
import numpy as np
from probnum import randvars

from pnmon.core import Skip, scenario
from pnmon.gen_rv import dense, normal

P = "R03"
T = 1e-10


def index_map(shape, fn):
    """Flat positions of the selected entries, in order: the map on values."""
    pos = np.arange(int(np.prod(shape))).reshape(shape)
    out = fn(pos)
    return np.asarray(out)


def judge(mon, rv, mean, C, what):
    mean = np.asarray(mean)
    mon.check("stays-gaussian", isinstance(rv, randvars.Normal), what)
    mon.check("shape", rv.shape == mean.shape, f"{what}: {rv.shape} vs {mean.shape}")
    mon.close("mean", dense(rv.mean), mean, T, what)
    want = np.asarray(C).reshape((mean.size, mean.size)) if mean.ndim else np.asarray(C).reshape(())
    mon.close("cov", dense(rv.cov), want, T, what)
    mon.close("var", rv.var, np.diag(np.atleast_2d(want)).reshape(mean.shape), T, what)


def random_key(rng, shape):
    """A random basic or advanced index."""
    kinds = ["full", "partial", "slice", "ellipsis", "mask", "fancy", "mixed", "neg"]
    k = str(rng.choice(kinds))
    nd = len(shape)
    if k == "full":
        return k, tuple(int(rng.integers(s)) for s in shape)
    if k == "neg":
        return k, tuple(-int(rng.integers(1, s + 1)) for s in shape)
    if k == "partial":
        return k, int(rng.integers(shape[0]))
    if k == "slice":
        sl = []
        for s in shape:
            a = int(rng.integers(0, s))
            sl.append(slice(a, None, int(rng.integers(1, 3))) if rng.random() < 0.7 else slice(None, None, -1))
        return k, tuple(sl[: int(rng.integers(1, nd + 1))])
    if k == "ellipsis":
        return k, (Ellipsis, int(rng.integers(shape[-1])))
    if k == "mask":
        m = rng.random(shape) < 0.6
        m.flat[0] = True
        return k, m
    if k == "fancy":
        return k, [int(i) for i in rng.integers(0, shape[0], int(rng.integers(1, 4)))]
    if nd == 2:
        return k, (int(rng.integers(shape[0])), slice(None, int(rng.integers(1, shape[1] + 1))))
    return k, slice(0, int(rng.integers(1, shape[0] + 1)))


@scenario(P, "index", quick=1500)
def index(mon, rng):
    g = normal(rng)
    if np.shape(g.mean) == ():
        raise Skip
    k, key = random_key(rng, g.mean.shape)
    mon.describe(kind=g.kind, shape=g.mean.shape, key_kind=k, key=repr(key))
    idx = index_map(g.mean.shape, lambda a: a[key])
    f = idx.ravel()
    if f.size == 0:
        raise Skip
    r = g.rv[key]
    judge(mon, r, g.mean.ravel()[idx], g.cov[np.ix_(f, f)], f"[{key!r}] of {g.mean.shape}")
    mon.event("index:" + k)


@scenario(P, "reshape-transpose", quick=900)
def reshape(mon, rng):
    g = normal(rng)
    rv, mean, cov = g.rv, np.asarray(g.mean), np.atleast_2d(g.cov)
    trail = []
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.5:
            n = mean.size
            opts = [(n,), (1, n), (n, 1)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
            if n == 1:
                opts.append(())
            sh = opts[rng.integers(len(opts))]
            trail.append(("reshape", sh))
            rv = rv.reshape(sh)
            mean = mean.reshape(sh)
        else:
            v = rng.integers(3)
            if v == 0:
                trail.append(("T",))
                rv = rv.T
            elif v == 1 and mean.ndim == 2:
                ax = [(0, 1), (1, 0), (-1, 0), (1, -2), (-1, -2), (0, -1)][rng.integers(6)]
                trail.append(("transpose", ax))
                pos = np.arange(mean.size).reshape(mean.shape).transpose(ax).ravel()
                rv = rv.transpose(*ax) if rng.random() < 0.5 else rv.transpose(ax)
                mean, cov = mean.transpose(ax), cov[np.ix_(pos, pos)]
                continue
            else:
                trail.append(("transpose()",))
                rv = rv.transpose()
            pos = np.arange(mean.size).reshape(mean.shape).T.ravel()
            mean, cov = mean.T, cov[np.ix_(pos, pos)]
    mon.describe(kind=g.kind, shape=np.shape(g.mean), trail=trail)
    judge(mon, rv, mean, cov, str(trail))


@scenario(P, "generic-variables", quick=500)
def generic(mon, rng):
    """Variables known only through samples and moments: values are rearranged identically."""
    import scipy.stats
    sh = [(3,), (2, 3), (4,), (2, 3, 2), ()][rng.integers(5)]
    median = rng.permutation(int(np.prod(sh))).astype(float).reshape(sh) - 2.5
    ar = np.arange(int(np.prod(sh)), dtype=float)
    cov = np.diag(ar + 1) + 0.01 * np.outer(ar, ar) if sh else np.float64(1.0)
    base = randvars.RandomVariable(
        shape=sh, dtype=np.float64,
        sample=lambda rng, size: rng.uniform(size=tuple(size) + sh),
        in_support=lambda x: bool(np.all((x >= 0) & (x <= 1))),
        median=lambda: median,
        mean=lambda: np.arange(np.prod(sh), dtype=float).reshape(sh),
        var=lambda: np.arange(1, 1 + np.prod(sh), dtype=float).reshape(sh),
        std=lambda: np.sqrt(np.arange(1, 1 + np.prod(sh), dtype=float)).reshape(sh),
        mode=lambda: 0.5 + np.arange(np.prod(sh), dtype=float).reshape(sh),
        cov=lambda: cov,
        entropy=lambda: np.float64(17.0),
    )
    size = [(), (5,), (2, 3)][rng.integers(3)]
    seed = int(rng.integers(1 << 30))
    op = str(rng.choice((["index"] if sh else []) + ["reshape", "transpose", "neg", "pos", "abs"]))
    raw = base.sample(np.random.default_rng(seed), size)
    if op == "index":
        k, key = random_key(rng, sh)
        if k == "mask" or k == "ellipsis":
            key = int(rng.integers(sh[0]))
        kk = key if isinstance(key, tuple) else (key,)
        r = base[key]
        val = lambda a: a[(slice(None),) * (a.ndim - len(sh)) + kk]
        mon.describe(op=op, key=repr(key), size=size, shape=sh)
    elif op == "reshape":
        new = [(int(np.prod(sh)),), (1, int(np.prod(sh)))][rng.integers(2)]
        r = base.reshape(new)
        val = lambda a: a.reshape(a.shape[: a.ndim - len(sh)] + new)
        mon.describe(op=op, new=new, size=size, shape=sh)
    elif op == "transpose":
        axes = tuple(reversed(range(len(sh))))
        how = int(rng.integers(4))
        if how <= 1:
            r = base.T if how == 0 else base.transpose()
        else:
            axes = tuple(int(i) for i in rng.permutation(len(sh)))
            r = base.transpose(*axes) if how == 2 else base.transpose(axes)
        lead = lambda a: a.ndim - len(sh)
        val = lambda a: a.transpose(tuple(range(lead(a))) + tuple(lead(a) + i for i in axes))
        mon.describe(op=op, size=size, shape=sh, axes=axes, how=how)
    else:
        r = {"neg": lambda: -base, "pos": lambda: +base, "abs": lambda: abs(base)}[op]()
        val = {"neg": lambda a: -a, "pos": lambda a: +a, "abs": np.abs}[op]
        mon.describe(op=op, size=size, shape=sh)
    got = r.sample(np.random.default_rng(seed), size)
    mon.close("samples-rearranged", got, val(raw), 1e-14, f"{op} size {size} shape {sh}")
    mon.check("shape", r.shape == val(np.zeros(sh)).shape, f"{r.shape}")
    if op != "abs":
        mon.close("mean", r.mean, val(base.mean), 1e-14, op)
        mon.close("mode", r.mode, val(base.mode), 1e-14, op)
        try:
            med = r.median
        except (NotImplementedError, TypeError):
            mon.reject(f"median of {op} unknown")
        else:
            mon.close("median", med, val(median), 1e-14, op)
        if op in ("neg", "pos"):
            mon.close("std", r.std, base.std, 1e-14)
            mon.close("cov", r.cov, base.cov, 1e-14)
            x = val(np.full(sh, 0.3))
            mon.check("in-support", bool(r.in_support(x)) is True and bool(r.in_support(x + 1.5)) is False and bool(r.in_support(x - 1.5)) is False, op)
        if op in ("neg", "pos"):
            mon.close("var", r.var, base.var, 1e-14)
        else:
            mon.close("var", r.var, val(base.var), 1e-14)
            mon.close("std", r.std, val(base.std), 1e-14)
            mon.close("mode", r.mode, val(base.mode), 1e-14)
            f = val(np.arange(int(np.prod(sh))).reshape(sh)).ravel()
            want = np.atleast_2d(base.cov)[np.ix_(f, f)]
            for name, ref in (("cov", want if r.ndim else want[0, 0]), ("entropy", np.float64(17.0))):
                try:
                    got = getattr(r, name)
                except NotImplementedError:
                    mon.reject(f"{name} of {op} unknown")
                    continue
                if name == "entropy" and f.size != int(np.prod(sh)):
                    mon.check("entropy-of-part", False, f"{op}: entropy of all entries reported for {f.size} of them")
                else:
                    mon.close(name, got, ref, 1e-14, op)


@scenario(P, "constants", quick=200)
def constants(mon, rng):
    sh = [(3,), (2, 3), (2, 2)][rng.integers(3)]
    a = rng.standard_normal(sh)
    rv = randvars.Constant(a.copy())
    k, key = random_key(rng, sh)
    mon.describe(shape=sh, key=repr(key))
    mon.close("constant-index", rv[key].support, a[key], 0.0)
    mon.close("constant-reshape", rv.reshape((a.size,)).support, a.ravel(), 0.0)
    mon.close("constant-transpose", rv.T.support, a.T, 0.0)

"""Random Gaussian variables with independently known mean and covariance."""
import numpy as np
from probnum import linops, randvars

from pnmon import gen_linops as G


def dense(a):
    return a.todense() if isinstance(a, linops.LinearOperator) else np.asarray(a)


class GRV:
    def __init__(self, rv, mean, cov, kind):
        self.rv, self.mean, self.cov, self.kind = rv, np.asarray(mean, float), np.asarray(cov, float), kind


def spd(rng, n, singular=False):
    A = rng.standard_normal((n, n))
    C = A @ A.T / n + np.diag(rng.uniform(0.3, 1.5, n))
    if singular:
        B = rng.standard_normal((n, max(1, n - 1)))
        C = B @ B.T
    return C


def normal(rng, shape=None, allow_linop=True, precompute=None, singular=False):
    if shape is None:
        shape = [(), (1,), (2,), (3,), (4,), (2, 2), (3, 2), (1, 3), (3, 1), (3, 3), (1, 1)][rng.integers(11)]
    size = int(np.prod(shape))
    mean = rng.standard_normal(shape) if shape else float(rng.standard_normal())
    kind = "dense"
    if shape == ():
        v = float(rng.uniform(0.2, 2.0))
        if rng.random() < 0.5:
            rv = randvars.Normal(mean, v)
        else:
            rv = randvars.Normal(np.array(mean), np.array(v))
        cov = np.asarray(v)
    else:
        opts = ["dense", "dense"]
        if allow_linop:
            opts += ["matrix", "scaling", "block"]
            if len(shape) == 2:
                opts += ["kron", "kron"]
                if shape[0] == shape[1]:
                    opts += ["symkron"]
            if len(shape) == 1:
                opts += ["idkron"]
        kind = str(rng.choice(opts))
        if kind == "dense":
            cov = spd(rng, size, singular)
            c = cov.copy()
        elif kind == "matrix":
            cov = spd(rng, size)
            c = linops.Matrix(cov.copy())
            if rng.random() < 0.5:
                c.is_symmetric = True
        elif kind == "scaling":
            f = rng.uniform(0.3, 2, size)
            cov, c = np.diag(f), linops.Scaling(f.copy())
        elif kind == "block":
            parts = G.splits(rng, size, min(size, 2))
            bs = [spd(rng, p) for p in parts]
            import scipy.linalg as sl
            cov, c = sl.block_diag(*bs), linops.BlockDiagonalMatrix(*[linops.Matrix(b) for b in bs])
        elif kind == "kron":
            A, B = spd(rng, shape[0]), spd(rng, shape[1])
            cov, c = np.kron(A, B), linops.Kronecker(A.copy(), B.copy())
        elif kind == "symkron":
            A = spd(rng, shape[0])
            # observable covariance of the variable: the operator as documented
            cov, c = np.kron(A, A), linops.SymmetricKronecker(linops.Matrix(A.copy()))
        elif kind == "idkron":
            fp = G.factor_pairs(size)
            a, b = fp[rng.integers(len(fp))]
            B = spd(rng, b)
            cov, c = np.kron(np.eye(a), B), linops.IdentityKronecker(a, linops.Matrix(B))
        rv = randvars.Normal(mean.copy(), c)
    if precompute is None:
        precompute = rng.random() < 0.4
    if precompute and not singular:
        rv.precompute_cov_cholesky(damping_factor=0.0)
        kind += "+chol"
    return GRV(rv, mean, cov, kind)

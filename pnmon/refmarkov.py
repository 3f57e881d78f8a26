"""Independent reference for linear-Gaussian transitions (plain NumPy)."""
import numpy as np
import scipy.linalg as sl


def spd(rng, n, lo=0.3):
    A = rng.standard_normal((n, n))
    return A @ A.T / n + np.diag(rng.uniform(lo, 1.5, n))


def forward(m, C, H, shift, R):
    S = H @ C @ H.T + R
    return H @ m + shift, S, C @ H.T


def backward(m, C, H, shift, R, mo, Co):
    """Condition x~N(m,C) on y = Hx+shift+N(0,R) being distributed as N(mo,Co)."""
    mf, S, cross = forward(m, C, H, shift, R)
    G = np.linalg.lstsq(S, cross.T, rcond=None)[0].T
    return m + G @ (mo - mf), C + G @ (Co - S) @ G.T, G


def van_loan(F, L, dt, diffusion=1.0, force=None):
    """Equivalent discretisation by composing many small Taylor/quadrature steps."""
    n = F.shape[0]
    Q = diffusion * L @ L.T
    # Phi(h), Q(h), s(h) by augmented matrix exponentials on a small step, then doubling
    k = max(0, int(np.ceil(np.log2(max(1e-12, np.linalg.norm(F, 1) * abs(dt)) / 0.05))))
    h = dt / 2**k
    A = np.eye(n)
    Qh = np.zeros((n, n))
    sh = np.zeros(n)
    f = np.zeros(n) if force is None else force
    # Taylor series of the three integrals
    term = np.eye(n)
    A = np.eye(n)
    B = np.zeros((n, n))  # int_0^h exp(Fs) ds
    for j in range(1, 16):
        B = B + term * (h / j)
        term = term @ F * (h / j)
        A = A + term
    sh = B @ f
    # Qh = int exp(Fs) Q exp(Fs)^T ds: Gauss-Legendre, 12 nodes
    x, w = np.polynomial.legendre.leggauss(12)
    for xi, wi in zip(x, w):
        s = h * (xi + 1) / 2
        E = np.eye(n)
        t = np.eye(n)
        for j in range(1, 16):
            t = t @ F * (s / j)
            E = E + t
        Qh = Qh + wi * h / 2 * (E @ Q @ E.T)
    for _ in range(k):
        Qh = Qh + A @ Qh @ A.T
        sh = sh + A @ sh
        A = A @ A
    return A, Qh, sh


def stable_drift(rng, n):
    F = rng.standard_normal((n, n))
    k = rng.integers(4)
    if k == 0:
        F = F - (np.max(np.linalg.eigvals(F).real) + 0.3) * np.eye(n)
    elif k == 1:
        F = np.diag(np.ones(n - 1), 1)
    elif k == 2:
        F = np.triu(F, 1) * 0.5
    return F


def joint(ts_models, m0, C0):
    """Joint mean/cov of x_0..x_N with x_{k+1}=A x_k + s + N(0,Q)."""
    n = len(m0)
    means = [m0]
    N = len(ts_models) + 1
    K = np.zeros((N * n, N * n))
    K[:n, :n] = C0
    for k, (A, Q, s) in enumerate(ts_models):
        means.append(A @ means[-1] + s)
        a, b = k * n, (k + 1) * n
        K[b : b + n, :b] = A @ K[a : a + n, :b]
        K[:b, b : b + n] = K[b : b + n, :b].T
        K[b : b + n, b : b + n] = A @ K[a : a + n, a : a + n] @ A.T + Q
    return np.concatenate(means), K


def condition(mean, K, H, y, R):
    """Batch conditioning of N(mean,K) on y = H x + N(0,R)."""
    S = H @ K @ H.T + R
    G = sl.solve(S, H @ K, assume_a="sym").T
    return mean + G @ (y - H @ mean), K - G @ H @ K

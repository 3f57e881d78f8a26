"""A02: problinsolve ends truthfully, and its beliefs are the conditioned prior at every iteration."""
import warnings

import numpy as np
import scipy.sparse
import scipy.sparse.linalg
from probnum import linops, randvars
from probnum.linalg import problinsolve

from pnmon.core import Skip, scenario
from pnmon.props.a01 import close, dense, spd

P = "A02"


def wrapA(rng, A):
    k = str(rng.choice(["array", "linop", "sparse", "scipy-linop", "lambda", "fortran"]))
    if k == "array":
        return k, A.copy()
    if k == "linop":
        return k, linops.aslinop(A)
    if k == "sparse":
        return k, scipy.sparse.csr_matrix(A)
    if k == "scipy-linop":
        return k, scipy.sparse.linalg.aslinearoperator(A)
    if k == "fortran":
        return k, np.asfortranarray(A)
    n = len(A)
    return k, linops.LambdaLinearOperator(shape=(n, n), dtype=A.dtype, matmul=lambda x: A @ x)


def system(rng, n):
    u = rng.random()
    if u < 0.7:
        A = spd(rng, n, 0.5, float(rng.choice([1.0, 5.0, 100.0])))
    elif u < 0.85:
        A = np.diag(rng.uniform(0.5, 5, n))
    else:
        A = spd(rng, n, 0.5, 5.0) * 10 ** rng.uniform(-3, 3)
    return (A + A.T) / 2


def posterior(M0, W0, S, Y):
    """Symmetric Gaussian matrix law N(M0, W0 (x)_s W0) given M S = Y."""
    D = Y - M0 @ S
    G = S.T @ W0 @ S
    U = np.linalg.solve(G, S.T @ W0).T
    return M0 + D @ U.T + U @ D.T - U @ (S.T @ D) @ U.T, W0 - U @ S.T @ W0


def quiet(f):
    import contextlib
    import io
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        out = f()
    return out, [str(x.message) for x in w]


def run(mon, rng, A, b, kw, limit=None):
    rec = []

    def cb(xk, Ak, Ainvk, sk, yk, alphak, resid, **kwargs):
        rec.append(dict(x=xk, A=Ak, H=Ainvk, s=np.array(sk), y=np.array(yk), r=np.array(resid), alpha=float(alphak)))

    ak, Aw = wrapA(rng, A)
    b0 = b.copy()
    (x, Ah, Hh, info), w = quiet(lambda: problinsolve(Aw, b, callback=cb, **kw))
    mon.check("inputs-intact", np.array_equal(b, b0) and (ak not in ("array", "fortran") or np.array_equal(Aw, A)))
    return x, Ah, Hh, info, rec, w


def crit_ok(mon, A, b, x, info, rec, atol, rtol, maxiter, w):
    n = len(A)
    r = np.linalg.norm(A @ np.asarray(x.mean).ravel() - b.ravel())
    bn = np.linalg.norm(b)
    slack = 1e-9 * (1 + bn)
    mon.check("iterations", info["iter"] == len(rec) and info["iter"] <= maxiter and info["maxiter"] == maxiter, f"{info} with {len(rec)} callbacks")
    mon.check("residual-truthful", abs(info["resid_l2norm"] - r) <= slack + 1e-6 * r, f"reported {info['resid_l2norm']}, true {r}")
    c = info["conv_crit"]
    tr = x.cov.trace() if hasattr(x.cov, "trace") else np.trace(x.cov)
    mon.check("trace-truthful", abs(info["trace_sol_cov"] - tr) <= 1e-6 * (abs(tr) + 1e-6), f"reported {info['trace_sol_cov']}, trace of the covariance {tr}")
    ok = {"maxiter": info["iter"] >= maxiter, "resid_atol": r <= atol + slack, "resid_rtol": r <= rtol * bn + slack,
          "tracecov_atol": tr <= (atol + 1e-9) ** 2 * (1 + 1e-6), "tracecov_rtol": tr <= (rtol * bn + 1e-9) ** 2 * (1 + 1e-6)}
    mon.check("criterion-truthful", ok.get(c, False), f"criterion {c}: residual {r}, trace {tr}, iterations {info['iter']}")
    mon.check("warns-at-limit", (c == "maxiter") == any("maximum number" in m for m in w))


@scenario(P, "posterior", quick=600)
def post(mon, rng):
    n = int(rng.integers(1, 9))
    A = system(rng, n)
    xs = rng.standard_normal(n) if rng.random() < 0.93 else np.zeros(n)
    b = A @ xs
    if rng.random() < 0.15 and n > 1:
        # right-hand sides with vanishing entries
        b = np.where(rng.random(n) < 0.5, 0.0, rng.standard_normal(n))
        b[int(rng.integers(n))] = 1.0
        xs = np.linalg.solve(A, b)
    prior = str(rng.choice(["default", "x0", "Ainv0-array", "Ainv0-linop", "Ainv0-rv", "Ainv0-rv-W", "A0-rv", "both"], p=[0.25, 0.2, 0.1, 0.1, 0.1, 0.05, 0.1, 0.1]))
    maxiter = 10 * n if rng.random() < 0.5 else int(rng.integers(0, n + 1))
    atol, rtol = float(rng.choice([1e-6, 1e-3, 1e-9])), float(rng.choice([1e-6, 1e-2, 1e-9]))
    cal = None if rng.random() < 0.7 else 0
    col = bool(rng.random() < 0.2)
    mon.describe(n=n, prior=prior, maxiter=maxiter, atol=atol, rtol=rtol, cal=cal, col=col, x=xs.round(4).tolist())
    I = np.eye(n)
    H0 = spd(rng, n, 0.5, 2)
    kw = dict(atol=atol, rtol=rtol, maxiter=maxiter)
    if maxiter == 10 * n and rng.random() < 0.3:
        del kw["maxiter"]  # the documented default
    if cal is not None:
        kw["calibration"] = cal
    MA, WA, MH, WH = I, A, I, I
    start = None
    bb = b[:, None].copy() if col else b.copy()
    if prior == "x0":
        x0 = rng.standard_normal(n) if rng.random() < 0.8 else xs.copy()
        if rng.random() < 0.1:
            x0 = np.zeros(n)
        kw["x0"] = x0.copy() if rng.random() < 0.7 else x0[:, None].copy()
        MA = MH = WH = None
        start = x0
    elif prior.startswith("Ainv0"):
        MH, WH = H0, H0
        MA = np.linalg.inv(H0)
        if prior == "Ainv0-array":
            kw["Ainv0"] = H0.copy()
        elif prior == "Ainv0-linop":
            kw["Ainv0"] = linops.aslinop(H0)
        else:
            if prior.endswith("W"):
                WH = spd(rng, n, 0.5, 2)
            kw["Ainv0"] = randvars.Normal(linops.aslinop(H0), linops.SymmetricKronecker(linops.aslinop(WH)))
    elif prior == "A0-rv":
        MA = np.linalg.inv(H0)
        WA = MA
        kw["A0"] = randvars.Normal(linops.aslinop(MA), linops.SymmetricKronecker(linops.aslinop(WA)))
        MH, WH = H0, H0
    elif prior == "both":
        MA, WA, MH, WH = np.linalg.inv(H0), A, H0, H0
        kw["A0"] = randvars.Normal(linops.aslinop(MA), linops.SymmetricKronecker(linops.aslinop(WA)))
        kw["Ainv0"] = randvars.Normal(linops.aslinop(MH), linops.SymmetricKronecker(linops.aslinop(WH)))
    x, Ah, Hh, info, rec, w = run(mon, rng, A, bb, kw)
    mon.check("finite", np.isfinite(np.asarray(x.mean)).all() and np.isfinite(info["resid_l2norm"]), f"{x.mean}")
    mon.check("shape", x.shape == bb.shape, f"solution {x.shape} for a right-hand side {bb.shape}")
    crit_ok(mon, A, b, x, info, rec, atol, rtol, maxiter, w)
    if prior != "Ainv0-rv-W" and maxiter >= 10 * n:
        mon.check("terminates", info["iter"] <= 2 * n + 2, f"{info['iter']} iterations for {n} unknowns")
        if info["conv_crit"].startswith("resid"):
            e = np.linalg.norm(np.asarray(x.mean).ravel() - xs)
            lim = max(atol, rtol * np.linalg.norm(b)) / np.linalg.eigvalsh(A)[0]
            mon.check("solution", e <= lim * (1 + 1e-6) + 1e-8, f"error {e} above {lim}")
    if MH is None:
        if not rec:
            return
        if abs(b @ start) < 1e-12:
            return
        # the prior built from a guess reproduces it (up to the documented sign flip)
        g = start if b @ start >= 0 else -start
        al = 0.5 * (b @ g) / (b @ b)
        v = g - al * b
        MH = al * I + 2 / (b @ g) * np.outer(v, v)
        WH = MH
        MA = np.linalg.inv(MH)
        if np.linalg.cond(MH) > 1e5:
            return
        close(mon, "guess-prior", MH @ b, g, 1e-8)
    # every iteration: the beliefs are the prior conditioned on all pairs A s = y so far
    S = np.zeros((n, 0))
    Y = np.zeros((n, 0))
    xk = np.asarray(kw["x0"]).ravel() if "x0" in kw else MH @ b
    for i, q in enumerate(rec):
        s, y = q["s"].reshape(n), q["y"].reshape(n)
        close(mon, "observation", y, A @ s, 1e-10)
        xk = xk + q["alpha"] * s
        close(mon, "iterate", np.asarray(q["x"].mean).ravel(), xk, 1e-9, f"iteration {i}")
        close(mon, "residual", q["r"].ravel(), A @ xk - b, 1e-7)
        mon.check("line-search", abs(s @ (A @ xk - b)) <= 1e-7 * (1 + np.linalg.norm(s) * np.linalg.norm(b)), f"iteration {i}")
        sc = np.linalg.norm(s)
        S, Y = np.column_stack([S, s / sc]), np.column_stack([Y, y / sc])
        if np.linalg.cond(S.T @ WA @ S) > 1e5 or np.linalg.cond(Y.T @ WH @ Y) > 1e5 or np.linalg.norm(q["r"]) < 1e-8 * np.linalg.norm(b):
            break
        mA, wA = posterior(MA, WA, S, Y)
        mH, wH = posterior(MH, WH, Y, S)
        close(mon, "A-mean", dense(q["A"].mean), mA, 1e-5, f"iteration {i}")
        close(mon, "Ainv-mean", dense(q["H"].mean), mH, 1e-5, f"iteration {i}")
        close(mon, "A-cov", dense(q["A"].cov.A), wA, 1e-5, f"iteration {i} of {len(rec)}")
        close(mon, "Ainv-cov", dense(q["H"].cov.A), wH, 1e-5, f"iteration {i} of {len(rec)}")
        Wb = wH @ b
        close(mon, "x-cov", dense(q["x"].cov), 0.5 * (b @ Wb * wH + np.outer(Wb, Wb)), 1e-5 * (1 + b @ b), f"iteration {i} of {len(rec)}")
        mon.event("conditioned", 1)
    if rec:
        mon.check("returns-last", np.array_equal(np.asarray(x.mean).ravel(), np.asarray(rec[-1]["x"].mean).ravel()))
        close(mon, "returns-last-belief", dense(Hh.cov.A), dense(rec[-1]["H"].cov.A), 1e-12)
    else:
        close(mon, "prior-returned", dense(Hh.mean), MH, 1e-9)
        close(mon, "prior-returned", dense(Hh.cov.A), WH, 1e-9)


@scenario(P, "calibration", quick=200)
def calib(mon, rng):
    """Calibrated beliefs: certain where explored, and scaled as asked everywhere else."""
    n = int(rng.integers(3, 9))
    A = spd(rng, n, 0.5, 5.0)
    b = A @ rng.standard_normal(n)
    cal = [0.5, 2.0, 1.0, "adhoc", "weightedmean"][int(rng.integers(5))]
    maxiter = int(rng.integers(2, n))
    pr = str(rng.choice(["default", "Ainv0", "x0"]))
    mon.describe(n=n, cal=cal, maxiter=maxiter, prior=pr, b=b.round(4).tolist())
    kw = dict(calibration=cal, maxiter=maxiter)
    if pr == "Ainv0":
        kw["Ainv0"] = linops.aslinop(spd(rng, n, 0.5, 2))
    elif pr == "x0":
        kw["x0"] = np.linalg.solve(A, b) + 0.3 * rng.standard_normal(n)
        if kw["x0"] @ b < 0.1 * np.linalg.norm(b):
            raise Skip("guess orthogonal to the right-hand side")
    x, Ah, Hh, info, rec, w = run(mon, rng, A, b, kw)
    crit_ok(mon, A, b, x, info, rec, 1e-6, 1e-6, maxiter, w)
    if info["iter"] < 2 or info["resid_l2norm"] < 1e-3 * np.linalg.norm(b):
        raise Skip("solved at once")
    S = np.column_stack([q["s"] for q in rec])
    Y = A @ S
    WA, WH = dense(Ah.cov.A), dense(Hh.cov.A)
    sc = np.linalg.norm(S, axis=0)
    close(mon, "certain-where-explored", WA @ (S / sc), 0 * S, 1e-6, "A")
    close(mon, "certain-where-explored", WH @ (Y / np.linalg.norm(Y, axis=0)), 0 * S, 1e-6, "inverse")
    logR = np.log(np.einsum("ik,ik->k", S, Y)) - np.log(sc**2)
    if not isinstance(cal, str):
        phi, psi = cal, 1 / cal
    elif cal == "adhoc" or len(rec) <= 2:
        phi = np.exp(logR[-1])
        psi = 1 / phi
    else:
        phi = psi = None
    QS, QY = np.linalg.qr(S)[0], np.linalg.qr(Y)[0]
    PS, PY = np.eye(n) - QS @ QS.T, np.eye(n) - QY @ QY.T
    if phi is None:
        phi, psi = np.trace(WA) / (n - len(rec)), np.trace(WH) / (n - len(rec))
        mon.check("scales-inverse", abs(phi * psi - 1) < 1e-6, f"{phi} * {psi}")
    close(mon, "scaled-elsewhere", WA, phi * PS, 1e-6, f"A: {cal}")
    close(mon, "scaled-elsewhere", WH, psi * PY, 1e-6, f"inverse: {cal}")


@scenario(P, "several-rhs", quick=150)
def several(mon, rng):
    n, m = int(rng.integers(2, 25)), int(rng.integers(2, 5))
    A = spd(rng, n, 0.5, float(rng.choice([1.0, 5.0])))
    X = rng.standard_normal((n, m))
    if rng.random() < 0.3:
        X[:, 1] = X[:, 0]
    if rng.random() < 0.2:
        X[:, int(rng.integers(m))] = 0.0
    B = A @ X
    mon.describe(n=n, m=m, X=X.round(3).tolist() if n < 5 else None)
    ak, Aw = wrapA(rng, A)
    tol = float(rng.choice([1e-6, 1e-2, 1e-10]))
    (x, Ah, Hh, info), w = quiet(lambda: problinsolve(Aw, B, rtol=tol, atol=1e-14))
    mon.check("shape", x.shape == B.shape)
    R = np.linalg.norm(A @ x.mean - B, axis=0)
    for i in range(m):
        mon.check("every-column-solved", R[i] <= tol * np.linalg.norm(B[:, i]) + 1e-9 or info["conv_crit"].startswith("tracecov"),
                  f"relative residual {R[i] / np.linalg.norm(B[:, i])} of column {i}, tolerance {tol}, {info['conv_crit']}")
    C = dense(x.cov)
    mon.check("cov", C.shape == (n * m, n * m) and np.linalg.eigvalsh((C + C.T) / 2).min() > -1e-6 * (1 + np.abs(C).max()))


@scenario(P, "refusals", quick=30)
def refuse(mon, rng):
    n = int(rng.integers(2, 5))
    A, b = spd(rng, n), rng.standard_normal(n)
    cases = [
        dict(A=A, b=np.ones(n + 1)), dict(A=np.ones((n, n + 1)), b=b), dict(A=A, b=b, x0=np.ones(n + 1)),
        dict(A=A, b=b, Ainv0=np.eye(n + 1)), dict(A="A", b=b), dict(A=A, b="b"), dict(A=A, b=b, assume_A="nonsense"),
        dict(A=A, b=b, calibration=-1.0), dict(A=A, b=b, assume_A="sympos", A0=np.eye(n)),
    ]
    i = int(rng.integers(len(cases)))
    mon.describe(i=i, n=n)
    try:
        quiet(lambda: problinsolve(**cases[i]))
    except ValueError:
        mon.check("refused", True)
    else:
        mon.check("refused", False, f"case {i}")

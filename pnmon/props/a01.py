"""A01: probabilistic linear solvers condition exactly on what they observed."""
import numpy as np
from probnum import linops, problems, randvars
from probnum.linalg import solvers
from probnum.linalg.solvers import belief_updates, beliefs, information_ops, policies, stopping_criteria
from probnum.utils.linalg import double_gram_schmidt, gram_schmidt, modified_gram_schmidt

from probnum import LambdaStoppingCriterion

from pnmon.core import Skip, scenario

P = "A01"


def spd(rng, n, lo=0.5, hi=5.0):
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    return (q * rng.uniform(lo, hi, n)) @ q.T


def general(rng, n):
    """Non-symmetric, condition number below 12."""
    u, _ = np.linalg.qr(rng.standard_normal((n, n)))
    v, _ = np.linalg.qr(rng.standard_normal((n, n)))
    return (u * rng.uniform(0.5, 6.0, n)) @ v.T


def wrap(rng, A):
    k = str(rng.choice(["array", "linop"]))
    return k, (A if k == "array" else linops.aslinop(A))


def dense(M):
    return M.todense() if isinstance(M, linops.LinearOperator) else np.asarray(M)


def condition(m, C, H, y, noise=0.0):
    """Law of x ~ N(m, C) given H x + noise = y (noise-free data may be redundant)."""
    S = H @ C @ H.T + noise * np.eye(len(y))
    w, V = np.linalg.eigh((S + S.T) / 2)
    keep = w > 1e-11 * max(w.max(), 1e-300)
    Si = (V[:, keep] / w[keep]) @ V[:, keep].T
    K = C @ H.T @ Si
    return m + K @ (y - H @ m), C - K @ H @ C


def close(mon, rule, got, want, tol, msg=""):
    e = np.abs(np.asarray(got) - np.asarray(want)).max()
    s = 1 + np.abs(np.asarray(want)).max()
    mon.check(rule, e <= tol * s, f"{msg}: deviation {e:.3g} at scale {s:.3g}")


def spread(acts):
    """Condition number of the normalised actions, repeated ones set aside."""
    S = np.stack([a / np.linalg.norm(a) for a in acts])
    w = np.linalg.svd(S, compute_uv=False)
    w = w[w > 1e-9 * w[0]]
    return w[0] / w[-1]


class Scripted(policies.LinearSolverPolicy):
    """Plays given actions; the real belief update has to learn exactly what they reveal."""

    def __init__(self, acts):
        self.acts = acts

    def __call__(self, solver_state, rng=None):
        return self.acts[solver_state.step].copy()


def actions(rng, n, k):
    out = []
    for i in range(k):
        u = rng.random()
        if u < 0.25:
            s = np.zeros(n)
            s[rng.integers(n)] = 1.0
        elif u < 0.35 and out:
            s = out[int(rng.integers(len(out)))] * float(rng.choice([1.0, -2.0]))  # nothing new
        else:
            s = rng.standard_normal(n) * 10 ** rng.uniform(-2, 2)
        out.append(s)
    return out


@scenario(P, "solution-based", quick=350)
def solution_based(mon, rng):
    n = int(rng.integers(1, 7))
    k = int(rng.integers(1, n + 3))
    noise = float(rng.choice([0.0, 0.0, 0.1]))
    A = spd(rng, n) if rng.random() < 0.5 else general(rng, n)
    x = rng.standard_normal(n)
    b = A @ x
    m0, C0 = rng.standard_normal(n), spd(rng, n, 0.3, 2)
    ak, Aw = wrap(rng, A)
    ck = str(rng.choice(["array", "linop", "scaling"]))
    if ck == "scaling":
        C0 = float(rng.uniform(0.5, 2)) * np.eye(n)
    prior = beliefs.LinearSystemBelief(
        x=randvars.Normal(m0, C0 if ck == "array" else linops.aslinop(C0) if ck == "linop" else linops.Scaling(C0[0, 0], shape=(n, n))),
        Ainv=None if rng.random() < 0.5 else randvars.Constant(np.zeros((n, n))))
    acts = actions(rng, n, k)
    mon.describe(n=n, k=k, noise=noise, A=ak, C=ck, acts=np.stack(acts).round(4).tolist() if n < 4 else None)
    rep = any(np.linalg.matrix_rank(np.stack(acts[: i + 1])) < i + 1 for i in range(k))
    if noise == 0.0 and spread(acts) > 1e4:
        raise Skip("nearly dependent actions")
    solver = solvers.ProbabilisticLinearSolver(
        policy=Scripted(acts), information_op=information_ops.ProjectedResidualInformationOp(),
        belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(noise_var=noise),
        stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(k))
    step = 0
    for st in solver.solve_iterator(prior=prior, problem=problems.LinearSystem(Aw, b), rng=rng):
        mon.check("steps", st.step == step)
        close(mon, "residual", st.residual, b - A @ np.asarray(st.belief.x.mean), 1e-9, f"step {step}")
        if step:
            S = np.stack(acts[:step])
            if noise == 0.0:
                D = S / np.linalg.norm(S, axis=1)[:, None]
                wm, wC = condition(m0, C0, D @ A, D @ b)
            else:
                wm, wC = m0, C0
                for s in S:
                    wm, wC = condition(wm, wC, (s @ A)[None], np.array([s @ b]), noise)
            close(mon, "mean", st.belief.x.mean, wm, 1e-6, f"after {step} observations (redundant: {rep})")
            close(mon, "cov", dense(st.belief.x.cov), wC, 1e-6, f"after {step} observations (redundant: {rep})")
            Ai = dense(st.belief.Ainv.mean)
            close(mon, "inverse-estimate", Ai, C0 - wC, 1e-6, f"after {step} observations")
        step += 1
    mon.check("all-actions", step == k + 1, f"{step} states for {k} iterations")


@scenario(P, "matrix-based", quick=350)
def matrix_based(mon, rng):
    """Beliefs over A and its inverse are conditioned on A s = y and inv(A) y = s."""
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, n + 2))
    sym = bool(rng.random() < 0.5)
    A = spd(rng, n) if sym else general(rng, n)
    b = A @ rng.standard_normal(n)
    acts = actions(rng, n, k)
    M0, H0 = (spd(rng, n), spd(rng, n, 0.3, 2)) if sym else (general(rng, n), rng.standard_normal((n, n)))
    Vs = [spd(rng, n, 0.4, 2) for _ in range(4)]
    if sym:
        cA, cH = linops.SymmetricKronecker(linops.aslinop(Vs[0])), linops.SymmetricKronecker(linops.aslinop(Vs[1]))
        upd = belief_updates.matrix_based.SymmetricMatrixBasedLinearBeliefUpdate()
    else:
        cA = linops.Kronecker(linops.aslinop(Vs[0]), linops.aslinop(Vs[1]))
        cH = linops.Kronecker(linops.aslinop(Vs[2]), linops.aslinop(Vs[3]))
        upd = belief_updates.matrix_based.MatrixBasedLinearBeliefUpdate()
    ak, Aw = wrap(rng, A)
    withb = bool(rng.random() < 0.5)
    # the belief about the right-hand side: the problem's, none, or the user's own
    bk = str(rng.choice(["given", "own"] if withb else ["given", "own", "none"]))
    bb = b if bk != "own" else b + rng.standard_normal(n)
    mon.describe(n=n, k=k, sym=sym, A=ak, b=withb, rhs=bk, acts=np.stack(acts).round(4).tolist())
    if spread(acts) > 1e4:
        raise Skip("nearly dependent actions")
    prior = beliefs.LinearSystemBelief(
        A=randvars.Normal(linops.aslinop(M0), cA), Ainv=randvars.Normal(linops.aslinop(H0), cH),
        x=None if withb else randvars.Constant(np.zeros(n)), b=None if bk == "none" else randvars.Constant(bb))
    solver = solvers.ProbabilisticLinearSolver(policy=Scripted(acts), information_op=information_ops.MatVecInformationOp(), belief_update=upd,
                                               stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(k))
    dA, dH = cA.todense(), cH.todense()
    # symmetric matrices: the law lives on their subspace, onto which the dense form is projected
    T = np.eye(n * n).reshape(n, n, n, n).transpose(1, 0, 2, 3).reshape(n * n, n * n)
    Pr = 0.5 * (np.eye(n * n) + T) if sym else np.eye(n * n)
    dA, dH = Pr @ dA @ Pr, Pr @ dH @ Pr
    step = 0
    for st in solver.solve_iterator(prior=prior, problem=problems.LinearSystem(Aw, b), rng=rng):
        if step:
            S = np.stack(acts[:step], axis=1)
            Y = A @ S
            for nm, rv, m, C, U, Z in (("A", st.belief.A, M0, dA, S, Y), ("Ainv", st.belief.Ainv, H0, dH, Y, S)):
                # vec (row-major) of X U = (I kron U^T) vec(X)
                H = np.kron(np.eye(n), U.T)
                sc = np.linalg.norm(U, axis=0)
                D = np.kron(np.ones(n), 1 / sc)
                wm, wC = condition(m.ravel(), C, D[:, None] * H, D * Z.ravel())
                close(mon, f"{nm}-mean", dense(rv.mean).ravel(), wm, 1e-5, f"after {step} observations, symmetric {sym}")
                close(mon, f"{nm}-cov", Pr @ dense(rv.cov) @ Pr, wC, 1e-5, f"after {step} observations, symmetric {sym}")
            xm = np.asarray(st.belief.x.mean)
            close(mon, "induced-solution", xm, dense(st.belief.Ainv.mean) @ bb, 1e-8, f"right-hand side {bk}")
        step += 1
    mon.check("all-actions", step == k + 1)


@scenario(P, "solvers", quick=250)
def full(mon, rng):
    """The ready-made solvers stop when, and only when, their criterion holds; CG needs at most n steps."""
    n = int(rng.integers(1, 12))
    A = spd(rng, n, 0.5, float(rng.choice([1.0, 5.0, 50.0])))
    xs = rng.standard_normal(n)
    if rng.random() < 0.1:
        xs = np.zeros(n)
    b = A @ xs
    which = str(rng.choice(["BayesCG", "BayesCG-Ainv", "Kaczmarz", "SymMatrix", "Matrix"]))
    atol, rtol = float(rng.choice([1e-5, 1e-3, 0.0])), float(rng.choice([1e-6, 1e-3]))
    maxiter = None if rng.random() < 0.6 else int(rng.integers(0, n + 2))
    ak, Aw = wrap(rng, A)
    mon.describe(which=which, n=n, atol=atol, rtol=rtol, maxiter=maxiter, A=ak, x=xs.round(4).tolist())
    crit = stopping_criteria.MaxIterationsStoppingCriterion(maxiter) | stopping_criteria.ResidualNormStoppingCriterion(atol=atol, rtol=rtol)
    re = rng.choice(["none", "both"])
    pol = policies.ConjugateGradientPolicy(**({} if re == "none" else dict(reorthogonalization_fn_residual=double_gram_schmidt)))
    if which.startswith("BayesCG"):
        s = solvers.BayesCG(stopping_criterion=crit)
        C = linops.aslinop(np.linalg.inv(A)) if which.endswith("Ainv") else linops.Identity(n)
        prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), C))
    elif which == "Kaczmarz":
        s = solvers.ProbabilisticKaczmarz(stopping_criterion=crit)
        prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), linops.Identity(n)))
    elif which == "SymMatrix":
        s = solvers.SymMatrixBasedPLS(policy=pol, stopping_criterion=crit)
        prior = beliefs.LinearSystemBelief(
            A=randvars.Normal(linops.Identity(n), linops.SymmetricKronecker(linops.aslinop(A))),
            Ainv=randvars.Normal(linops.Identity(n), linops.SymmetricKronecker(linops.Identity(n))), b=randvars.Constant(b))
    else:
        s = solvers.MatrixBasedPLS(policy=pol, stopping_criterion=crit)
        prior = beliefs.LinearSystemBelief(
            A=randvars.Normal(linops.Identity(n), linops.Kronecker(linops.Identity(n), linops.Identity(n))),
            Ainv=randvars.Normal(linops.Identity(n), linops.Kronecker(linops.Identity(n), linops.Identity(n))), b=randvars.Constant(b))
    seed = int(rng.integers(1 << 30))
    belief, st = s.solve(prior=prior, problem=problems.LinearSystem(Aw, b), rng=np.random.default_rng(seed))
    res = [None if r is None else np.linalg.norm(r) for r in st.residuals]
    thr = max(atol, rtol * np.linalg.norm(b))
    lim = 10 * n if maxiter is None else maxiter
    true = np.linalg.norm(b - A @ np.asarray(belief.x.mean))
    mon.check("last-belief", res[-1] is None or abs(true - res[-1]) <= 1e-9 * (1 + true), "the returned belief is not the one of the last state")
    mon.check("stops-when-allowed", true <= thr * (1 + 1e-6) + 1e-12 or st.step >= lim, f"stopped at step {st.step}/{lim} with residual {true} > {thr}")
    for i, r in enumerate(res[:-1]):
        if r is None:  # not evaluated when the criterion was decided before
            continue
        mon.check("continues-while-needed", r > thr * (1 - 1e-6) - 1e-12 and i < lim, f"did not stop at step {i}/{lim} with residual {r} <= {thr}")
    mon.check("counts", len(st.residuals) == st.step + 1 and len(st.actions) == st.step + 1 and len(st.observations) == st.step + 1)
    if which.startswith("BayesCG") and (maxiter is None or maxiter >= n + 1):
        mon.check("finite-termination", st.step <= n + 1, f"{st.step} steps for a well-conditioned system of size {n}")
    if which == "Kaczmarz" and st.step and st.step <= 3 * n:
        for a in st.actions[:-1]:
            mon.check("unit-vectors", np.count_nonzero(a) == 1 and np.max(a) == 1.0)
    if which != "Kaczmarz" and st.step:
        close(mon, "first-action", st.actions[0], b - A @ np.asarray(prior.x.mean), 1e-9, "the first direction is the residual")
    again, st2 = s.solve(prior=prior, problem=problems.LinearSystem(Aw, b), rng=np.random.default_rng(seed))
    mon.check("reproducible", st2.step == st.step and np.array_equal(np.asarray(again.x.mean), np.asarray(belief.x.mean)))
    mon.event("iterations", st.step)
    if which == "Kaczmarz" and n > 2 and st.step > 30:
        # the rows drawn late in the run also come from the given generator
        _, st3 = s.solve(prior=prior, problem=problems.LinearSystem(Aw, b), rng=np.random.default_rng(seed + 1))
        for k in (0, 20):
            t1 = [int(np.argmax(a)) for a in st.actions[k:k + 30] if a is not None]
            t3 = [int(np.argmax(a)) for a in st3.actions[k:k + 30] if a is not None]
            m = min(len(t1), len(t3))
            if m * np.log(n) > 20:
                mon.check("draws-from-the-generator", t1[:m] != t3[:m], f"rows {t1} for two different seeds from step {k}")


@scenario(P, "cg-policy", quick=200)
def cg(mon, rng):
    """Conjugate-gradient directions are conjugate in the inner product of the belief."""
    n = int(rng.integers(2, 15))
    A = spd(rng, n, 0.5, 5.0)
    b = A @ rng.standard_normal(n)
    exact = bool(rng.random() < 0.5)
    C = np.linalg.inv(A) if exact else spd(rng, n, 0.5, 2) if rng.random() < 0.0 else np.eye(n)
    fn = [gram_schmidt, modified_gram_schmidt, double_gram_schmidt][int(rng.integers(3))]
    which = str(rng.choice(["none", "residual", "action", "both"]))
    kw = {}
    if which in ("residual", "both"):
        kw["reorthogonalization_fn_residual"] = fn
    if which in ("action", "both"):
        kw["reorthogonalization_fn_action"] = fn
    mon.describe(n=n, exact=exact, which=which, fn=fn.__name__, b=b.round(4).tolist())
    s = solvers.ProbabilisticLinearSolver(
        policy=policies.ConjugateGradientPolicy(**kw), information_op=information_ops.ProjectedResidualInformationOp(),
        belief_update=belief_updates.solution_based.ProjectedResidualBeliefUpdate(),
        stopping_criterion=stopping_criteria.MaxIterationsStoppingCriterion(n) | stopping_criteria.ResidualNormStoppingCriterion(atol=1e-7, rtol=0.0))
    ak, Aw = wrap(rng, A)
    prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), linops.aslinop(C)))
    belief, st = s.solve(prior=prior, problem=problems.LinearSystem(Aw, b))
    S = np.stack(st.actions[:-1])
    G = S @ A @ C @ A.T @ S.T
    d = np.sqrt(np.diag(G))
    R = G / np.outer(d, d) - np.eye(len(d))
    mon.check("conjugate", np.abs(R).max() < 1e-4, f"correlation of directions {np.abs(R).max():.3g} after {len(d)} steps")
    r = np.stack(st.residuals[:-1])
    q = r @ r.T / np.outer(np.linalg.norm(r, axis=1), np.linalg.norm(r, axis=1)) - np.eye(len(r))
    mon.check("orthogonal-residuals", np.abs(q).max() < 1e-4, f"{np.abs(q).max():.3g}")
    close(mon, "solution", belief.x.mean, np.linalg.solve(A, b), 1e-5, f"after {st.step} steps")
    if exact:
        # conjugate gradients
        x, rr, p = np.zeros(n), b.copy(), b.copy()
        for k in range(st.step):
            al = rr @ rr / (p @ A @ p)
            close(mon, "cg-direction", st.actions[k] / np.linalg.norm(st.actions[k]), p / np.linalg.norm(p), 1e-4, f"step {k}")
            x = x + al * p
            rn = rr - al * A @ p
            p = rn + rn @ rn / (rr @ rr) * p
            rr = rn
        close(mon, "cg-iterate", belief.x.mean, x, 1e-5)


@scenario(P, "random-policy", quick=80)
def random_policy(mon, rng):
    n = int(rng.integers(2, 9))
    stepping = bool(rng.random() < 0.7)
    A = general(rng, n) * 10 ** rng.uniform(-1, 1, (n, 1))
    b = rng.standard_normal(n)
    prob = str(rng.choice(["uniform", "rownorm"]))
    rep = bool(rng.random() < 0.5)
    ak, Aw = wrap(rng, A)
    if prob == "rownorm":
        ak, Aw = "array", A
    mon.describe(n=n, prob=prob, replace=rep, A=ak, first=float(A[0, 0]))
    pol = policies.RandomUnitVectorPolicy(probabilities=prob, replace=rep)
    prior = beliefs.LinearSystemBelief(x=randvars.Normal(np.zeros(n), linops.Identity(n)))
    want = np.ones(n) / n if prob == "uniform" else np.sum(A**2, axis=1) / np.sum(A**2)
    r = np.random.default_rng(int(rng.integers(1 << 30)))
    N = 400
    cnt = np.zeros(n)
    for _ in range(N if rep else 1):
        st = solvers.LinearSolverState(problem=problems.LinearSystem(Aw, b), prior=prior)
        if rep:
            a = pol(st, r)
            mon.check("unit-vector", a.shape == (n,) and np.count_nonzero(a) == 1 and a.max() == 1)
            cnt[np.argmax(a)] += 1
        else:
            seen = []
            for _ in range(n - 1):
                a = pol(st, r)
                seen.append(int(np.argmax(a)))
                if stepping:
                    st.action = a
                    st.next_step()
            mon.check("without-replacement", len(set(seen)) == n - 1, f"drew {seen}")
    if rep:
        z = np.maximum(np.abs(cnt - N * want) - 3, 0) / np.sqrt(N * want * (1 - want) + 1)
        mon.check("probabilities", z.max() < 5.5, f"{prob}: frequencies {cnt / N}, expected {want}")
    try:
        policies.RandomUnitVectorPolicy(probabilities="nope")
    except ValueError:
        mon.check("refuses", True)
    else:
        mon.check("refuses", False)


@scenario(P, "criteria", quick=200)
def criteria(mon, rng):
    """Stopping criteria and their combinations are the Boolean expressions they denote."""
    n = int(rng.integers(1, 6))
    A = spd(rng, n)
    b = rng.standard_normal(n) * 10 ** rng.uniform(-3, 3)
    C = spd(rng, n) * 10 ** rng.uniform(-12, 0)
    m = np.linalg.solve(A, b) + rng.standard_normal(n) * 10 ** rng.uniform(-8, 0)
    V, W = spd(rng, n) * 10 ** rng.uniform(-8, 0), spd(rng, n) * 10 ** rng.uniform(-8, 0)
    prior = beliefs.LinearSystemBelief(
        x=randvars.Normal(m, linops.aslinop(C) if rng.random() < 0.5 else C),
        Ainv=randvars.Normal(linops.aslinop(np.eye(n)), linops.Kronecker(linops.aslinop(V), linops.aslinop(V))),
        A=randvars.Normal(linops.aslinop(A), linops.SymmetricKronecker(linops.aslinop(W))),
        b=randvars.Constant(b),
    )
    st = solvers.LinearSolverState(problem=problems.LinearSystem(A, b), prior=prior)
    for _ in range(int(rng.integers(0, 6))):
        st.next_step()
    res, bn = np.linalg.norm(b - A @ m), np.linalg.norm(b)
    atol, rtol, mi = 10 ** rng.uniform(-7, 0), 10 ** rng.uniform(-7, 0), int(rng.integers(0, 8))
    tr = np.trace(C)
    atoms = {
        "max": (stopping_criteria.MaxIterationsStoppingCriterion(mi), st.step >= mi),
        "max-default": (stopping_criteria.MaxIterationsStoppingCriterion(), st.step >= 10 * n),
        "res": (stopping_criteria.ResidualNormStoppingCriterion(atol=atol, rtol=rtol), res <= atol or res <= rtol * bn),
        "contr": (stopping_criteria.PosteriorContractionStoppingCriterion(qoi="x", atol=atol, rtol=rtol), np.sqrt(tr) <= atol or np.sqrt(tr) <= rtol * bn),
        "lambda": (LambdaStoppingCriterion(lambda s: s.step > mi), st.step > mi),
    }
    for q, M in (("Ainv", V), ("A", W)):
        t = np.trace(M)  # square root of the trace of the Kronecker product
        if min(abs(t / atol - 1), abs(t / (rtol * bn) - 1)) > 1e-6:
            atoms["contr-" + q] = (stopping_criteria.PosteriorContractionStoppingCriterion(qoi=q, atol=atol, rtol=rtol), t <= atol or t <= rtol * bn)
    mon.describe(n=n, atol=float(f"{atol:.2g}"), rtol=float(f"{rtol:.2g}"), mi=mi, step=st.step, res=float(f"{res:.3g}"), tr=float(f"{tr:.3g}"))

    def build(depth):
        if depth == 0 or rng.random() < 0.2:
            k = str(rng.choice(list(atoms)))
            return atoms[k][0], bool(atoms[k][1]), k
        op = str(rng.choice(["and", "or", "not"]))
        l, lv, ls = build(depth - 1)
        if op == "not":
            return ~l, not lv, f"~({ls})"
        r, rv, rs = build(depth - 1)
        return (l & r, lv and rv, f"({ls} & {rs})") if op == "and" else (l | r, lv or rv, f"({ls} | {rs})")

    # thresholds met exactly, and solved systems with vanishing tolerances
    atoms["res-equal"] = (stopping_criteria.ResidualNormStoppingCriterion(atol=np.linalg.norm(st.residual), rtol=0.0), True)
    atoms["res-below"] = (stopping_criteria.ResidualNormStoppingCriterion(atol=np.linalg.norm(st.residual) * (1 - 1e-6), rtol=0.0), np.linalg.norm(st.residual) == 0)
    D = 2.0 ** rng.integers(-2, 3, n)
    y = rng.integers(-3, 4, n).astype(float)
    done = solvers.LinearSolverState(problem=problems.LinearSystem(np.diag(D), D * y), prior=beliefs.LinearSystemBelief(x=randvars.Normal(y, np.eye(n))))
    for at, rt in ((0.0, 0.0), (0.0, 1e-5), (1e-5, 0.0)):
        mon.check("criterion-solved", bool(stopping_criteria.ResidualNormStoppingCriterion(atol=at, rtol=rt)(done)) is True, f"residual zero, tolerances {at}, {rt}")
    sure = solvers.LinearSolverState(problem=problems.LinearSystem(np.diag(D), D * y), prior=beliefs.LinearSystemBelief(x=randvars.Normal(y, np.zeros((n, n)))))
    mon.check("criterion-solved", bool(stopping_criteria.PosteriorContractionStoppingCriterion(qoi="x", atol=0.0, rtol=0.0)(sure)) is True, "no uncertainty left, tolerances zero")
    for k, (c, v) in atoms.items():
        mon.check("criterion", bool(c(st)) == bool(v), f"{k}: {bool(c(st))}, expected {v}")
    for _ in range(4):
        c, v, s = build(3)
        mon.check("combination", bool(c(st)) == v, f"{s}: {bool(c(st))}, expected {v}")


@scenario(P, "beliefs", quick=120)
def belief_checks(mon, rng):
    """Beliefs of inconsistent shapes are refused; consistent ones induce the solution."""
    n = int(rng.integers(2, 5))
    which = str(rng.choice(["ok", "none", "A-x", "A-b", "A-Ainv", "x-type", "A-type", "x-dim", "matrix-rhs"]))
    mon.describe(which=which, n=n)
    A, H = randvars.Constant(spd(rng, n)), randvars.Constant(rng.standard_normal((n, n)))
    b, x = randvars.Constant(rng.standard_normal(n)), randvars.Constant(rng.standard_normal(n))
    bad = {
        "none": dict(A=A, b=b),
        "A-x": dict(A=A, x=randvars.Constant(np.ones(n + 1))),
        "A-b": dict(A=A, x=x, b=randvars.Constant(np.ones(n + 1))),
        "A-Ainv": dict(A=A, Ainv=randvars.Constant(np.ones((n + 1, n + 1)))),
        "x-type": dict(x=np.ones(n)),
        "A-type": dict(x=x, A=np.eye(n)),
        "x-dim": dict(x=randvars.Constant(np.ones((n, 1, 1)))),
    }
    if which in bad:
        try:
            beliefs.LinearSystemBelief(**bad[which])
        except (TypeError, ValueError):
            mon.check("refused", True)
        else:
            mon.check("refused", False, f"{which} accepted")
        return
    if which == "matrix-rhs":
        b = randvars.Constant(rng.standard_normal((n, 2)))
    bl = beliefs.LinearSystemBelief(Ainv=H, A=A, b=b, hyperparams={"k": 3})
    close(mon, "induced-solution", bl.x.mean, H.mean @ b.mean, 1e-12)
    mon.check("hyperparameter", bl.hyperparameter("k") == 3)
    mon.check("accessors", bl.A is A and bl.Ainv is H and bl.b is b)

"""Random initial value problems with Jacobians and accurate reference solutions."""
import numpy as np
import scipy.integrate
from probnum import problems


class ODE:
    pass


def make(rng, kinds=("linear", "forced", "logistic", "pendulum", "lotka", "modulated", "quadrature")):
    o = ODE()
    o.kind = kind = str(rng.choice(kinds))
    o.t0 = float(rng.choice([0.0, 0.0, 1.5, -2.0]))
    T = float(rng.uniform(0.6, 2.0))
    o.tmax = o.t0 + T
    if kind in ("linear", "forced"):
        d = int(rng.integers(1, 4))
        A = rng.standard_normal((d, d)) - 0.8 * np.eye(d)
        b = rng.standard_normal(d) if kind == "forced" else np.zeros(d)
        w = float(rng.uniform(0.5, 2))
        o.f = lambda t, y: A @ y + b * np.sin(w * t)
        o.df = lambda t, y: A
        o.y0 = rng.standard_normal(d)
        o.linear = lambda t: (A, b * np.sin(w * t))
    elif kind == "logistic":
        a, K = float(rng.uniform(0.5, 3)), float(rng.uniform(0.8, 2))
        o.f = lambda t, y: a * y * (1 - y / K)
        o.df = lambda t, y: np.array([[a - 2 * a / K * y[0]]])
        o.y0 = np.array([float(rng.uniform(0.1, 0.8))])
    elif kind == "pendulum":
        g, c = float(rng.uniform(1, 4)), float(rng.uniform(0, 0.5))
        o.f = lambda t, y: np.array([y[1], -g * np.sin(y[0]) - c * y[1]])
        o.df = lambda t, y: np.array([[0, 1], [-g * np.cos(y[0]), -c]])
        o.y0 = rng.standard_normal(2)
    elif kind == "lotka":
        a, b, c, e = rng.uniform(0.4, 1.2, 4)
        o.f = lambda t, y: np.array([a * y[0] - b * y[0] * y[1], -c * y[1] + e * y[0] * y[1]])
        o.df = lambda t, y: np.array([[a - b * y[1], -b * y[0]], [e * y[1], -c + e * y[0]]])
        o.y0 = rng.uniform(0.5, 2, 2)
    elif kind == "modulated":
        w = float(rng.uniform(1, 3))
        o.f = lambda t, y: np.cos(w * t) * y - 0.1 * y**3
        o.df = lambda t, y: np.array([[np.cos(w * t) - 0.3 * y[0] ** 2]])
        o.y0 = np.array([float(rng.choice([-1, 1]) * rng.uniform(0.5, 1.5))])
    elif kind == "quadrature":
        w = float(rng.uniform(1, 3))
        o.f = lambda t, y: np.array([np.cos(w * t)]) + 0 * y
        o.df = lambda t, y: np.zeros((1, 1))
        o.y0 = np.array([float(rng.standard_normal())])
    o.dim = len(o.y0)
    o.nonautonomous = kind in ("forced", "modulated", "quadrature")
    return o


def ivp(o, with_df=True):
    return problems.InitialValueProblem(t0=o.t0, tmax=o.tmax, y0=o.y0, f=o.f, df=o.df if with_df else None)


def reference(o, ts):
    ts = np.asarray(ts, dtype=float)
    sol = scipy.integrate.solve_ivp(o.f, (o.t0, max(o.tmax, ts.max()) + 1e-9), o.y0, method="DOP853", atol=1e-12, rtol=1e-12,
                                    dense_output=True)
    return sol.sol(ts).T

"""Fill known_findings.json["fixed"] from the fix: commits of /repo (development tool)."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [
    (r"problinsolve|several right-hand", "A02"), (r"row-norm|linear solvers", "A01"), (r"[Qq]uadrature", "Q02"),
    (r"sum_polynomials|quadprob", "Z01"), (r"car_tracking|ornstein|logistic", "Z02"), (r"configuration", "C01"),
    (r"orthogonalising|as_colvec|Cholesky update", "U01"),
    (r"stale|Runge-Kutta|perturbed|initialisation", "D03"),
    (r"dynamic diffusion of ODE|smoothed ODE|regression problems of ODE|prior predicts exactly|non-autonomous", "D02"),
    (r"first step|adaptive steps|ODE solvers", "D01"),
    (r"[Pp]article", "S04"), (r"iterated|unscented|nonlinear Gaussian", "S03"),
    (r"posterior samples|prior samples|diffusion|sampling Markov", "S02"), (r"Kalman filter evaluated|interpolating a smoothing", "S01"),
    (r"SDE|integrator", "M02"), (r"[Cc]ovariance function|Matern|covariance operators", "K01"), (r"function|process", "F01"),
    (r"index|reshap|transposing a random|transposed random|transposed with negative", "R03"),
    (r"shape of samples", "R02"), (r"normal random variable|linear-operator covariance", "R01"), (r"categorical|entropy|SciPy|random variables", "R02"),
    (r"Cholesky|eigenvalues|determinant|inverse", "L02"), (r"", "L01"),
]
def prop(s):
    return next(p for r, p in RULES if re.search(r, s))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        fixed.append(f"fixed: property={prop(s[5:])} {h} {s[5:]}")
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p)); d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
print("\n".join(fixed))

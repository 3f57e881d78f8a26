"""Monitor core: events, verdicts, case scheduling, evidence.

A property module registers *scenarios* (``@scenario``).  A scenario drives the
real code of /repo for one generated case and reports what it observes to a
``Monitor``; the monitor's rules are the oracle.  A case is fully determined by
(VERIF_SEED, property, scenario, index), so every violation can be replayed.
"""
import collections
import hashlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class Scenario:
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


REGISTRY = {}  # property -> list of scenarios


def scenario(prop, name, quick=100, thorough=None):
    """Register a scenario: number of cases in the quick and the thorough tier."""

    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Scenario(name, fn, quick, thorough if thorough is not None else quick * 15)
        )
        return fn

    return deco


class CaseAborted(Exception):
    """Raised by the monitor to end a case (after too many violations)."""


class Skip(Exception):
    """The generated case is outside the property's domain; counts as trivial."""


class CaseTimeout(BaseException):
    pass


def _jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return repr(x)
    if isinstance(x, np.ndarray):
        if x.size <= 30:
            return np.array2string(x, precision=10, separator=",", threshold=40)
        return f"<array shape={x.shape} dtype={x.dtype}>"
    if isinstance(x, dict) and depth < 4:
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)) and depth < 4:
        return [_jsonable(v, depth + 1) for v in list(x)[:40]]
    return repr(x)[:300]


class Monitor:
    """Collects what a workload made observable and judges it."""

    def __init__(self, prop):
        self.prop = prop
        self.rules = collections.Counter()  # oracle evaluations per rule
        self.events = collections.Counter()  # other observed events
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.rejected = collections.Counter()
        self._case = None
        self._case_key = []
        self._case_checks = 0
        self._case_viol = 0

    # --- case life cycle ---
    def begin(self, scen, index):
        self._case = (scen, index)
        self._case_key = []
        self._case_checks = 0
        self._case_viol = 0
        self._desc = {}

    def end(self):
        if self._case_checks > 0:
            h = hashlib.blake2b(
                repr((self._case[0], self._case_key)).encode(), digest_size=8
            ).hexdigest()
            self.distinct.add(h)
        if len(self.samples) < 3 and self._case_checks > 0 and self._case[1] < 3:
            self.samples.append(
                {
                    "scenario": self._case[0],
                    "index": self._case[1],
                    "case": _jsonable(self._desc),
                    "oracle_evaluations": self._case_checks,
                }
            )

    def describe(self, **kw):
        """Describe the generated case; the description defines distinctness."""
        self._desc.update(kw)
        self._case_key.append(
            json.dumps(_jsonable(kw), sort_keys=True, default=repr)
        )

    def event(self, name, n=1):
        self.events[name] += n

    def reject(self, name):
        """The code refused the input in a documented way."""
        self.rejected[name] += 1

    # --- verdicts ---
    def violation(self, rule, msg, **detail):
        self._case_viol += 1
        self.violations.append(
            {
                "property": self.prop,
                "scenario": self._case[0] if self._case else None,
                "index": self._case[1] if self._case else None,
                "rule": rule,
                "message": str(msg)[:1500],
                "detail": _jsonable(detail),
                "case": _jsonable(getattr(self, "_desc", {})),
            }
        )
        if self._case_viol > 8:
            raise CaseAborted()

    def check(self, rule, ok, msg="", **detail):
        self.rules[rule] += 1
        self._case_checks += 1
        ok = bool(ok)
        if not ok:
            self.violation(rule, msg or "condition is false", **detail)
        return ok

    def close(self, rule, got, want, tol=1e-8, msg="", scale=None, **detail):
        """``got`` equals ``want`` up to ``tol`` relative to the size of ``want``."""
        self.rules[rule] += 1
        self._case_checks += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex) if np.iscomplexobj(w) else g.astype(float)
        except Exception as e:  # pylint: disable=broad-except
            self.violation(rule, f"{msg}: value is not numeric: {e!r}")
            return False
        if g.shape != w.shape:
            self.violation(
                rule, f"{msg}: shape {g.shape}, expected {w.shape}", got=g, want=w, **detail
            )
            return False
        if g.size == 0:
            return True
        fin_w = np.isfinite(w)
        fin_g = np.isfinite(g)
        if not np.array_equal(fin_w, fin_g) or not np.array_equal(
            np.where(fin_w, 0, np.nan_to_num(w, nan=3, posinf=1, neginf=-1)),
            np.where(fin_g, 0, np.nan_to_num(g, nan=3, posinf=1, neginf=-1)),
        ):
            self.violation(rule, f"{msg}: non-finite entries differ", got=g, want=w, **detail)
            return False
        with np.errstate(all="ignore"):
            gd = np.where(fin_g, g, 0)
            wd = np.where(fin_w, w, 0)
            if gd.dtype == bool:
                gd = gd.astype(float)
            if wd.dtype == bool:
                wd = wd.astype(float)
            err = np.max(np.abs(gd - wd))
            sc = np.max(np.abs(wd)) if scale is None else np.max(np.abs(scale))
        if not err <= tol * (1.0 + sc):
            self.violation(
                rule,
                f"{msg}: max abs error {err:.6g} exceeds {tol:.1g}*(1+{sc:.4g})",
                got=g,
                want=w,
                **detail,
            )
            return False
        return True

    def dump(self):
        return {
            "rules": dict(self.rules),
            "events": dict(self.events),
            "rejected": dict(self.rejected),
            "distinct": sorted(self.distinct),
            "violations": self.violations,
            "samples": self.samples,
        }


def case_rng(seed, prop, scen, index):
    return np.random.default_rng(
        [int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(scen.encode()), index]
    )


def _involves_repo(tb):
    """Did the exception travel through probnum's code?"""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO_SRC) for f in frames)


def _innermost_repo_frame(tb):
    frames = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO_SRC)]
    if not frames:
        return "?"
    f = frames[-1]
    return f"{f.filename[len(REPO_SRC) + 1:]}:{f.name}"


def run_case(mon, scen, index, seed, errors, case_timeout):
    rng = case_rng(seed, mon.prop, scen.name, index)
    mon.begin(scen.name, index)

    def on_alarm(_sig, _frm):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                scen.fn(mon, rng)
    except CaseAborted:
        pass
    except Skip:
        mon.event("skipped_case:" + scen.name)
    except CaseTimeout as e:
        # cases take milliseconds to a few seconds: a case that is still inside the
        # library after the watchdog's five minutes does not terminate
        if _involves_repo(e.__traceback__):
            mon._case_viol = 0
            mon._case_checks += 1
            mon.violation("terminates", f"no result after {case_timeout} s (in {_innermost_repo_frame(e.__traceback__)})")
        else:
            errors.append(f"case timeout {scen.name}[{index}]")
    except Exception as e:  # pylint: disable=broad-except
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb))
        if isinstance(e, (MemoryError, OSError)):
            errors.append(f"resource problem in {scen.name}[{index}]: {txt[-3000:]}")
        elif _involves_repo(tb):
            mon._case_viol = 0
            mon.violation(
                "no-unexpected-exception",
                f"{type(e).__name__}: {e} (in {_innermost_repo_frame(tb)})",
                traceback=txt[-2500:],
            )
            mon._case_checks += 1
        else:
            # the oracle could not even interpret what the library returned
            mon._case_viol = 0
            mon.violation(
                "interpretable-result",
                f"{type(e).__name__}: {e} while judging the observed result",
                traceback=txt[-2500:],
            )
            mon._case_checks += 1
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    mon.end()


def load_property(prop):
    import importlib

    importlib.import_module(f"pnmon.props.{prop.lower()}")
    return REGISTRY[prop]


def plan(prop, tier):
    out = []
    for s in load_property(prop):
        n = s.quick if tier == "quick" else s.thorough
        out.extend((s, i) for i in range(n))
    return out


def worker(prop, tier, seed, k, n, budget, out):
    t0 = time.time()
    errors = []
    mon = Monitor(prop)
    todo = plan(prop, tier)
    # interleave scenarios so that a budget stop still touches all of them
    todo.sort(key=lambda si: (si[1], si[0].name))
    mine = todo[k::n]
    done = 0
    per_scen = collections.Counter()
    slowest = (0.0, "")
    for s, i in mine:
        if time.time() - t0 > budget:
            break
        t1 = time.time()
        run_case(mon, s, i, seed, errors, case_timeout=300)
        slowest = max(slowest, (round(time.time() - t1, 2), f"{s.name}[{i}]"))
        done += 1
        if any(v["rule"] == "terminates" for v in mon.violations):
            break
        per_scen[s.name] += 1
        if len(mon.violations) > int(os.environ.get("PNMON_MAXV", "40")):
            break
    d = mon.dump()
    d.update(slowest=slowest, done=done, planned=len(mine), errors=errors, per_scenario=dict(per_scen))
    with open(out, "w") as f:
        json.dump(d, f)

"""Call sanitizer: wraps the callables of probnum and watches what calls do to their arguments.

Every public function and method (and the constructors and operators) is replaced by a
wrapper that remembers the contents of all arrays reachable from the arguments, runs the
original, and compares.  Numerical results of calls made by the harness are recorded, so
that runs can be compared with each other.
"""
import functools
import inspect
import itertools
import sys
import threading
import types

import numpy as np
import scipy.sparse

TLS = threading.local()
STATE = {"installed": 0, "calls": 0, "arrays": 0, "names": set()}
LOCK = threading.Lock()

DUNDER = {
    "__init__", "__call__", "__matmul__", "__rmatmul__", "__add__", "__radd__", "__sub__", "__rsub__",
    "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__", "__neg__", "__pos__", "__abs__",
    "__getitem__", "__eq__", "__floordiv__", "__rfloordiv__", "__mod__", "__rmod__",
}


class Recorder:
    """What one run made observable."""

    def __init__(self):
        self.depth = 0
        self.trace = []
        self.mutations = []
        self.calls = 0
        self.arrays = 0
        self.names = set()


def _is_value(x):
    """Objects of probnum that denote a value: their arrays may not change."""
    return isinstance(x, STATE["value_types"])


def collect(x, out, depth=0):
    if isinstance(x, np.ndarray):
        if x.dtype != object and x.size <= 20000:
            out.append(x)
    elif scipy.sparse.issparse(x):
        for a in ("data", "indices", "indptr", "row", "col"):
            v = getattr(x, a, None)
            if isinstance(v, np.ndarray) and v.dtype != object:
                out.append(v)
    elif depth < 3:
        if isinstance(x, (list, tuple)):
            for v in itertools.islice(x, 60):
                collect(v, out, depth + 1)
        elif isinstance(x, dict):
            for v in list(x.values())[:60]:
                collect(v, out, depth + 1)
        elif _is_value(x):
            for v in list(vars(x).values()):
                collect(v, out, depth + 1)


def numbers(x, out, depth=0):
    """Flatten the numerical content of a result."""
    if isinstance(x, (bool, int, float, complex, np.generic)):
        if not isinstance(x, (np.str_, np.bytes_, np.void)):
            out.append(np.asarray(x).reshape(1))
    elif isinstance(x, np.ndarray):
        if x.dtype != object and x.dtype.kind in "biufc":
            out.append(np.array(x).ravel()[:400])
        elif x.dtype == object and depth < 3:
            for v in x.ravel()[:30]:
                numbers(v, out, depth + 1)
    elif depth < 3:
        if isinstance(x, (list, tuple)):
            for v in itertools.islice(x, 60):
                numbers(v, out, depth + 1)
        elif isinstance(x, dict):
            for k in sorted(x, key=str)[:60]:
                numbers(x[k], out, depth + 1)
        elif isinstance(x, STATE["rv_type"]):
            try:
                numbers(x.mean, out, depth + 1)
                numbers(x.cov, out, depth + 1)
            except Exception:  # pylint: disable=broad-except
                pass
        elif isinstance(x, STATE["op_type"]) and x.shape[0] * x.shape[1] <= 400:
            try:
                numbers(x.todense(cache=False), out, depth + 1)
            except Exception:  # pylint: disable=broad-except
                pass


def wrap(fn, name):
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        rec = getattr(TLS, "rec", None)
        if rec is None:
            return fn(*args, **kwargs)
        arrs = []
        TLS.rec = None  # what the sanitizer itself looks at is not part of the run
        try:
            collect(args[1:] if name.endswith("__init__") else args, arrs)
            collect(kwargs, arrs)
        finally:
            TLS.rec = rec
        before = [a.copy() for a in arrs]
        rec.depth += 1
        rec.calls += 1
        rec.arrays += len(arrs)
        rec.names.add(name)
        ok = False
        try:
            res = fn(*args, **kwargs)
            ok = True
            return res
        finally:
            rec.depth -= 1
            for a, b in zip(arrs, before):
                if a.shape != b.shape or not (a.tobytes() == b.tobytes() or np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")):
                    if len(rec.mutations) < 20:
                        rec.mutations.append((name, f"array of shape {b.shape}: {b.ravel()[:6]} became {a.ravel()[:6]}"))
            if ok and rec.depth == 0 and len(rec.trace) < 4000:
                TLS.rec = None
                try:
                    out = []
                    numbers(res, out)
                    rec.trace.append((name, np.concatenate(out) if out else np.zeros(0)))
                finally:
                    TLS.rec = rec

    wrapper.__pnmon_wrapped__ = fn
    return wrapper


def _modules():
    return [m for n, m in sorted(sys.modules.items()) if n == "probnum" or n.startswith("probnum.") if isinstance(m, types.ModuleType)]


def instrument():
    """Wrap everything once; returns the number of wrapped callables."""
    if STATE["installed"]:
        return STATE["installed"]
    import pkgutil

    import importlib

    import probnum
    from probnum import functions, linops, randprocs, randvars  # noqa: F401

    for info in pkgutil.walk_packages(probnum.__path__, "probnum."):
        try:
            importlib.import_module(info.name)
        except Exception:  # optional dependencies  pylint: disable=broad-except
            continue
    STATE["rv_type"] = randvars.RandomVariable
    STATE["op_type"] = linops.LinearOperator
    value = [randvars.RandomVariable, linops.LinearOperator]
    for mod, attr in (("probnum.functions", "Function"), ("probnum.randprocs.covfuncs", "CovarianceFunction")):
        cls = getattr(sys.modules.get(mod), attr, None)
        if cls is not None:
            value.append(cls)
    STATE["value_types"] = tuple(value)
    count = 0
    replaced = {}
    seen = set()
    for m in _modules():
        for n, obj in list(vars(m).items()):
            if inspect.isclass(obj) and getattr(obj, "__module__", "").startswith("probnum") and id(obj) not in seen:
                seen.add(id(obj))
                for k, v in list(vars(obj).items()):
                    if k.startswith("_") and k not in DUNDER:
                        continue
                    q = f"{obj.__module__.replace('probnum.', '')}.{obj.__qualname__}.{k}"
                    try:
                        if isinstance(v, types.FunctionType):
                            setattr(obj, k, wrap(v, q))
                        elif isinstance(v, staticmethod):
                            setattr(obj, k, staticmethod(wrap(v.__func__, q)))
                        elif isinstance(v, classmethod):
                            setattr(obj, k, classmethod(wrap(v.__func__, q)))
                        else:
                            continue
                        count += 1
                    except (AttributeError, TypeError):
                        continue
            elif (
                isinstance(obj, types.FunctionType)
                and (obj.__module__ or "").startswith("probnum")
                and not n.startswith("_")
            ):
                if id(obj) not in replaced:
                    replaced[id(obj)] = (obj, wrap(obj, f"{obj.__module__.replace('probnum.', '')}.{obj.__qualname__}"))
                    count += 1
    for m in _modules():
        for n, obj in list(vars(m).items()):
            if isinstance(obj, types.FunctionType) and id(obj) in replaced and replaced[id(obj)][0] is obj:
                setattr(m, n, replaced[id(obj)][1])
    STATE["installed"] = count
    return count

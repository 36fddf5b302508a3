"""core.py - the engine shared by all checks.

A property is a set of sub-checks.  A sub-check is a pair

* ``strategy``: a Hypothesis strategy that generates a JSON-able *case* (every
  random choice of the check is inside it, array contents included: they are
  pure functions of drawn seeds), and
* ``fn(case, rec)``: builds the inputs, calls momlevel, compares with an
  oracle, and raises :class:`Violation` when the property is broken.

Because a case is plain JSON, a shrunk failure is replayed without Hypothesis.
"""

import contextlib
import hashlib
import io
import json
import math
import os
import pickle
import time
import traceback
import warnings

import numpy as np


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself went wrong."""


class Rec:
    """What one evaluation of a case reports back"""

    def __init__(self, known_ids=()):
        self.nontrivial = False
        self.labels = []
        self.known = []
        self._known_ids = set(known_ids)

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def label(self, name, flag=True):
        if flag:
            self.labels.append(str(name))

    def known_finding(self, kid, msg):
        """deviation that is characterised by a known finding"""
        if kid in self._known_ids:
            if kid not in self.known:
                self.known.append(kid)
        else:
            raise Violation(msg)


class Sub:
    """One generated check of a property"""

    def __init__(self, name, strategy, fn, quick=200, thorough=None, shards=4):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.shards = shards


class Prop:
    """A property: id, the rule for non-trivial cases and its sub-checks"""

    def __init__(self, pid, rule, subs, assumptions=()):
        self.pid = pid
        self.rule = rule
        if any(s.name.startswith(("large", "long", "many")) for s in subs):
            self.rule += " The sub-checks large, long and many take the same cases with realistic sizes (harness/large.py)."
        self.subs = subs
        self.assumptions = list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise HarnessError(f"{self.pid} has no sub-check {name}")


# ---------------------------------------------------------------------------
# calling the code under test
# ---------------------------------------------------------------------------


def _short(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/momlevel/" in fr.filename:
            where = f" at {fr.filename.split('/momlevel/')[-1]}:{fr.lineno}"
            break
    return f"{type(e).__name__}: {str(e)[:300]}{where}"


CALLS = [0]  # calls of the code under test in the current case


def sut(what, func, /, *args, **kwargs):
    """call momlevel with a valid input; an exception breaks the property"""
    CALLS[0] += 1
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return func(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{what}: raised on a valid input: {_short(e)}") from None


def sut_report(func, /, *args, **kwargs):
    """call momlevel; return (result, exception, warnings, stdout)"""
    CALLS[0] += 1
    out = io.StringIO()
    exc, res = None, None
    with warnings.catch_warnings(record=True) as wlist, contextlib.redirect_stdout(
        out
    ):
        warnings.simplefilter("always")
        try:
            res = func(*args, **kwargs)
        except Exception as e:  # pylint: disable=broad-except
            exc = e
    return res, exc, [w for w in wlist], out.getvalue()


def must_raise(what, func, /, *args, **kwargs):
    """call momlevel with an input it must reject"""
    _, exc, _, _ = sut_report(func, *args, **kwargs)
    if exc is None:
        raise Violation(f"{what}: was accepted, but must be rejected")
    return exc


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def in_fork(func, /, *args):
    """func(*args) in a forked process: nothing it does to module or global state
    is left behind in this one.  The result must be picklable."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            try:
                out = ("ok", func(*args))
            except Violation as v:
                out = ("violation", str(v))
            except BaseException as e:  # pylint: disable=broad-except
                out = ("error", _short(e), CALLS[0])
            try:
                data = pickle.dumps(out)
            except Exception as e:  # pylint: disable=broad-except
                data = pickle.dumps(("error", f"result cannot be sent: {_short(e)}", 1))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a forked process ended without an answer")
    out = pickle.loads(data)
    if out[0] == "violation":
        raise Violation(out[1])
    if out[0] == "error":
        if out[2]:
            raise Violation(f"the result cannot be examined: {out[1]}")
        raise HarnessError(out[1])
    return out[1]


# ---------------------------------------------------------------------------
# comparing
# ---------------------------------------------------------------------------


def close(what, actual, expected, rtol=1e-10, atol=0.0):
    """elementwise agreement; missing values must be missing in both"""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return
    try:
        a = a.astype(float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: values of dtype {a.dtype} are not numbers") from None
    e = e.astype(float)
    na, ne = np.isnan(a), np.isnan(e)
    if not np.array_equal(na, ne):
        idx = tuple(int(x) for x in np.argwhere(na != ne)[0])
        raise Violation(
            f"{what}: at {idx} got {a[idx]!r}, expected {e[idx]!r} "
            f"({int((na != ne).sum())} of {a.size} differ in being missing)"
        )
    with np.errstate(all="ignore"):
        tol = np.broadcast_to(np.asarray(atol, dtype=float), e.shape) + rtol * np.abs(e)
        bad = np.abs(a - e) > tol
        inf = np.isinf(a) | np.isinf(e)
        bad = np.where(inf, a != e, bad) & ~ne
    if bad.any():
        idx = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: at {idx} got {a[idx]!r}, expected {e[idx]!r} "
            f"(tolerance {float(np.broadcast_to(tol, e.shape)[idx])!r}; "
            f"{int(bad.sum())} of {a.size} differ)"
        )


def is_close(actual, expected, rtol=1e-10, atol=0.0):
    try:
        close("", actual, expected, rtol=rtol, atol=atol)
    except Violation:
        return False
    return True


def vals(what, da, dims):
    """values of a DataArray in the order of `dims` (which must be its dims)"""
    if not hasattr(da, "dims"):
        raise Violation(f"{what}: result is {type(da).__name__}, not a labelled array")
    if set(da.dims) != set(dims) or len(da.dims) != len(dims):
        raise Violation(f"{what}: dimensions {tuple(da.dims)}, expected {tuple(dims)}")
    return np.asarray(da.transpose(*dims).values)


def same_coords(what, da, coords):
    """each of `coords` (name -> 1-d values) must be on `da`"""
    for name, v in coords.items():
        if name not in da.coords:
            raise Violation(f"{what}: coordinate {name!r} is missing")
        got = np.asarray(da[name].values)
        v = np.asarray(v)
        if got.shape != v.shape or not bool(np.all(got == v)):
            raise Violation(f"{what}: coordinate {name!r} changed")


def same_coord_attrs(what, da, source, names=None):
    """the coordinates of `source` that `da` has keep their attributes"""
    for name in source.coords if names is None else names:
        if name in source.coords and name in da.coords:
            has_attrs(f"{what}: coordinate {name!r}", da[name], dict(source[name].attrs))


def has_attrs(what, da, expected):
    for k, v in expected.items():
        if k not in da.attrs:
            raise Violation(f"{what}: attribute {k!r} is missing")
        if da.attrs[k] != v:
            raise Violation(
                f"{what}: attribute {k!r} is {da.attrs[k]!r}, expected {v!r}"
            )


# ---------------------------------------------------------------------------
# cases
# ---------------------------------------------------------------------------


def case_json(case):
    return json.dumps(case, sort_keys=True, default=_json_default)


def _json_default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(f"not JSON-able: {type(o)}")


def case_hash(case):
    return hashlib.sha1(case_json(case).encode()).hexdigest()[:16]


def run_case(sub, case, known_ids):
    """evaluate one case; returns Rec, raises Violation"""
    rec = Rec(known_ids)
    CALLS[0] = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                sub.fn(case, rec)
            except (Violation, HarnessError, MemoryError, OSError):
                raise
            except Exception as e:  # pylint: disable=broad-except
                if CALLS[0] == 0 or type(e).__module__.startswith("hypothesis"):
                    raise
                # the code under test gave something that cannot be examined, e.g. a
                # lazy result that fails when it is computed
                raise Violation(f"the result cannot be examined: {_short(e)}") from None
    return rec


def task(sub, seed, n, known_ids, deadline):
    """one Hypothesis campaign; a pure function of the code and of its arguments"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40
    engine.MAX_SHRINKS = 400

    out = {
        "sub": sub.name,
        "evaluations": 0,
        "skipped": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "known": set(),
        "violation": None,
        "error": None,
    }
    fail = {}
    past = []  # earlier cases of this campaign: context of a failure that needs it

    def body(case):
        case = json.loads(case_json(case))
        if not fail and time.time() > deadline:
            out["skipped"] += 1
            return
        try:
            rec = run_case(sub, case, known_ids)
        except Violation as v:
            fail.setdefault("first", (case, str(v)))
            fail.setdefault("past", list(past))
            fail["last"] = (case, str(v))
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:  # pylint: disable=broad-except
            out["error"] = (
                f"{sub.name}: {type(e).__name__}: {e}\n"
                f"{traceback.format_exc(limit=-6)}\ncase={case_json(case)[:2000]}"
            )
            raise HarnessError(out["error"]) from None
        if fail:
            return
        past.append(case)
        del past[:-40]
        out["evaluations"] += 1
        for name in rec.labels:
            out["labels"][name] = out["labels"].get(name, 0) + 1
        out["known"].update(rec.known)
        if rec.nontrivial:
            out["nontrivial"].add(case_hash(case))
            if len(out["samples"]) < 2:
                out["samples"].append(case)

    test = given(sub.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ):
            test()
    except Violation:
        pass
    except HarnessError:
        pass
    except Exception as e:  # pylint: disable=broad-except
        if not fail:
            out["error"] = f"{sub.name}: {type(e).__name__}: {e}\n" + (
                traceback.format_exc(limit=-6)
            )
    if fail and not out["error"]:
        # keep only what replays without Hypothesis
        for which in ("last", "first"):
            case, msg = fail[which]
            try:
                run_case(sub, case, known_ids)
            except Violation as v:
                out["violation"] = {"case": case, "message": str(v)}
                break
            except Exception as e:  # pylint: disable=broad-except
                out["error"] = f"{sub.name}: replay: {type(e).__name__}: {e}"
        if out["violation"] is None and not out["error"]:
            # it needs the calls made before: those cases go into the replay file
            case, msg = fail["first"]
            out["violation"] = {
                "case": case,
                "message": msg + " (after other calls in the same process)",
                "before": fail["past"],
            }
    return out


def finite(x):
    return x is not None and not (isinstance(x, float) and math.isnan(x))

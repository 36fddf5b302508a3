"""C26 - calculations leave their inputs alone and can be repeated"""

import contextlib
import io
import os
import warnings

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from .. import core, gen, ops
from ..core import Prop, Sub, Violation, check, in_fork, sut


@st.composite
def cases(draw):
    return {
        "w": draw(ops.worlds()),
        "ops": draw(st.lists(st.sampled_from(ops.NAMES), min_size=1, max_size=8)),
        # which calls work on a second set of inputs
        "other": draw(st.lists(st.sampled_from([0, 0, 1]), min_size=8, max_size=8)),
        "alike": draw(gen.often(0.6)),
        "chunk": draw(gen.weighted((0, 3), (1, 2))),
        "scribble": draw(gen.often(0.4)),
    }


def wrap_for(case):
    if not case["chunk"]:
        return None
    return lambda x: x.chunk({d: (-1 if d in ("time", "z_l") else 2) for d in x.dims if d not in ("z_i",)})


def loaded(pieces):
    """the parts of a result, in memory, and how they were chunked"""
    out = []
    for p in pieces:
        if not hasattr(p, "dims"):
            out.append((p, None))
            continue
        vs = p.variables if isinstance(p, xr.Dataset) else {**p.coords, "": p}
        ch = {str(n): vs[n].chunks for n in vs}
        out.append((p.copy(deep=True).load(), ch))
    return out


def copies_of(pieces):
    return [ops.copy_of(p) for p in pieces]


def which(case):
    o = case.get("other") or [0]
    return [o[k % len(o)] for k in range(len(case["ops"]))]


def world(case, i):
    """the first or the second set of inputs (alike: same sizes and dates, other values)"""
    c = dict(case["w"])
    if i:
        c["seed"] = (c["seed"] + 1) % 2**31
        if not case.get("alike", True):
            c["y0"] += 1
            c["nz"] += 1
            c["nx"] += 1
            c["cal"] = gen.CALENDARS[(gen.CALENDARS.index(c["cal"]) + 1) % len(gen.CALENDARS)]
    return ops.World(c, wrap_for(case))


def plain(what, func, /, *args):
    """call momlevel with nothing of the global state saved around it"""
    core.CALLS[0] += 1
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return func(*args)
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation(f"{what}: raised on a valid input: {core._short(e)}") from None


def history(case):
    """all calls one after the other on the same inputs"""
    warnings.filterwarnings("ignore", message="(?s).*")
    with np.errstate(all="warn"):
        return _history(case)


def _history(case):
    worlds = {i: world(case, i) for i in sorted(set(which(case)))}
    snaps = {i: w.snapshot() for i, w in worlds.items()}
    state = np.random.get_state()[1].tobytes()
    env = dict(os.environ)
    cwd, opt, pan, err = os.getcwd(), dict(xr.core.options.OPTIONS), pd.get_option("mode.copy_on_write"), np.geterr()
    filt = list(warnings.filters)
    done = []
    for k, name in enumerate(case["ops"]):
        w = worlds[which(case)[k]]
        if case.get("scribble"):
            # a caller may do what it wants with a result
            ops.scribble(plain(name, ops.OPS[name][0], world(case, which(case)[k])))
        res = plain(name, ops.OPS[name][0], w)
        ch = next((c for c in (worlds[i].changed(snaps[i]) for i in worlds) if c), None)
        check(ch is None, f"{name!r} (step {k} of {case['ops']}) changed its input {ch}")
        pieces = ops.flat(res)
        done.append((name, pieces, copies_of(pieces)))
    check(np.random.get_state()[1].tobytes() == state, "the global random state was used")
    check(
        os.getcwd() == cwd and dict(xr.core.options.OPTIONS) == opt and pd.get_option("mode.copy_on_write") == pan and np.geterr() == err and list(warnings.filters) == filt and dict(os.environ) == env,
        "global settings were changed",
    )
    # results of earlier steps are still what they were
    for name, pieces, copies in done:
        for a, b in zip(pieces, copies):
            d = ops.differs(a, b)
            check(d is None, f"the result of {name!r} was changed by a later call: {d}")
    return [(name, i, loaded(copies)) for (name, _, copies), i in zip(done, which(case))]


def alone(case, name, i):
    """one call on fresh inputs"""
    return loaded(ops.flat(sut(name, ops.OPS[name][0], world(case, i))))


def f_history(case, rec):
    # each part runs in a process of its own, in which nothing was called before
    done = in_fork(history, case)
    for name, i in dict.fromkeys(zip(case["ops"], which(case))):
        lone = in_fork(alone, case, name, i)
        for n2, i2, copies in done:
            if (n2, i2) != (name, i):
                continue
            check(len(lone) == len(copies), f"{name!r} gives another number of results on its own")
            for (a, ca), (b, cb) in zip(lone, copies):
                d = ops.differs(a, b)
                if d is None and ca != cb:
                    d = f"chunks {ca} / {cb}"
                check(d is None, f"{name!r} gives another result after {case['ops']}: {d}")
    rec.nt(len(set(case["ops"])) > 1)
    for n in set(case["ops"]):
        rec.label(n)
    rec.label("dask", bool(case["chunk"]))
    rec.label("two sets of inputs", len(set(which(case))) > 1)


# -- every operation, in groups ---------------------------------------------------

GROUPS = 12


@st.composite
def sweep_cases(draw):
    return {
        "w": draw(ops.worlds()),
        "chunk": draw(gen.weighted((0, 3), (1, 2))),
        "reverse": draw(gen.often(0.5)),
        "alike": draw(gen.often(0.6)),
        "scribble": draw(gen.often(0.5)),
    }


def sweep(k):
    names = ops.NAMES[k::GROUPS]

    def f_sweep(case, rec):
        once = names[::-1] if case["reverse"] else names
        twice = [n for n in once for _ in (0, 1)]  # on either set of inputs
        f_history({"w": case["w"], "chunk": case["chunk"], "alike": case.get("alike", True), "ops": twice, "other": [0, 1], "scribble": case.get("scribble", False)}, rec)

    return f_sweep


PROP = Prop(
    "C26",
    "histories of 1-8 calls (and histories of a twelfth of all calls) drawn from all public calculations on shared inputs "
    "(one or two sets of datasets with encodings and attributes, series, data frames, mappings; six "
    "calendars; eager or dask). After each call every input is compared with a "
    "deep copy made before; at the end every result is compared with the result "
    "of the same call on fresh inputs in a new process. Non-trivial: at least two different calls.",
    [Sub(f"sweep{k}", sweep_cases(), sweep(k), quick=5, thorough=80, shards=1) for k in range(GROUPS)]
    + [Sub("history", cases(), f_history, quick=320, shards=8)],
    assumptions=["reset_encoding and the grid builders of test_data modify their argument by design and are left out"],
)

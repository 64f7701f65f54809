"""Deterministic step counting inside protosym code (sys.monitoring).

Counts function entries and jumps (loop iterations) executed in code objects
defined under the protosym package.  The count is a pure function of the code
and the case: no clock is involved.  A case that exceeds its budget is stopped
by an exception raised from the callback, so that a change that makes an
operation loop for ever or take exponential work is reported as a violation
with a replayable case instead of a hanging check.
"""

from __future__ import annotations

import sys
import types

from .base import StepBudgetExceeded

_mon = sys.monitoring
_TOOL = 4
CODES = []
_state = {"n": 0, "limit": None}


def _tick(*args):
    st = _state
    st["n"] += 1
    lim = st["limit"]
    if lim is not None and st["n"] > lim:
        raise StepBudgetExceeded(f"more than {lim} steps")


def _codes():
    seen = set()
    out = []

    def add(code):
        if code in seen:
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    import gc

    from .boot import REPO_SRC

    prefix = REPO_SRC.rstrip("/") + "/protosym/"
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            code = obj.__code__
            if code.co_filename.startswith(prefix):
                add(code)
    return out


def install():
    """Start counting. Call after all protosym modules are imported."""
    _mon.use_tool_id(_TOOL, "pv-steps")
    ev = _mon.events
    _mon.register_callback(_TOOL, ev.PY_START, _tick)
    _mon.register_callback(_TOOL, ev.JUMP, _tick)
    CODES.extend(_codes())
    for code in CODES:
        _mon.set_local_events(_TOOL, code, ev.PY_START | ev.JUMP)


def begin(limit):
    _state["n"] = 0
    _state["limit"] = limit


def end():
    _state["limit"] = None
    return _state["n"]


def count():
    return _state["n"]


def measure(limit, call):
    """(result, steps) of call(), stopped after limit steps of its own."""
    st = _state
    before, outer = st["n"], st["limit"]
    st["n"] = 0
    st["limit"] = limit
    try:
        res = call()
        return res, st["n"]
    finally:
        st["n"] += before
        st["limit"] = outer

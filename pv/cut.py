"""Do something at a chosen moment inside protosym code (sys.monitoring).

The moments are those at which the interpreter itself delivers signals and runs
the collector: the entry of a function, a jump backwards (any taken jump, here)
and the return of a call of something written in C.  Only code of protosym
counts, so a moment is a pure function of the code and the case.
"""

from __future__ import annotations

import sys

from . import steps

_mon = sys.monitoring
_TOOL = 3
_state = {"n": 0, "at": None, "act": None}
_ready = []
EVENTS = _mon.events.PY_START | _mon.events.JUMP | _mon.events.CALL
# between taking a lock and being responsible for it nothing can be asked
LOCKING = {"acquire", "__enter__", "acquire_lock"}


def _moment():
    st = _state
    st["n"] += 1
    if st["n"] == st["at"]:
        act = st["act"]
        st["at"] = None
        act()


def _start(code, offset):
    _moment()


def _jump(code, offset, destination):
    if destination < offset:
        _moment()


def _c_return(code, offset, func, arg0):
    if getattr(func, "__name__", "") not in LOCKING:
        _moment()


def _call(code, offset, func, arg0):
    return None


def install():
    if _ready:
        return
    _mon.use_tool_id(_TOOL, "pv-cut")
    ev = _mon.events
    _mon.register_callback(_TOOL, ev.PY_START, _start)
    _mon.register_callback(_TOOL, ev.JUMP, _jump)
    _mon.register_callback(_TOOL, ev.CALL, _call)
    _mon.register_callback(_TOOL, ev.C_RETURN, _c_return)
    _ready.extend(steps.CODES)


def _events(on):
    for code in _ready:
        _mon.set_local_events(_TOOL, code, EVENTS if on else 0)


class moments:  # noqa: N801
    """Count moments, and at the given one call act (which may raise)."""

    def __init__(self, at=None, act=None):
        self.at = at
        self.act = act

    def __enter__(self):
        _events(True)
        _state.update(n=0, at=self.at, act=self.act)
        return self

    def __exit__(self, *exc):
        self.n = _state["n"]
        self.reached = self.at is not None and _state["at"] is None
        _state.update(at=None, act=None)
        _events(False)

    def again(self, at, act):
        """Another moment, later on (called from act)."""
        _state.update(at=at, act=act)

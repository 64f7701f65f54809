"""The same operations on expressions that come and go at the same places in memory.

First every expression is alive at once and every operation's result is noted.
Then the expressions are made one at a time from the same (living) parts, used and
dropped again, so that one takes the place of another; results, prepared objects
and evaluators are kept or not.  What an operation gives must not change.
"""

from __future__ import annotations

from . import c24
from .base import Sub, Violation, fail, short
from .build import apply_real, pick, reals
from .model import Cas

ROOTS = [
    "addn", "addn", "muln", "calln:f", "add", "mul", "sin", "cos", "inc", "ipow", "call2:f",
    "call1:f", "sub", "scale", "mid:Add", "mid:Mul", "list",
]


def perform(c, name, e, a, b, k):
    c.inputs = []
    try:
        res = c24.OPERATIONS[name][0](c, e, a, b, k)
    except Violation:
        raise
    except Exception as err:  # noqa: failing is a result like any other
        err.__traceback__ = None
        res = err
    return res


def run(case, rec):
    cas = Cas()
    parts = reals(cas, case["prog"])
    specs = case["roots"]
    steps = case["steps"]

    def make(n):
        op, idx = specs[n % len(specs)]
        return apply_real(cas, op, idx, parts)

    def others(step):
        return pick(parts, step[2]), pick(parts, step[3]), step[4]

    alive = [make(n) for n in range(len(specs))]
    c = c24.Ctx(cas, parts)
    wanted = []
    errors = 0
    for step in steps:
        res = perform(c, step[1], alive[step[0] % len(alive)], *others(step))
        errors += isinstance(res, Exception)
        wanted.append(c24.as_text(c24.freeze(c, res)))
    alive = c = res = None
    cas.bridge.forget()

    c = c24.Ctx(cas, parts)
    seen = set()
    held = []
    for turn in range(2):
        for n, step in enumerate(steps):
            e = make(step[0])
            place = id(e.rep)
            again = (place, step[1]) in seen
            seen.add((place, step[1]))
            if again:
                rec.label("a place used again")
                rec.hit(errors < len(steps))
            res = perform(c, step[1], e, *others(step))
            text = c24.as_text(c24.freeze(c, res))
            if text != wanted[n]:
                fail(f"{step[1]} of {short(e)}, made where other expressions had been, gave "
                     f"{short(text, 500)}, before that {short(wanted[n], 500)}")
            # everything that knows the expression goes, results maybe
            for key in [key for key in c.kept if e in key]:
                if step[5] % 2:
                    held.append(c.kept[key])
                del c.kept[key]
            c.out, c.inputs = [], []
            if step[5] % 2:
                held.append(res)
                del held[:-6]
            elif step[5] > 1:
                held.clear()
            key = e = res = None
            cas.bridge.forget()


def _strategy(names):
    def make():
        from hypothesis import strategies as st

        from . import gen

        i = st.one_of(st.integers(0, 3), st.integers(0, 12))
        root = st.tuples(
            st.sampled_from(ROOTS), st.lists(i, min_size=1, max_size=5)).map(list)
        # of the same shape, so that they need the same room
        same = st.tuples(
            st.sampled_from(ROOTS), st.integers(1, 5),
        ).flatmap(lambda t: st.lists(
            st.lists(i, min_size=t[1], max_size=t[1]).map(lambda x: [t[0], x]),
            min_size=2, max_size=8))
        step = st.tuples(
            st.integers(0, 7), st.sampled_from(names), st.integers(0, 8), st.integers(0, 8),
            st.integers(0, 5), st.integers(0, 3)).map(list)
        alike = st.tuples(step, st.lists(st.integers(0, 7), min_size=2, max_size=10)).map(
            lambda t: [[n, *t[0][1:]] for n in t[1]])
        return st.fixed_dictionaries(
            {
                "prog": gen.program(
                    c24.OPS, atoms=gen.atom(
                        ints=gen.small_ints, syms=c24.SYMS, funs=["f", "g"]),
                    max_cmds=5, max_arity=3, max_atoms=5),
                "roots": st.one_of(same, same, st.lists(root, min_size=2, max_size=8)),
                "steps": st.one_of(alike, st.lists(step, min_size=2, max_size=12)),
            }
        )

    return make


def sub(*names, quick=1000, thorough=20000, setup=None):
    return Sub(
        "places", _strategy(list(names)), run, quick=quick, thorough=thorough, setup=setup,
        rule="expressions made, used (" + ", ".join(names) + ") and dropped one after another "
        "must give what they gave when all were alive; non-trivial = one was used at the "
        "place of another, and not all operations fail",
    )

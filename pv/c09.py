"""C09: floating-point evaluation is accurate."""

from __future__ import annotations

import math
from fractions import Fraction

from . import places
from .base import Sub, fail
from .build import reals, terms
from .model import Cas
from .num import NumEval, agrees, describe, tight, unreal

OPS = [
    "add", "mul", "pow", "sin", "cos", "neg", "sub", "div", "addn", "muln", "addn",
    "muln", "ipow", "inc", "scale", "square", "sub", "pow", "wide:Add", "mid:Mul",
]
SYMS = ["x", "y", "z"]


def float_values():
    from hypothesis import strategies as st

    nice = st.sampled_from(
        [0.0, 1.0, -1.0, 2.0, 0.5, 0.1, 0.2, 0.3, -0.7, 3.0, 1e16, -1e16, 1e-16, 1e8, 1e30,
         3.141592653589793, 1.5707963267948966, 1e-30, 1.0000000000000002, 7.0, 1e100,
         123456789.123]
    )
    rnd = st.floats(-10, 10, allow_nan=False).filter(lambda v: v == 0 or abs(v) > 1e-150)
    wide = st.tuples(st.floats(1, 2), st.integers(-60, 60), st.booleans()).map(
        lambda t: (t[0] if t[2] else -t[0]) * 2.0 ** t[1]
    )
    return st.one_of(nice, rnd, wide).map(lambda v: v + 0.0 if v else 0.0)


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS,
                atoms=gen.atom(ints=st.one_of(gen.small_ints, gen.any_ints), syms=SYMS),
                max_cmds=12, max_arity=5,
            ),
            "points": st.lists(
                st.lists(float_values(), min_size=3, max_size=3), min_size=1, max_size=3
            ),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                ["Add", "Add", "Mul"], towers=("sin", "cos"),
                rest=["scale", "sub", "inc", "square", "sin", "neg", "div"],
                atoms=gen.atom(ints=st.one_of(gen.small_ints, gen.any_ints), syms=SYMS)),
            "points": st.lists(
                st.lists(st.one_of(float_values(), st.floats(0.5, 1.5)), min_size=3,
                         max_size=3), min_size=1, max_size=2),
        }
    )


def outside(cas, ref, t, e, rvalues, point, rec):
    """Where the bounds decide no value, the result still is a float or an error."""
    try:
        g = e.eval_f64(rvalues)
    except (ValueError, ArithmeticError):
        g = None
    where = f"eval_f64 of {cas.show(t)} at {dict(zip(SYMS, point))}"
    if g is not None and type(g) is not float:
        fail(f"{where} gave {g!r}, not a float")
    ks = cas.store.kids[t]
    if len(ks) == 3 and ks[0] == cas.Pow:
        base, exp = ref(ks[1]), ref(ks[2])
        if base is not None and exp is not None and unreal(base, exp):
            rec.label("value not real")
            if g is not None and math.isfinite(g):
                fail(f"{where} gave {g!r} for a value that is not real")


def run(case, rec):
    cas = Cas()
    st = cas.store
    pool = terms(cas, case["prog"])
    real = reals(cas, case["prog"])
    syms = [cas.sym(s) for s in SYMS]
    done = dict(zip(pool, real))
    for point in case["points"]:
        values = dict(zip(syms, point))
        rvalues = {cas.expr(s): v for s, v in values.items()}
        ref = NumEval(cas, values)
        got = {}
        for t, e in done.items():
            r = ref(t)
            if r is None:
                outside(cas, ref, t, e, rvalues, point, rec)
                continue
            g = e.eval_f64(rvalues)
            got[t] = g
            if type(g) is not float or not agrees(g, r):
                fail(f"eval_f64 of {cas.show(t)} at {dict(zip(SYMS, point))} gave "
                     f"{describe(g, r)}")
            if tight(r) and not st.is_atom(t):
                rec.hit(st.graph_size(t) >= 3)
                rec.label("tight bound")
        # sums are correctly rounded sums of their evaluated terms
        part = {}
        for t, g in got.items():
            ks = st.kids[t]
            if not ks or ks[0] != cas.Add or len(ks) < 2:
                continue
            for k in ks[1:]:
                if k not in part:
                    part[k] = cas.expr(k).eval_f64(rvalues)
            parts = [part[k] for k in ks[1:]]
            exact = sum((Fraction(p) for p in parts), Fraction(0))
            want = exact.numerator / exact.denominator
            if want != g:
                fail(f"sum {cas.show(t)} of terms {parts} gave {g!r}, the correctly "
                     f"rounded sum is {want!r}")
            if len(parts) >= 3:
                rec.label("sum of three or more")
                acc = parts[0]
                for p in parts[1:]:
                    acc += p
                if acc != want:
                    rec.label("sum where a naive loop rounds differently")
    if not rvalues or all(cas.is_int(t) for t in pool if st.is_atom(t)):
        e = real[-1]
        r = NumEval(cas, {})(pool[-1])
        if r is not None:
            rec.label("no symbols")
            g = e.eval_f64()
            if not agrees(g, r):
                fail(f"eval_f64 of {cas.show(pool[-1])} gave {describe(g, r)}")


SUBS = [
    Sub(
        "eval_f64",
        _strategy,
        run,
        quick=7000,
        thorough=200000,
        rule="random shared expressions over integers (also beyond 2**53), three symbols, "
        "n-ary sums and products, powers, sin, cos; up to 3 points mixing benign, huge, "
        "tiny and cancelling values; non-trivial = an expression of three or more parts "
        "whose error bound is below 1e-6 relative",
    ),
    Sub(
        "large", _strategy_large, run, quick=500, thorough=8000,
        rule="sums and products of 129 to 2500 operands, chains and towers of as many; "
        "non-trivial as above",
    ),
    places.sub("f64", "f64_extreme", "f64_missing"),
]

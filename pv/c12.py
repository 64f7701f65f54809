"""C12: binary expansion is exact, left-associated and idempotent."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail
from .build import reals, terms
from .model import Cas

OPS = [
    "addn", "addn", "muln", "muln", "add", "mul", "pow", "sin", "call1:f", "calln:g",
    "list", "sub", "neg", "apply", "list0", "addn", "muln", "wide:Add", "wide:Mul",
    "wide:f", "deep:sin", "headsym:Add", "headsym:Mul", "headown:Add", "headown:Mul",
]


def _strategy():
    from . import gen

    return gen.program(
        OPS, atoms=gen.atom(ints=gen.small_ints, funs=["f", "Add", "Mul"], own=True), max_cmds=16,
        max_arity=7,
    )


def _strategy_large():
    from . import gen

    return gen.large(
        ["Add", "Mul", "Add", "Mul", "f"],
        rest=["addn", "muln", "sin", "call1:f", "wide:Add", "wide:Mul", "pow"])


def run(case, rec):
    from protosym.simplecas import bin_expand

    cas = Cas()
    st = cas.store
    pool = terms(cas, case)
    real = reals(cas, case)
    snap = list(zip(pool, real))
    for t, e in snap[-4:]:
        want = st.bin_expand(t, cas.assoc)
        sub = st.reach(t)
        n = [s for s in sub if st.kids[s] and st.kids[s][0] in cas.assoc
             and len(st.kids[s]) > 3]
        rec.hit(len(n) >= 2)
        if any(st.kids[s] and st.kids[s][0] in cas.assoc and len(st.kids[s]) == 2
               for s in sub):
            rec.label("one-argument sum or product")
        if any(len(st.kids[s]) > 4 for s in n):
            rec.label("four or more arguments")
        if want == t and not st.is_atom(t):
            rec.label("binary already")
        got = e.bin_expand()
        cas.same(got, want, f"bin_expand of {cas.show(t)}")
        cas.same(cas.Expr(bin_expand(e.rep)), want, f"bin_expand of {cas.show(t)}")
        again = got.bin_expand()
        ensure(again is got, "expanding %s again changed it", cas.show(t))
        if want == t:
            ensure(got is e, "bin_expand of the binary %s is another object", cas.show(t))
        # nothing n-ary is left, nothing binary was lost
        for s in st.reach(cas.read(got)):
            ks = st.kids[s]
            if ks and ks[0] in cas.assoc and len(ks) != 3:
                fail(f"bin_expand of {cas.show(t)} left {cas.show(s)}")
    cas.bridge.forget()
    for t, e in snap:
        if cas.read(e) != t:
            fail(f"an input changed: was {cas.show(t)}")


SUBS = [
    Sub(
        "expand",
        _strategy,
        run,
        quick=12000,
        thorough=400000,
        rule="random shared expressions with sums and products of 1-7 arguments; "
        "non-trivial = two distinct sums/products with three or more arguments in one "
        "expression",
    ),
    Sub(
        "large", _strategy_large, run, quick=400, thorough=8000,
        rule="expressions with sums, products and calls of 129 to 2500 operands, and chains "
        "of as many; non-trivial as above",
    ),
    places.sub("expand"),
]

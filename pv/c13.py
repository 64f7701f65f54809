"""C13: operation counts are exact in graph and tree size."""

from __future__ import annotations

from . import places
from .base import Sub, fail
from .build import apply_real, apply_term, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "pow", "sin", "cos", "neg", "sub", "div", "addn", "muln", "call1:f",
    "call2:g", "calln:f", "list", "list0", "call0:h", "apply", "symcall", "square",
    "wide:f", "wide:Add", "deep:g",
]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(funs=gen.FUNS, own=True), max_cmds=20, max_arity=6
            ),
            # the last commands repeated over and over: towers with huge tree sizes
            "tail": st.integers(0, 4),
            "repeat": st.one_of(st.just(0), st.integers(0, 4), st.integers(40, 120)),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {"prog": gen.large([*gen.LARGE_HEADS, "="], rest=OPS, atoms=gen.atom(funs=gen.FUNS, own=True), most=3),
         "tail": st.just(0), "repeat": st.just(0)})


def run(case, rec):
    cas = Cas()
    st = cas.store
    pool = terms(cas, case["prog"])
    real = reals(cas, case["prog"])
    tail = case["prog"]["cmds"][-case["tail"]:] if case["tail"] else []
    tail = [c for c in tail if c[0] not in ("list0",)]
    if not any(c[0] in ("apply", "symcall") for c in tail):
        for _ in range(case["repeat"]):
            for op, idx in tail:
                pool.append(apply_term(cas, op, idx, pool))
                real.append(apply_real(cas, op, idx, real))
    for t, e in list(zip(pool, real))[-6:]:
        g, n = st.graph_size(t), st.tree_size(t)
        rec.hit(n > g >= 4)
        if n > 2**64:
            rec.label("tree size above 2**64")
        if any(st.kids[s] and not st.is_atom(st.kids[s][0]) for s in st.reach(t)):
            rec.label("compound head")
        for name, got, want in (
            ("graph", e.count_ops_graph(), g),
            ("tree", e.count_ops_tree(), n),
        ):
            if type(got) is not int or got != want:
                fail(f"count_ops_{name} of {cas.show(t)} is {got!r}, not {want}")
        if e.count_ops_graph() > e.count_ops_tree():
            fail("graph count exceeds tree count")


SUBS = [
    Sub(
        "count",
        _strategy,
        run,
        quick=9000,
        thorough=300000,
        rule="random shared expressions, a third of them with their last commands "
        "repeated up to 120 times; non-trivial = at least 4 distinct subexpressions and "
        "a tree size above the graph size",
    ),
    Sub(
        "large", _strategy_large, run, quick=400, thorough=8000,
        rule="calls, sums and products of 129 to 2500 operands and chains and towers of as "
        "many; non-trivial as above",
    ),
    places.sub("counts"),
]

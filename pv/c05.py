"""C05: traversals list every subexpression once, children first."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "sin", "addn", "muln", "call1:f", "call2:g", "calln:f", "list0",
    "apply", "apply", "symcall", "call0:h", "calln:g", "wide:f", "wide:Add", "deep:g",
]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(funs=gen.FUNS, own=True), max_cmds=18, max_arity=6
            ),
            "exclude": st.lists(
                st.lists(st.tuples(st.integers(0, 6), st.integers(0, 40)).map(list),
                         max_size=5),
                min_size=1, max_size=3,
            ),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    few = st.lists(st.tuples(st.integers(0, 6), st.integers(0, 3000)).map(list), max_size=5)
    many = st.tuples(st.integers(10, 400), st.integers(1, 7), st.integers(0, 9)).map(
        lambda t: [[1, t[2] + t[1] * k] for k in range(t[0])])
    return st.fixed_dictionaries(
        {
            "prog": gen.large([*gen.LARGE_HEADS, "="], rest=OPS,
                              atoms=gen.atom(funs=gen.FUNS, own=True)),
            "exclude": st.lists(st.one_of(few, many), min_size=1, max_size=2),
            "probe": st.integers(0, 40),
        }
    )


def check_order(cas, order, want, heads, exclude, what):
    """order lists exactly the terms in want, children before parents."""
    pos = {}
    for i, t in enumerate(order):
        if t in pos:
            fail(f"{what}: {cas.show(t)} listed twice")
        pos[t] = i
    for t in want:
        if t not in pos:
            fail(f"{what}: {cas.show(t)} missing")
    for t in pos:
        if t not in want:
            fail(f"{what}: {cas.show(t)} should not be listed")
    for t in pos:
        ks = cas.store.kids[t]
        for c in ks if heads else ks[1:]:
            if c not in exclude and pos[c] >= pos[t]:
                fail(f"{what}: {cas.show(t)} listed before its child {cas.show(c)}")


def as_list(x, what):
    ensure(isinstance(x, list), "%s is not a list: %s", what, short(x))
    return x


def check_graph(cas, tree, t):
    """forward_graph replays to the expression."""
    from protosym.core.tree import forward_graph

    read = cas.bridge.read
    st = cas.store
    g = forward_graph(tree)
    atoms = [read(a) for a in as_list(g.atoms, "graph.atoms")]
    want = st.reach(t)
    check_order(cas, atoms, {s for s in want if st.is_atom(s)}, False, (), "graph.atoms")
    nodes = {s for s in want if not st.is_atom(s)}
    hs = [read(h) for h in g.heads]
    ensure(
        len(set(hs)) == len(hs) and set(hs) == {st.kids[s][0] for s in nodes},
        "graph.heads of %s is %s", cas.show(t), [cas.show(h) for h in hs],
    )
    stack = list(atoms)
    seen = set(atoms)
    for head, idx in as_list(g.operations, "graph.operations"):
        for i in idx:
            if not (isinstance(i, int) and 0 <= i < len(stack)):
                fail(f"graph of {cas.show(t)}: operation {len(stack)} refers to entry {i}")
        s = st.node(read(head), *[stack[i] for i in idx])
        if s in seen:
            fail(f"graph of {cas.show(t)} produces {cas.show(s)} twice")
        seen.add(s)
        stack.append(s)
    if set(stack) != want:
        fail(f"graph of {cas.show(t)} does not produce exactly its subexpressions")
    if not stack or stack[-1] != t:
        fail(f"graph of {cas.show(t)} ends with another expression")
    # and by really replaying it
    real = list(g.atoms)
    for head, idx in g.operations:
        real.append(head(*[real[i] for i in idx]))
    if real[-1] is not tree:
        fail(f"replaying the graph of {cas.show(t)} gives another object")


def run(case, rec):
    from protosym.core.tree import topological_sort, topological_split

    cas = Cas()
    st = cas.store
    pool = terms(cas, case["prog"])
    real = [e.rep for e in reals(cas, case["prog"])]
    read = cas.bridge.read
    t, tree = pool[-1], real[-1]
    rec.hit(st.graph_size(t) >= 4 and st.tree_size(t) > st.graph_size(t))
    if any(not st.is_atom(st.kids[s][0]) for s in st.reach(t) if st.kids[s]):
        rec.label("compound head")
    if st.is_atom(t):
        rec.label("atomic expression")

    def sort(what, want, full, excl, **kw):
        out = as_list(topological_sort(tree, **kw), what)
        order = [read(s) for s in out]
        check_order(cas, order, want, full, excl, what)
        if want and order[-1] != t:
            fail(f"{what}: ends with {cas.show(order[-1])}")
        for o, s in zip(out, order):
            if o is not cas.bridge.build(s):
                fail(f"{what}: {cas.show(s)} is a different object")
        del out[:]  # the list belongs to the caller
        return order

    name = f"topological_sort of {cas.show(t)}"
    for _ in range(2):
        sort(name, st.reach(t), False, ())
        sort(name + " with heads", st.reach(t, heads=True), True, (), heads=True)

    def split(what, want, excl, **kw):
        atoms, heads, nodes = topological_split(tree, **kw)
        a = [read(s) for s in as_list(atoms, what)]
        n = [read(s) for s in as_list(nodes, what)]
        h = [read(s) for s in heads]
        check_order(cas, a, {s for s in want if st.is_atom(s)}, False, excl, what + " atoms")
        inner = {s for s in want if not st.is_atom(s)}
        seen = set(a) | set(excl)
        for s in n:
            for c in st.kids[s][1:]:
                if c not in seen:
                    fail(f"{what}: {cas.show(s)} listed before its child {cas.show(c)}")
            if s in seen:
                fail(f"{what}: {cas.show(s)} listed twice")
            seen.add(s)
        ensure(set(n) == inner, "%s: wrong compound nodes", what)
        ensure(len(set(h)) == len(h) and set(h) == {st.kids[s][0] for s in inner},
               "%s: wrong heads", what)

    split(f"topological_split of {cas.show(t)}", st.reach(t), ())
    check_graph(cas, tree, t)

    inside = sorted(st.reach(t, heads=True))
    for spec in case["exclude"]:
        excl = set()
        for mode, i in spec:
            s = inside[i % len(inside)] if mode < 5 else pick(pool, i)
            if s != t or mode == 0 and i % 3 == 0:
                excl.add(s)
        rexcl = {cas.bridge.build(s) for s in excl}
        if any(s in excl and not st.is_atom(s) for s in inside):
            rec.label("compound excluded")
        if t in excl:
            rec.label("whole expression excluded")
        snap = set(rexcl)
        what = f"topological_sort of {cas.show(t)} excluding {[cas.show(s, 60) for s in list(excl)[:9]]}"
        sort(what, st.reach(t, exclude=excl), False, excl, exclude=rexcl)
        ensure(rexcl == snap, "%s: the excluded set was modified", what)
        sort(what + " with heads", st.reach(t, True, excl), True, excl,
             exclude=rexcl, heads=True)
        ensure(rexcl == snap, "%s: the excluded set was modified", what)
        split(what.replace("_sort", "_split"), st.reach(t, exclude=excl), excl, exclude=rexcl)
        ensure(rexcl == snap, "%s: the excluded set was modified", what)
        for s in inside if len(inside) < 200 else inside[case.get("probe", 0)::41]:
            if s in excl or st.is_atom(s):
                want = [] if s in excl else [s]
                for heads in (False, True):
                    got = topological_sort(cas.bridge.build(s), exclude=rexcl, heads=heads)
                    if [read(r) for r in got] != want:
                        fail(f"topological_sort of {cas.show(s)} excluding "
                             f"{[cas.show(x, 60) for x in list(excl)[:9]]} gave {short(got)}")
    cas.bridge.forget()
    for s, e in zip(pool, real):
        if read(e) != s:
            fail(f"an input tree changed: was {cas.show(s)}")


SUBS = [
    Sub(
        "traverse",
        _strategy,
        run,
        quick=8000,
        thorough=300000,
        rule="random shared trees (any tree may be a head, calls without arguments "
        "included) and 1-3 excluded sets; non-trivial = at least 4 distinct "
        "subexpressions, some of them repeated",
    ),
    Sub(
        "large", _strategy_large, run, quick=320, thorough=8000,
        rule="calls of 129 to 2500 operands, chains and towers of as many, excluded sets of "
        "up to 400; non-trivial as above",
    ),
    places.sub("sort", "split", "graph"),
]

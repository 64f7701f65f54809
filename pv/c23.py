"""C23: transformers rewrite exactly what their rules say."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail
from .build import pick, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "sin", "addn", "call1:f", "call2:g", "calln:f", "list0", "calln:h",
    "apply", "symcall", "call0:h", "call1:g", "call2:f", "pow", "wide:f", "deep:g",
]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    i = st.integers(0, 20)
    step = st.one_of(
        st.tuples(st.just("op"), i, st.integers(0, 6), i, st.integers(0, 2)),
        st.tuples(st.just("op"), i, st.integers(0, 6), i, st.integers(0, 2)),
        st.tuples(st.just("atom"), st.sampled_from(["Integer", "Symbol", "Function"]),
                  st.integers(0, 3), i),
        st.tuples(st.sampled_from(["anyhead", "anyatom"]), st.integers(0, 6), i),
        st.tuples(st.just("apply"), st.integers(0, 3),
                  st.lists(st.tuples(i, i).map(list), max_size=3)),
        st.tuples(st.just("apply"), st.integers(0, 3),
                  st.lists(st.tuples(i, i).map(list), max_size=3)),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, funs=gen.FUNS, own=True), max_cmds=14),
            "steps": st.lists(
                st.tuples(st.integers(0, 1), step).map(list), min_size=1, max_size=12),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    i = st.integers(0, 3000)
    op = st.tuples(st.just("op"), i, st.integers(0, 6), i, st.integers(0, 2)).map(list)
    ops = st.tuples(op, st.integers(2, 200)).map(
        lambda t: [["op", t[0][1] + k, (t[0][2] + k) % 7, t[0][3], t[0][4]]
                   for k in range(t[1])])
    few = st.lists(st.one_of(op, st.tuples(
        st.just("atom"), st.sampled_from(["Integer", "Symbol", "Function"]),
        st.integers(0, 3), i).map(list)), max_size=4)
    use = st.tuples(st.just("apply"), st.integers(0, 3), st.one_of(
        st.lists(st.tuples(i, i).map(list), max_size=3),
        st.tuples(i, i, st.integers(20, 400)).map(
            lambda t: [[t[0] + k, t[1] + k // 3] for k in range(t[2])]))).map(list)
    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                ["f", "g", "Add", "List", "="], rows=("Add",), towers=("f", "pow"), rest=OPS,
                atoms=gen.atom(funs=gen.FUNS, ints=gen.small_ints)),
            "steps": st.tuples(st.one_of(few, ops), st.lists(use, max_size=2)).map(
                lambda t: [[0, s] for s in t[0] + t[1]]),
        }
    )


def run(case, rec):
    from protosym.core.evaluate import Transformer

    cas = Cas()
    st = cas.store
    pool = terms(cas, case["prog"])
    real = [e.rep for e in reals(cas, case["prog"])]
    build = cas.bridge.build
    trs = [Transformer(), Transformer()]
    rules = [({}, {}, {}), ({}, {}, {})]  # heads, kinds, fallbacks

    def head_rule(h, kind, other, args):
        """The meaning of a head rule on (already transformed) argument terms."""
        if kind == 0:
            return st.node(other, *args)
        if kind == 1:
            return st.node(h, *args[::-1])
        if kind == 2:
            return args[-1] if args else other
        if kind == 3:
            return other
        if kind == 4:
            return st.node(other, st.node(h, *args))
        if kind == 5:
            return st.node(h, *args, other)
        return st.node(h, *args)

    def atom_rule(k, kind, other, value):
        if kind == 0:
            return other
        if kind == 1:
            nv = value + 1 if k == "Integer" else value + "'"
            return st.atom(k, nv)
        if kind == 2:
            return st.node(cas.fn("w"), st.atom(k, value))
        return st.atom(k, value)

    def meaning(n, t, values):
        hs, ks, anys = rules[n]
        new = {}
        used = False
        for s in sorted(st.reach(t)):
            if st.is_atom(s):
                if s in values:
                    new[s] = values[s]
                elif st.kind[s] in ks:
                    kind, other = ks[st.kind[s]]
                    new[s] = atom_rule(st.kind[s], kind, other, st.value[s])
                    used = True
                elif "anyatom" in anys:
                    kind, other = anys["anyatom"]
                    new[s] = atom_rule(st.kind[s], 2 * (kind % 2), other, st.value[s])
                    used = True
                else:
                    new[s] = s
            else:
                h, *args = st.kids[s]
                args = [new[a] for a in args]
                if h in hs:
                    kind, other = hs[h]
                    new[s] = head_rule(h, kind, other, args)
                    used = True
                elif "anyhead" in anys:
                    kind, other = anys["anyhead"]
                    new[s] = head_rule(h, kind, other, args)
                    used = True
                else:
                    new[s] = st.node(h, *args)
        return new[t], used

    def add(n, step):
        if step[0] == "op":
            _, i, kind, j, style = step
            cand = sorted(st.reach(pool[-1], heads=True))
            hs = sorted({st.kids[s][0] for s in cand if st.kids[s]})
            h = hs[i % len(hs)] if hs and style else cand[i % len(cand)]
            other = pick(pool, j)
            rules[n][0][h] = (kind, other)
            arities = {len(st.kids[s]) - 1 for t in pool for s in st.reach(t)
                       if st.kids[s] and st.kids[s][0] == h}
            rh = build(h)

            def f(args, h=h, kind=kind, other=other):
                ts = [cas.bridge.read(a) for a in args]
                return build(head_rule(h, kind, other, ts))

            if style == 2 and arities == {1}:
                trs[n].add_op1(rh, lambda a: f([a]))
            elif style == 2 and arities == {2}:
                trs[n].add_op2(rh, lambda a, b: f([a, b]))
            else:
                trs[n].add_opn(rh, f)
        elif step[0] == "anyhead":
            _, kind, j = step
            other = pick(pool, j)
            rules[n][2]["anyhead"] = (kind, other)
            trs[n].add_op_generic(lambda head, args: build(head_rule(
                cas.bridge.read(head), kind, other, [cas.bridge.read(a) for a in args])))
        elif step[0] == "anyatom":
            _, kind, j = step
            other = pick(pool, j)
            rules[n][2]["anyatom"] = (kind, other)

            def fallback(atom):
                s = cas.bridge.read(atom)
                return build(atom_rule(st.kind[s], 2 * (kind % 2), other, st.value[s]))

            trs[n].add_atom_generic(fallback)
        else:
            _, k, kind, j = step
            other = pick(pool, j)
            rules[n][1][k] = (kind, other)
            trs[n].add_atom(
                cas.bridge.kinds[k],
                lambda v, k=k, kind=kind, other=other: build(atom_rule(k, kind, other, v)),
            )

    def apply(n, root, vals):
        t, tree = pick(pool, root), pick(real, root)
        atoms = [s for s in sorted(st.reach(t, heads=True)) if st.is_atom(s)]
        values = {atoms[i % len(atoms)]: pick(pool, j) for i, j in vals}
        want, used = meaning(n, t, values)
        rv = {build(s): build(v) for s, v in values.items()}
        snap = list(rv.items())
        what = f"transforming {cas.show(t)}"
        tr = trs[n]
        fs = [lambda: tr(tree, rv), lambda: tr.evaluate(tree, rv),
              lambda: tr.eval_forward(tree, rv)]
        if st.tree_size(t) < 500:
            fs.append(lambda: tr.eval_recursive(tree, rv))
        if not rv:
            fs.append(lambda: tr(tree))
        for f in fs:
            got = f()
            cas.bridge.same(got, want, what)
            if not used and not values:
                ensure(got is tree, "%s: no rule applies, but another object results", what)
        ensure(
            list(rv.items()) == snap, "%s: the dictionary of values was modified", what)
        rec.hit(used and want != t and st.graph_size(t) >= 3)
        if used:
            rec.label("a rule applies")
        else:
            rec.label("no rule applies")
        if any(not st.is_atom(v) for v in values.values()):
            rec.label("compound supplied")

    for n, step in case["steps"]:
        if step[0] == "apply":
            apply(n, step[1], step[2])
        else:
            add(n, step)
    for n in (0, 1):
        apply(n, 0, [])
    cas.bridge.forget()
    for t, e in zip(pool, real):
        if cas.bridge.read(e) != t:
            fail(f"an input tree changed: was {cas.show(t)}")


SUBS = [
    Sub(
        "transform",
        _strategy,
        run,
        quick=9000,
        thorough=300000,
        rule="random shared trees and histories of rules (7 kinds of head rule, 4 of atom "
        "rule, fallbacks of their own) and applications on two transformers; non-trivial = a rule applies and "
        "changes an expression of three or more distinct parts",
    ),
    Sub(
        "large", _strategy_large, run, quick=240, thorough=6000,
        rule="calls of 129 to 2500 operands, chains and towers of as many, up to 200 rules "
        "and 400 supplied values; non-trivial as above",
    ),
    places.sub("transformer"),
]

"""C04: building expressions is inert and exact."""

from __future__ import annotations

import operator
from fractions import Fraction

from .base import Sub, ensure, fail, short
from .build import atom_real, atom_term, pick
from .model import Cas

BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul,
    "/": operator.truediv, "**": operator.pow,
}
INPLACE = {
    "+": operator.iadd, "-": operator.isub, "*": operator.imul,
    "/": operator.itruediv, "**": operator.ipow,
}


def bad_operands(cas):
    from decimal import Decimal

    return [
        1.5, 2.0, "x", None, 1j, Fraction(1, 2), [1], (1, 2), {}, Decimal(1), object(),
        cas.bridge.build(cas.sym("x")), cas.sc.Integer, ..., b"1", float("nan"),
        cas.sc.Integer.atom_type(1), {1}, int,
    ]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    idx = st.one_of(st.integers(0, 3), st.integers(0, 20))
    lit = st.one_of(gen.small_ints, gen.any_ints)
    cmd = st.one_of(
        st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), idx, idx),
        st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), idx, idx),
        st.tuples(st.just("rint"), st.sampled_from(sorted(BIN)), idx, lit),
        st.tuples(st.just("lint"), st.sampled_from(sorted(BIN)), idx, lit),
        st.tuples(st.just("ibin"), st.sampled_from(sorted(BIN)), idx, idx),
        st.tuples(st.just("irint"), st.sampled_from(sorted(BIN)), idx, lit),
        st.tuples(st.just("ilint"), st.sampled_from(sorted(BIN)), idx, lit),
        st.tuples(st.just("un"), st.sampled_from(["+", "-"]), idx),
        st.tuples(
            st.just("call"), idx,
            st.lists(st.one_of(idx.map(lambda i: ["e", i]), lit.map(lambda n: ["i", n])),
                     max_size=5),
        ),
        st.tuples(
            st.just("callf"), st.sampled_from(["Add", "Mul", "pow", "sin", "List", "f"]),
            st.lists(st.one_of(idx.map(lambda i: ["e", i]), lit.map(lambda n: ["i", n])),
                     max_size=5),
        ),
        st.tuples(st.just("atom"), gen.atom(funs=gen.FUNS, syms=st.text(max_size=4))),
        st.tuples(st.just("int"), lit),
        st.tuples(st.just("bad"), st.sampled_from(sorted(BIN)), idx, st.integers(0, 18),
                  st.integers(0, 3)),
        st.tuples(st.just("badcall"), idx, st.integers(0, 18)),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "atoms": st.lists(gen.atom(funs=gen.FUNS, own=True), min_size=1, max_size=4),
            "cmds": st.one_of(
                st.lists(cmd, min_size=1, max_size=8), st.lists(cmd, min_size=8, max_size=30)
            ),
        }
    )


def _strategy_large():
    """Calls of hundreds of operands, and long chains of operators."""
    from hypothesis import strategies as st

    from . import gen
    from .build import BIG

    i = st.integers(0, 40)
    wide = st.tuples(
        st.one_of(i.map(lambda k: ["call", k]),
                  st.sampled_from(["Add", "Mul", "pow", "List", "f"]).map(
                      lambda f: ["callf", f])),
        st.sampled_from(BIG), i, i
    ).map(lambda t: t[0] + [[["i", (k // 7) - t[3]] if k % 3 == t[2] % 3 else
                             ["e", (k * t[2] + t[3]) % 40] for k in range(t[1])]])
    chain = st.tuples(
        st.sampled_from(["bin", "ibin", "rint", "lint", "irint"]), st.sampled_from(BIG),
        st.lists(st.sampled_from(sorted(BIN)), min_size=1, max_size=3), i,
    ).map(lambda t: ["times", [[t[0], t[2][k % len(t[2])], 0, (k * 7 + t[3]) % 40]
                               for k in range(t[1])]])
    atoms = st.tuples(st.just("times"), st.lists(
        st.tuples(st.just("atom"), gen.atom(funs=gen.FUNS, own=True)).map(list),
        max_size=40)).map(list)
    return st.fixed_dictionaries(
        {
            "atoms": st.lists(gen.atom(funs=gen.FUNS, own=True), min_size=1, max_size=4),
            "cmds": st.tuples(atoms, st.lists(st.one_of(wide, chain), min_size=1, max_size=3)
                              ).map(lambda t: [t[0], *t[1]]),
        }
    )


def flatten(cmds):
    for c in cmds:
        if c[0] == "times":
            yield from c[1]
        else:
            yield c


def meaning(cas, op, a, b):
    n = cas.node
    if op == "+":
        return n(cas.Add, a, b)
    if op == "-":
        return n(cas.Add, a, n(cas.Mul, cas.int(-1), b))
    if op == "*":
        return n(cas.Mul, a, b)
    if op == "/":
        return n(cas.Mul, a, n(cas.Pow, b, cas.int(-1)))
    return n(cas.Pow, a, b)


def check_parts(cas, e, t):
    st = cas.store
    if st.is_atom(t):
        return
    ks = st.kids[t]
    cas.same(e.head, ks[0], lambda: "head of " + cas.show(t))
    args = e.args
    if not isinstance(args, tuple) or len(args) != len(ks) - 1:
        fail(f"args of {cas.show(t)} is {short(args)}")
    for a, k in zip(args, ks[1:]):
        cas.same(a, k, lambda: "an argument of " + cas.show(t))


def run(case, rec):
    cas = Cas()
    sc = cas.sc
    terms = [atom_term(cas, a) for a in case["atoms"]]
    real = [atom_real(cas, a) for a in case["atoms"]]
    bads = bad_operands(cas)
    ints = comp = False
    for cmd in flatten(case["cmds"]):
        op = cmd[0]
        fns = BIN
        if op in ("ibin", "irint", "ilint"):
            op, fns = op[1:], INPLACE
            rec.label("in place")
        if op == "bin":
            t = meaning(cas, cmd[1], pick(terms, cmd[2]), pick(terms, cmd[3]))
            e = fns[cmd[1]](pick(real, cmd[2]), pick(real, cmd[3]))
            comp = comp or not cas.store.is_atom(pick(terms, cmd[2]))
        elif op == "rint":
            t = meaning(cas, cmd[1], pick(terms, cmd[2]), cas.int(cmd[3]))
            e = fns[cmd[1]](pick(real, cmd[2]), cmd[3])
            ints = True
        elif op == "lint":
            t = meaning(cas, cmd[1], cas.int(cmd[3]), pick(terms, cmd[2]))
            e = fns[cmd[1]](cmd[3], pick(real, cmd[2]))
            ints = True
        elif op == "un":
            a, r = pick(terms, cmd[2]), pick(real, cmd[2])
            t = a if cmd[1] == "+" else cas.node(cas.Mul, cas.int(-1), a)
            e = +r if cmd[1] == "+" else -r
        elif op in ("call", "callf"):
            if op == "call":
                h, rh = pick(terms, cmd[1]), pick(real, cmd[1])
            else:
                h = cas.fn(cmd[1])
                rh = {"Add": sc.Add, "Mul": sc.Mul, "pow": sc.Pow, "sin": sc.sin,
                      "List": sc.List, "f": sc.f}[cmd[1]]
            t = cas.node(
                h, *[pick(terms, v) if k == "e" else cas.int(v) for k, v in cmd[2]])
            e = rh(*[pick(real, v) if k == "e" else v for k, v in cmd[2]])
            if any(k == "i" for k, _ in cmd[2]):
                ints = True
            comp = comp or len(cmd[2]) > 100
            rec.label("call")
        elif op == "atom":
            t, e = atom_term(cas, cmd[1]), atom_real(cas, cmd[1])
        elif op == "int":
            t, e = cas.int(cmd[1]), sc.expressify(cmd[1])
            cas.same(sc.expressify(e), t, "expressify of an expression")
        elif op == "bad":
            v = bads[cmd[3] % len(bads)]
            r = pick(real, cmd[2])
            rec.label("bad operand")
            try:
                fns = INPLACE if cmd[4] > 1 else BIN
                got = fns[cmd[1]](r, v) if cmd[4] % 2 else fns[cmd[1]](v, r)
            except TypeError:
                continue
            fail(f"operand {short(v)} accepted by {cmd[1]}: gave {short(got)}")
        else:
            v = bads[cmd[2] % len(bads)]
            rec.label("bad operand")
            try:
                got = pick(real, cmd[1])(1, v)
            except TypeError:
                continue
            fail(f"argument {short(v)} accepted by a call: gave {short(got)}")
        if cas.store.is_atom(t) and cas.is_int(t):
            ensure(type(e) is cas.Expr and type(e.rep.value.value) is int,
                   "integer %s became %s", cas.show(t), short(e.rep))
        cas.same(e, t, lambda: f"{short(cmd)} on {[cas.show(x, 60) for x in terms[-4:]]}")
        check_parts(cas, e, t)
        terms.append(t)
        real.append(e)
        if len(terms) > 24:
            del terms[0], real[0]
    rec.hit(ints and comp)
    cas.bridge.forget()
    for t, e in zip(terms, real):
        if cas.bridge.read(e.rep) != t:
            fail(f"an operand changed: was {cas.show(t)}")


SUBS = [
    Sub(
        "operators",
        _strategy,
        run,
        quick=8000,
        thorough=300000,
        rule="programs of up to 30 operator applications (5 binary operators, plain and in "
        "place, with expressions or ints on either side, unary, calls of any expression, atoms, "
        "invalid operands); non-trivial = an int operand and a compound operand occur",
    ),
    Sub(
        "large", _strategy_large, run, quick=400, thorough=8000,
        rule="calls of any expression with 129 to 2500 operands and chains of as many "
        "operators; non-trivial as above, a call of more than 100 operands counting as a "
        "compound",
    ),
]

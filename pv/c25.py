"""C25: names carry no meaning; languages made on the core act like simplecas."""

from __future__ import annotations

import math
import re
import struct

from .base import Sub, ensure, fail, short
from .build import pick, terms
from .model import Bridge, Cas

OPS = [
    "add", "mul", "sin", "cos", "sub", "neg", "addn", "muln", "ipow", "pow", "inc", "div",
    "call1:qf", "call2:qg", "calln:qf", "call1:qg", "call0:qh", "list", "apply", "square",
    "mid:Add", "mid:Mul", "wide:qf", "headsym:qx", "headsym:qx", "headsym:qy",
]
SYMS = ["qx", "qy", "qz"]
SAMPLE = {"J": 0, "T": "", "G": "", "R": 0.0}
FUNS = ["qf", "qg", "qh"]
# names that mean something elsewhere, and names like each other
IMAGES = [
    "x", "y", "a", "b", "f", "g", "sin", "cos", "pow", "Add", "Mul", "List", "Integer",
    "Symbol", "Star", "Wild", "zero", "one", "negone", "diff", "e", "E", "I", "pi", "nan",
    "inf", "None", "True", "0", "1", "-1", "2", "", " ", "qx", "qy", "qz", "x1", "X", "_",
    "d", "dx", "_out", ".0", "%x", "x y", "\u03b1", "\u00e9", "e\u0301", "zz", "A", "long" * 20,
    "long" * 20 + "1", "log", "exp", "lambda", "Expr", "Tree", "double",
]
# names that other programs show or compute in a way of their own
KNOWN = [
    "alpha", "beta", "gamma", "theta", "lambda", "mu", "pi", "Omega", "hbar", "infty", "oo",
    "x_1", "x_y", "x1", "x_", "xhat", "vec", "tan", "sqrt", "Abs", "Max", "log", "exp", "ln",
    "Pow", "Tuple", "Rational", "Derivative", "Symbol", "I", "E", "S", "N", "O", "Q",
]
FIXED = {"sin", "cos", "pow", "Add", "Mul", "List"}


def names(n, tag, used=()):
    from hypothesis import strategies as st

    pool = [s for s in IMAGES if s not in used]
    return st.lists(
        st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(KNOWN),
                  st.text(min_size=1, max_size=3).filter(lambda s: s not in used)),
        min_size=n, max_size=n, unique=True)


def program(max_cmds=12):
    from . import gen

    return gen.program(
        OPS, atoms=gen.atom(ints=gen.small_ints, syms=SYMS, funs=FUNS), max_cmds=max_cmds,
        max_arity=4)


STEPS = ["diff", "subst", "expand", "counts", "f64", "sort", "print", "matrix", "ir",
         "transform", "ownrules"]
LANGSTEPS = ["diff", "subst", "expand", "counts", "value", "sort", "shape", "transform"]


def steps_of(kinds):
    from hypothesis import strategies as st

    i = st.integers(0, 12)
    return st.lists(st.tuples(st.sampled_from(kinds), i, i, i).map(list), min_size=1,
                    max_size=8)


def _strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": program(),
            "syms": st.one_of(
                names(3, "s"), st.permutations(SYMS),
                st.lists(st.sampled_from([*sorted(FIXED), *FUNS, "a", "b"]), min_size=3,
                         max_size=3, unique=True)),
            "funs": st.one_of(names(3, "f", FIXED), st.permutations(FUNS)),
            "steps": steps_of(STEPS),
            "first": st.booleans(),
            "point": st.lists(st.floats(-3, 3), min_size=3, max_size=3),
        }
    )


def _strategy_kinds():
    from hypothesis import strategies as st

    from . import gen

    kind = st.one_of(
        st.sampled_from(["Integer", "Symbol", "Function", "Wild", "Float", "Q", "", "Expr"]),
        st.text(max_size=3))
    prog = gen.program(
        [*OPS, "headown:Add", "headown:sin", "headown:qf"],
        atoms=gen.atom(ints=gen.small_ints, syms=SYMS, funs=FUNS, own=True), max_cmds=12,
        max_arity=4)
    return st.fixed_dictionaries(
        {
            "prog": prog, "syms": st.just(SYMS), "funs": st.just(FUNS),
            "kinds": st.lists(kind, min_size=4, max_size=4),
            "steps": steps_of([*STEPS, "sympy", "latex"]),
            "first": st.booleans(),
            "point": st.lists(st.floats(-3, 3), min_size=3, max_size=3),
        }
    )


def outcome(f):
    """The result of f, or the type of the exception it raises."""
    try:
        return ("ok", f())
    except Exception as err:  # noqa: same exception expected on both sides
        err.__traceback__ = None
        return ("raises", type(err))


def bits(v):
    return struct.pack("<d", v) if isinstance(v, float) else v


def rules(D, fn, wild):
    """Arbitrary derivative rules, enough for every head."""
    a, b = wild("a"), wild("b")
    for n in ("qf", "qg", "qh"):
        f = fn(n)
        D[f(a), a] = fn("qh")(a, f(a))
        D[f(a, b), a] = fn("Mul")(b, fn("qh")(b, a))
        D[f(a, b), b] = a
    return D


def run(case, rec):
    from protosym.core.evaluate import Transformer
    from protosym.core.sym import SymDifferentiator
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

    cas = Cas()
    sc, st = cas.sc, cas.store
    pool = terms(cas, case["prog"])
    smap = dict(zip(SYMS, case["syms"]))
    fmap = dict(zip(FUNS, case["funs"]))
    memo = {}
    kinds = case.get("kinds")
    if kinds:
        for (k, own), name in zip(cas.own.items(), kinds):
            cas.bridge.add_kind(
                "alt " + k, sc.Expr.new_atom(name, type(own(SAMPLE[k]).rep.value.value)).atom_type)

    def ren(t):
        for s in sorted(st.reach(t, heads=True)):
            if s in memo:
                continue
            if st.kids[s]:
                memo[s] = st.node(*[memo[c] for c in st.kids[s]])
            else:
                k, v = st.kind[s], st.value[s]
                if k == "Symbol":
                    v = smap.get(v, v)
                elif k == "Function":
                    v = fmap.get(v, v)
                elif kinds and k.startswith("own "):
                    k = "alt " + k[4:]
                memo[s] = st.atom(k, v)
        return memo[t]

    plain = {**smap, **fmap}
    textual = not kinds and all(re.fullmatch(r"[A-Za-z_]\w*", v) and not v.startswith("_out")
                  for v in plain.values()) and len(set(plain.values())) == 6

    def ren_text(s):
        return re.sub(r"\bq[xyzfgh]\b", lambda m: plain[m.group(0)], s)

    def both(what, op, shape):
        """op(side) on both sides; shape(result, side) in comparable form."""
        order = (0, 1) if case["first"] else (1, 0)
        res = {}
        for s in order:
            res[s] = outcome(lambda s=s: shape(op(s), s))
        if res[0] != res[1]:
            ren_ = f"own kinds named {kinds}" if kinds else f"renaming {plain}"
            fail(f"{what}: {ren_} gives {show(res[1])}, expected {show(res[0])}")
        return res[0][0] == "ok"

    def show(r):
        try:
            if isinstance(r[1], int) and not isinstance(r[1], bool):
                return cas.show(r[1])
        except IndexError:
            pass
        return str(short(r, 400))

    def side(t, s):
        return cas.expr(ren(t) if s else t)

    def term(r, s):
        """Of a result, in the names of the renamed side."""
        t = cas.read(r) if isinstance(r, cas.Expr) else cas.bridge.read(r)
        return t if s else ren(t)

    def many(rs, s):
        return [term(r, s) for r in rs]

    done = 0
    for op, i, j, k in case["steps"]:
        t, a, b = pick(pool, i), pick(pool, j), pick(pool, k)
        v = cas.sym(SYMS[j % 3])
        if kinds and j % 5 == 0:
            v = cas.own_atom("T", "x")
        what = f"{op} of {cas.show(t)}"
        ok = False
        if op == "diff":
            ok = both(what, lambda s: side(t, s).diff(side(v, s), k % 3), term)
        elif op == "ownrules":
            def own(s):
                fn = (lambda n: sc.Function(fmap.get(n, n))) if s else sc.Function
                D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero,
                                      one=sc.one)
                a_ = sc.Expr.new_wild("a")
                D[sc.sin(a_), a_] = sc.cos(a_)
                if k % 2:
                    D.add_distributive_rule(fn("qg"))
                return rules(D, fn, sc.Expr.new_wild)(side(t, s), side(v, s), 1 + k % 2)
            ok = both(what, own, term)
        elif op == "subst":
            if a == b:
                b = cas.sym("qz") if a != cas.sym("qz") else cas.sym("qx")
            c = pick(pool, i + j + k)
            ok = both(what, lambda s: side(t, s).xreplace(
                {side(a, s): side(c, s), side(b, s): side(a, s)}), term)
            both(what, lambda s: side(t, s).as_function(side(b, s))(side(c, s)), term)
        elif op == "expand":
            ok = both(what, lambda s: side(t, s).bin_expand(), term)
        elif op == "counts":
            ok = both(what, lambda s: (side(t, s).count_ops_tree(),
                                       side(t, s).count_ops_graph()), lambda r, s: r)
        elif op == "f64":
            ok = both(what, lambda s: side(t, s).eval_f64(
                {side(cas.sym(n), s): p for n, p in zip(SYMS, case["point"])}),
                lambda r, s: bits(r))
        elif op == "sort":
            ex = lambda s: {side(a, s).rep}  # noqa
            ok = both(what, lambda s: topological_sort(side(t, s).rep), many)
            both(what, lambda s: topological_sort(side(t, s).rep, heads=True), many)
            both(what, lambda s: topological_sort(side(t, s).rep, exclude=ex(s)), many)
            both(what, lambda s: topological_split(side(t, s).rep),
                 lambda r, s: (many(r[0], s), sorted(many(r[1], s)), many(r[2], s)))
            both(what, lambda s: forward_graph(side(t, s).rep),
                 lambda r, s: (many(r.atoms, s), sorted(many(r.heads, s)),
                               [(term(h, s), list(ix)) for h, ix in r.operations]))
        elif op == "print" and textual and st.tree_size(t) < 3000:
            ok = both(what, lambda s: (repr(side(t, s)), side(t, s).eval_latex(),
                                       str(side(t, s).rep), repr(side(t, s).rep)),
                      lambda r, s: r if s else tuple(ren_text(x) for x in r))
            rec.label("texts compared")
        elif op == "ir":
            args = [cas.sym(SYMS[(j + n) % 3]) for n in range(3)]
            if textual:
                ok = both(what, lambda s: side(t, s).to_llvm_ir([side(x, s) for x in args]),
                          lambda r, s: r if s else ren_text(r))
            else:
                ok = both(what, lambda s: side(t, s).to_llvm_ir([side(x, s) for x in args]),
                          lambda r, s: r if kinds else "text")
        elif op == "sympy":
            ok = both(what, lambda s: str(side(t, s).to_sympy()), lambda r, s: r)
        elif op == "latex" and st.tree_size(t) < 3000:
            ok = both(what, lambda s: (repr(side(t, s)), side(t, s).eval_latex(),
                                       str(side(t, s).rep)), lambda r, s: r)
        elif op == "matrix":
            def mat(s):
                m = sc.Matrix([[side(t, s), 0, side(a, s)], [0, side(b, s), side(t, s)]])
                n = sc.Matrix([[0, side(b, s), side(t, s)], [side(a, s), 0, 0]])
                return (m + n).diff(side(v, s)) if k % 2 else m + n
            ok = both(what, mat, lambda r, s: [many(row, s) for row in r.tolist()])
        elif op == "transform":
            def tr(s):
                T = Transformer()
                fn = (lambda n: sc.Function(fmap.get(n, n))) if s else sc.Function
                T.add_opn(fn("qf").rep, lambda args: fn("qg").rep(*args[::-1]))
                T.add_op1(sc.sin.rep, lambda x: sc.cos.rep(x, x))
                return T(side(t, s).rep, {side(v, s).rep: side(a, s).rep})
            ok = both(what, tr, term)
        else:
            continue
        rec.label(op if ok else "both raise")
        done += ok and ren(t) != t
    del SubsFunc
    if len(set(plain.values())) < 6:
        rec.label("a symbol and a function of one name")
    if any(v in FIXED for v in smap.values()):
        rec.label("a symbol named like a head")
    rec.hit(done >= 1 and st.graph_size(pool[-1]) >= 4)


# -- languages made on the core -------------------------------------------------------


def _strategy_lang():
    from hypothesis import strategies as st

    kind = st.sampled_from(["Integer", "Symbol", "Function", "Wild", "Num", "x", ""])
    return st.fixed_dictionaries(
        {
            "prog": program(),
            "kinds": st.lists(st.tuples(kind, kind, kind).map(list), min_size=1, max_size=2),
            "steps": steps_of(LANGSTEPS),
            "which": st.lists(st.integers(0, 1), min_size=1, max_size=4),
            "first": st.booleans(),
            "point": st.lists(st.floats(-3, 3), min_size=3, max_size=3),
            "fresh": st.booleans(),
        }
    )


class Side:
    """One language: an expression class, its atoms, and rules for everything."""

    def __init__(self, cas, expr, num, var, op):
        from protosym.core.evaluate import Transformer
        from protosym.core.sym import (
            AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN,
            SymDifferentiator, star,
        )

        self.expr = expr
        self.num, self.var, self.op = num, var, op
        self.bridge = Bridge(cas.store, {
            "Integer": num.atom_type, "Symbol": var.atom_type, "Function": op.atom_type})
        a, b = expr.new_wild("a"), expr.new_wild("b")
        rep = lambda n: op(n).rep  # noqa

        def call(name, *args):
            return expr(rep(name)(*[x.rep for x in args]))

        D = SymDifferentiator(expr, add=op("Add"), mul=op("Mul"), zero=num(0), one=num(1))
        D[call("sin", a), a] = call("cos", a)
        D[call("cos", a), a] = call("Mul", num(-1), call("sin", a))
        D[call("pow", a, b), a] = call(
            "Mul", b, call("pow", a, call("Add", b, num(-1))))
        D.add_distributive_rule(op("List"))
        for n in FUNS:
            D[call(n, a), a] = call("qh", a, call(n, a))
            D[call(n, a, b), a] = call("Mul", b, call("qh", b, a))
            D[call(n, a, b), b] = a
        self.D = D

        ev = expr.new_evaluator("value", float)
        ev[num[a]] = PyFunc1(float)(a)
        ev[call("Add", star(a))] = PyOpN(math.fsum)(a)
        ev[call("Mul", star(a))] = PyOpN(math.prod)(a)
        ev[call("sin", a)] = PyOp1(math.sin)(a)
        ev[call("cos", a)] = PyOp1(math.cos)(a)
        ev[call("pow", a, b)] = PyOp2(math.pow)(a, b)
        self.ev = ev

        counts = expr.new_evaluator("count", int)
        counts[AtomRule[a]] = AtomFunc(lambda _: 1)(a)
        counts[HeadRule(a, b)] = HeadOp(lambda h, c: 1 + sum(c))(a, b)
        self.counts = counts

        from functools import reduce

        T = Transformer()
        T.add_opn(rep("Add"), lambda args: reduce(rep("Add"), args))
        T.add_opn(rep("Mul"), lambda args: reduce(rep("Mul"), args))
        self.T = T
        U = Transformer()
        U.add_opn(rep("qf"), lambda args: rep("qg")(*args[::-1]))
        U.add_atom(num.atom_type, lambda n: num(n + 1).rep)
        U.add_op1(rep("sin"), lambda x: rep("cos")(x, x))
        self.U = U

    def make(self, t):
        return self.expr(self.bridge.build(t))


def run_lang(case, rec):
    from protosym.core.sym import Sym
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

    cas = Cas()
    sc, st = cas.sc, cas.store
    pool = terms(cas, case["prog"])
    sides = [Side(cas, sc.Expr, sc.Integer, sc.Symbol, sc.Function)]
    for kn, kv, ko in case["kinds"]:
        class Lang(Sym):
            pass

        base = Lang if case["fresh"] or len(sides) < 2 else sides[1].expr
        sides.append(Side(cas, base, base.new_atom(kn, int), base.new_atom(kv, str),
                          base.new_atom(ko, str)))
        del Lang

    def compare(what, op, shape, simple=None):
        """op(side) in every language, and simplecas's own operation."""
        order = sides if case["first"] else sides[::-1]
        res = [(s, outcome(lambda s=s: shape(op(s), s))) for s in order]
        if simple is not None:
            res.append((sides[0], outcome(lambda: shape(simple(), sides[0]))))
        ref = outcome(lambda: shape(op(sides[0]), sides[0]))
        for s, r in res:
            if r != ref:
                where = "simplecas" if s is sides[0] else f"the language {case['kinds']}"
                fail(f"{what} in {where}: {display(r)}, with the rules of simplecas "
                     f"{display(ref)}")
        return ref[0] == "ok"

    def display(r):
        if r[0] == "ok" and type(r[1]) is int and 0 <= r[1] < len(st):
            return cas.show(r[1])
        return str(short(r, 400))

    def term(e, s):
        if type(e) is not s.expr:
            fail(f"expected a {s.expr.__name__}, got {short(e)}")
        ensure(s.expr(e.rep) is e, "a result is not the one object for its tree")
        return s.bridge.read(e.rep)

    def tree(r, s):
        return s.bridge.read(r)

    def many(rs, s):
        return [s.bridge.read(r) for r in rs]

    done = 0
    for op, i, j, k in case["steps"]:
        t, a, b = pick(pool, i), pick(pool, j), pick(pool, k)
        v = cas.sym(SYMS[j % 3])
        what = f"{op} of {cas.show(t)}"
        ok = False
        if op == "diff":
            only = {st.value[h] for s in st.reach(t) for h in st.kids[s][:1]
                    if st.is_atom(h)}
            own = (lambda: sc.Expr(cas.bridge.build(t)).diff(cas.expr(v), k % 3)) if (
                only <= FIXED) else None
            ok = compare(what, lambda s: s.D(s.make(t), s.make(v), k % 3), term, own)
        elif op == "subst":
            if a == b:
                b = cas.sym("qz") if a != cas.sym("qz") else cas.sym("qx")
            c = pick(pool, i + j + k)
            ok = compare(
                what, lambda s: SubsFunc(s.make(t).rep, [s.make(a).rep, s.make(b).rep])(
                    s.make(c).rep, s.make(a).rep), tree,
                lambda: cas.expr(t).xreplace(
                    {cas.expr(a): cas.expr(c), cas.expr(b): cas.expr(a)}).rep)
        elif op == "expand":
            ok = compare(what, lambda s: s.T(s.make(t).rep, {}), tree,
                         lambda: cas.expr(t).bin_expand().rep)
        elif op == "transform":
            ok = compare(what, lambda s: s.U(s.make(t).rep, {s.make(v).rep: s.make(a).rep}),
                         tree)
        elif op == "counts":
            ok = compare(what, lambda s: s.counts(s.make(t)), lambda r, s: r,
                         lambda: cas.expr(t).count_ops_tree())
        elif op == "value":
            pts = list(zip(SYMS, case["point"]))
            ok = compare(
                what, lambda s: s.ev(s.make(t), {s.make(cas.sym(n)): p for n, p in pts}),
                lambda r, s: bits(r),
                lambda: cas.expr(t).eval_f64({cas.expr(cas.sym(n)): p for n, p in pts}))
        elif op == "sort":
            ok = compare(what, lambda s: topological_sort(s.make(t).rep), many)
            compare(what, lambda s: topological_sort(
                s.make(t).rep, heads=True, exclude={s.make(a).rep}), many)
            compare(what, lambda s: topological_split(s.make(t).rep),
                    lambda r, s: (many(r[0], s), sorted(many(r[1], s)), many(r[2], s)))
            compare(what, lambda s: forward_graph(s.make(t).rep),
                    lambda r, s: (many(r.atoms, s), [(s.bridge.read(h), list(ix))
                                                     for h, ix in r.operations]))
        elif op == "shape":
            def parts(s):
                e = s.make(t)
                return [] if st.is_atom(t) else [e.head, *e.args]
            ok = compare(what, parts, lambda r, s: [term(x, s) for x in r])
            if st.tree_size(t) < 1000:
                for s in sides[1:]:
                    ensure(str(s.make(t)) == str(cas.expr(t).rep), "str of %s in another "
                           "language is %s", cas.show(t), str(s.make(t)))
        rec.label(op if ok else "all raise")
        done += ok
    # the languages keep apart
    for t in pool[-3:]:
        objs = [s.make(t) for s in sides]
        for n, x in enumerate(objs):
            for y in objs[:n]:
                if x.rep is y.rep or x == y or x is y:
                    fail(f"{cas.show(t)} is the same in two languages")
    # one tree in several classes: each has its own object for it
    shared = [s.make(pool[-1]).rep for s in sides] + [
        sc.Expr.new_wild(n).rep for n in ("a", case["kinds"][0][0])]
    classes = [Sym, *dict.fromkeys(s.expr for s in sides)]
    if case["first"]:
        classes.reverse()
    objs = []
    for rep in shared:
        mine = [c(rep) for c in classes]
        for c, x in zip(classes, mine):
            ensure(type(x) is c and x.rep is rep, "the %s of a tree is %s",
                   c.__qualname__, type(x))
        objs.append(mine)
    for rep, mine in zip(shared, objs):
        ensure(all(c(rep) is x for c, x in zip(classes, mine)),
               "a second object for one tree in one class")
    for n in ("a", case["kinds"][0][1]):
        for c in classes:
            w = c.new_wild(n)
            ensure(type(w) is c, "new_wild of %s made a %s", c.__qualname__, type(w))
    rec.hit(done >= 1 and st.graph_size(pool[-1]) >= 4)


SUBS = [
    Sub(
        "renaming", _strategy, run, quick=6000, thorough=120000,
        rule="random expressions over integers, symbols and functions, an injective "
        "renaming of symbols and user functions (names of heads, constants, wildcards, "
        "keywords, swapped names), up to 8 operations on both; non-trivial = an operation "
        "succeeded on an expression changed by the renaming, of at least 4 parts",
    ),
    Sub(
        "kinds", _strategy_kinds, run, quick=3000, thorough=60000,
        rule="expressions that also contain the user's own kinds of atoms, once named like "
        "simplecas's kinds and once named otherwise, up to 8 operations on both; "
        "non-trivial = an operation succeeded on an expression with such an atom, of at "
        "least 4 parts",
    ),
    Sub(
        "language", _strategy_lang, run_lang, quick=4000, thorough=80000,
        rule="the same expression in simplecas and in 1-2 languages made on the core (own "
        "expression class, atom kinds possibly with the names of simplecas's, "
        "differentiator, evaluators, transformers); up to 8 operations compared; "
        "non-trivial = an operation succeeded and the expression has at least 4 parts",
    ),
]

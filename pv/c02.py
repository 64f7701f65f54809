"""C02: expressions nobody refers to are released."""

from __future__ import annotations

import gc
import json

from . import c24
from .base import Sub, Violation, ensure, fail, short
from .build import pick, reals
from .model import Cas


def to_sympy(c, e, a, b, k):
    return str(e.to_sympy())[:50]


def sympy_trip(c, e, a, b, k):
    return c.sc.Expr.from_sympy(a.to_sympy())


def expressify_sympy(c, e, a, b, k):
    return a + b.to_sympy()


def matrix_sympy(c, e, a, b, k):
    M = c.sc.Matrix([[e, a, 0]])
    return c.sc.Matrix.from_sympy(M.to_sympy()).tolist()


def lambdify(c, e, a, b, k):
    return c.sc.lambdify(c.syms, e)(0.5, 0.25, k)


def lambdify_matrix(c, e, a, b, k):
    return c.sc.lambdify(c.syms, c.sc.Matrix([[e, a], [0, b]]))(0.5, 0.25, k).tolist()


def own_class(c, e, a, b, k):
    """Another wrapper class around the same trees, with its own evaluator."""
    from protosym.core.atom import AtomType
    from protosym.core.sym import HeadOp, HeadRule, PyFunc1, Sym
    from protosym.core.tree import Tr

    class Other(Sym):
        pass

    I2 = Other.new_atom("Integer", int)
    w, v = Other.new_wild("w"), Other.new_wild("v")
    ev = Other.new_evaluator("ev", float)
    ev[I2[w]] = PyFunc1(float)(w)
    ev[HeadRule(w, v)] = HeadOp(lambda h, x: sum(x))(w, v)
    t = Other(e.rep(I2(k).rep, I2(3).rep))
    at = AtomType("Colour", str)
    u = Tr(at("red"))(t.rep, Tr(at(f"blue{k}")))
    return [ev(t), str(u), t.args, str(Other(u))]


def star_rules(c, e, a, b, k):
    """Rules for any number of arguments, in two classes, with wildcards of other names."""
    from protosym.core.sym import PyOpN, Sym, star

    class Other(Sym):
        pass

    F = Other.new_atom("Function", str)
    w = Other.new_wild(f"w{k}")
    ev = Other.new_evaluator("ev", float)
    ev[F(f"g{k}")(star(w))] = PyOpN(len)(star(w))
    tr = c.sc.Expr.new_evaluator("tr", float)
    u = c.sc.Expr.new_wild(f"u{k}")
    tr[c.sc.Function("f")(star(u))] = PyOpN(len)(star(u))
    out = [ev(F(f"g{k}")(F("a"), F("b"))) if k % 2 else 0, len(str(star(u))), len(repr(star(w)))]
    return out


def diff_rules(c, e, a, b, k):
    """A function of this history's own, with rules for its derivatives."""
    from protosym.core.sym import SymDifferentiator, star

    sc = c.sc
    u, v = sc.Expr.new_wild(f"u{k}"), sc.Expr.new_wild(f"v{k}")
    d = SymDifferentiator(
        sc.Expr, zero=sc.Integer(0), one=sc.Integer(1), add=sc.Add, mul=sc.Mul)
    g = sc.Function(f"g{k}")
    d[g(u), u] = g(u)
    d[g(u, v), v] = u * v
    if k % 2:
        d.add_distributive_rule(sc.Add)
        return [d(sc.Add(e, g(g(a))), c.syms[0])]
    return [d(g(g(a)), c.syms[0]), d(g(a, b), c.syms[1]), star(u)]


def bad_atom(c, e, a, b, k):
    return c.sc.Symbol(k)


def bad_rule(c, e, a, b, k):
    ev = c.sc.Expr.new_evaluator("ev", float)
    ev[c.sc.Function("f")(e, a)] = k
    return None


EXTRA = {
    f.__name__: f
    for f in (to_sympy, sympy_trip, expressify_sympy, matrix_sympy, lambdify,
              lambdify_matrix, own_class, star_rules, diff_rules, bad_atom, bad_rule)
}
NAMES = list(c24.OPERATIONS) + ["printing", "diff", "xreplace", "evaluator"]
CHEAP = ["own_class", "star_rules", "diff_rules", "bad_atom", "bad_rule"]
MIDDLE = ["to_sympy", "sympy_trip", "expressify_sympy", "matrix_sympy"]
WATCHED = {}


def setup():
    """Run every operation once: what is made lazily on first use is not a leak."""
    import protosym.core.atom as atom
    import protosym.core.sym as sym
    import protosym.core.tree as tree
    import protosym.simplecas as sc

    if WATCHED:
        return
    for cls in (tree.Tree, atom.Atom, sc.Expr, sym.Sym, sc.Matrix):
        WATCHED[cls] = cls.__name__
    prog = {"atoms": [["I", 2], ["S", "x"], ["S", "y"], ["F", "f"]],
            "cmds": [["add", [0, 1]], ["sin", [0]], ["mul", [0, 1]], ["pow", [0, 6]]]}
    for seq in ("lambdify",), MIDDLE, tuple(NAMES), tuple(EXTRA):
        steps = [[n, 0, 1, 2] for n in seq]
        work(prog, steps, [], [])
    gc.collect()
    gc.freeze()


def perform(c, step):
    name, i, j, k = step
    f = EXTRA.get(name) or c24.OPERATIONS[name][0]
    e, a, b = pick(c.pool, i), pick(c.pool, j), pick(c.pool, k)
    try:
        return f(c, e, a, b, k)
    except Violation:
        raise
    except Exception as err:  # noqa: failing must not leak either
        err.__traceback__ = None
        return type(err).__name__


def expressions(x, sc, out):
    """The expressions, trees and matrices in a result."""
    if isinstance(x, (sc.Expr, sc.Matrix)) or hasattr(x, "children"):
        out.append(x)
    elif isinstance(x, dict):
        for y in list(x.items()):
            expressions(y, sc, out)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            expressions(y, sc, out)


def work(prog, steps, retain, labels):
    """Run the history; return what is retained: [(object, text)]."""
    cas = Cas()
    sc = cas.sc
    pool = reals(cas, prog)
    c = c24.Ctx(cas, pool)
    found = list(pool)
    for step in steps:
        res = perform(c, step)
        labels.append(step[0])
        if isinstance(res, str):
            labels.append("failed" if res.endswith("Error") else "")
        expressions(res, sc, found)
    kept = []
    for i in retain:
        x = found[len(found) - 1 - i % len(found)]
        if not any(x is y for y, _ in kept):
            kept.append((x, text_of(x, sc)))
    return kept


def text_of(x, sc):
    if isinstance(x, sc.Matrix):
        return json.dumps([list(x.shape), [[struct(e.rep) for e in r] for r in x.tolist()]])
    return json.dumps(struct(x.rep if isinstance(x, sc.Expr) else x))


def struct(t):
    """The structure of a tree as data: [atom or child numbers, ...]."""
    number = {}
    lines = []
    todo = [t]
    while todo:
        s = todo[-1]
        if s in number:
            todo.pop()
            continue
        ks = s.children
        missing = [k for k in ks if k not in number]
        if missing:
            todo.extend(reversed(missing))
            continue
        todo.pop()
        number[s] = len(number)
        if ks:
            lines.append([number[k] for k in ks])
        else:
            v = s.value
            lines.append([v.atom_type.name, v.value])
    return lines


def rebuild(lines, sc):
    """The tree of that structure, made again; None if of other kinds."""
    from protosym.core.sym import Wild
    from protosym.core.tree import Tr, Tree

    kinds = {"Integer": sc.Integer.atom_type, "Symbol": sc.Symbol.atom_type,
             "Function": sc.Function.atom_type, "Wild": Wild}
    out = []
    for line in lines:
        if line and isinstance(line[0], str):
            out.append(Tr(kinds[line[0]](line[1])) if line[0] in kinds else None)
        else:
            ks = [out[n] for n in line]
            out.append(None if None in ks else Tree(*ks))
    return out[-1]


def live():
    """Watched objects (made since the last freeze) that are still alive."""
    gc.collect()
    return [o for o in gc.get_objects() if type(o) in WATCHED
            or any(isinstance(o, cls) for cls in WATCHED)]


def parts(kept, sc):
    """Everything that is part of what is retained."""
    seen = {}
    todo = [x for x, _ in kept]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, sc.Matrix):
            # a matrix is made of its entries, and an expression listing them
            todo.extend(r for r in gc.get_referents(o))
        elif isinstance(o, sc.Expr):
            todo.append(o.rep)
        elif isinstance(o, (list, tuple, dict)):
            todo.extend(gc.get_referents(o))
        elif hasattr(o, "children"):
            todo.extend(o.children)
            if not o.children:
                todo.append(o.value)
    return seen


def run(case, rec):
    import protosym.simplecas as sc

    gc.collect()
    gc.freeze()
    gc.disable()
    try:
        labels = []
        kept = work(case["prog"], case["steps"], case["retain"], labels)
        rec.label(*[n for n in labels if n])
        seen = parts(kept, sc)
        left = [o for o in live() if id(o) not in seen]
        if left:
            # ignore the parts of these: name the outermost ones
            inner = set()
            for o in left:
                inner.update(id(r) for r in gc.get_referents(o)
                             if isinstance(r, tuple) for r in r)
                inner.update(id(r) for r in gc.get_referents(o))
            outer = [o for o in left if id(o) not in inner] or left
            names = ", ".join(f"{type(o).__name__} {short(o, 80)}" for o in outer[:4])
            del inner
            held = [type(r).__name__ for r in gc.get_referrers(outer[0])
                    if r is not left and r is not outer][:4]
            n = len(left)
            del left, outer
            what = "nothing else is" if not kept else f"only {len(kept)} results are"
            fail(f"{n} objects are still alive after the history though {what} referenced: "
                 f"{names} (held by {held})")
        rec.maximum("max_parts_retained", len(seen))
        del seen, left
        # what is retained is intact and still the one object for its structure
        for x, text in kept:
            now = text_of(x, sc)
            ensure(now == text, "a retained expression changed from %s to %s",
                   short(text, 300), short(now, 300))
            if isinstance(x, sc.Matrix):
                continue
            tree = rebuild(json.loads(text), sc)
            if tree is None:
                continue
            if isinstance(x, sc.Expr):
                ensure(sc.Expr(tree) is x, "re-creating the retained %s gave another object",
                       short(x))
            else:
                ensure(tree is x, "re-creating the retained %s gave another object",
                       short(x))
        if kept:
            rec.label("something retained")
        else:
            rec.label("nothing retained")
        # and is released in turn
        x = tree = None  # noqa
        kept.clear()
        left = live()
        if left:
            names = ", ".join(f"{type(o).__name__} {short(o, 80)}" for o in left[:4])
            n = len(left)
            del left
            fail(f"{n} objects are still alive after the last reference was dropped: {names}")
        rec.hit(len(case["steps"]) >= 3)
    finally:
        gc.enable()


def _strategy(slow):
    def make():
        from hypothesis import strategies as st

        from . import gen

        if slow:
            names = [*MIDDLE * 3, "lambdify", "lambdify_matrix", *CHEAP, "matrix", "diff"]
            ops = ["add", "mul", "sin", "cos", "sub", "addn", "ipow", "call1:f", "inc"]
            funs = None
        else:
            names = NAMES + CHEAP
            ops, funs = c24.OPS, ["f", "g"]
        step = st.tuples(
            st.sampled_from(names), st.integers(0, 3), st.integers(0, 12),
            st.integers(0, 12)).map(list)
        return st.fixed_dictionaries(
            {
                "prog": gen.program(
                    ops, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y", "q"], funs=funs),
                    max_cmds=5 if slow else 12, max_arity=4, max_atoms=6),
                "steps": st.lists(step, min_size=1, max_size=5 if slow else 14),
                "retain": st.one_of(
                    st.just([]), st.lists(st.integers(0, 60), min_size=1, max_size=5)),
            }
        )

    return make


LARGE = [
    "head_args", "sort", "split", "graph", "subs", "xreplace", "function", "counts", "expand",
    "f64", "evaluator", "evaluator_plain", "transformer", "differentiator", "diff",
    "tree_text", "printing", "subs_wrong", "xreplace_int", "diff_function",
]


def _large():
    from hypothesis import strategies as st

    from . import gen

    step = st.tuples(
        st.sampled_from(LARGE + CHEAP), st.integers(0, 3), st.integers(0, 12),
        st.integers(0, 12)).map(list)
    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                heads=["Add", "f", "List"], rows=("Add",), most=1, after=2, names=12,
                atoms=gen.atom(ints=gen.small_ints, syms=["x", "y", "q"])),
            "steps": st.lists(step, min_size=2, max_size=8),
            "retain": st.one_of(
                st.just([]), st.lists(st.integers(0, 60), min_size=1, max_size=3)),
        }
    )


RULE = (
    "a history of random operations on a program's expressions, of which a generated "
    "subset of the results is retained; the collector then lists what is alive; "
    "non-trivial = at least three operations"
)
SUBS = [
    Sub("release", _strategy(False), run, quick=14000, thorough=400000, setup=setup,
        rule=RULE),
    Sub("release-sympy-llvm", _strategy(True), run, quick=400, thorough=8000, setup=setup,
        rule="the same with SymPy conversions and compilation"),
    Sub("large", _large, run, quick=800, thorough=12000, setup=setup, budget=20_000_000,
        rule=RULE + "; expressions of hundreds to thousands of parts"),
]

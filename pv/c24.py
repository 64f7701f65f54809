"""C24: operations are pure over any history of use."""

from __future__ import annotations

import re
from fractions import Fraction

from .base import StepBudgetExceeded, Sub, Violation, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "sin", "cos", "sub", "addn", "muln", "ipow", "pow", "call1:f", "call2:f",
    "calln:g", "list", "apply", "div", "inc", "addn", "muln", "list0", "mid:Add",
    "mid:Mul",
]
SYMS = ["x", "y", "z"]
OPERATIONS = {}


def operation(weight=1):
    def reg(f):
        OPERATIONS[f.__name__] = (f, weight)
        return f

    return reg


class Ctx:
    """What a history (or a single isolated operation) works with."""

    def __init__(self, cas, pool):
        self.cas = cas
        self.sc = cas.sc
        self.pool = pool
        self.syms = [cas.sc.Symbol(s) for s in SYMS]
        self.kept = {}  # compiled substitutions, evaluators ... used again
        self.inputs = []
        self.out = []
        self.reused = 0

    def inp(self, container):
        """Note a container handed in."""
        if isinstance(container, dict):
            snap = list(container.items())
        else:
            snap = list(container)
        self.inputs.append((container, snap))
        return container

    def given(self, container):
        """Note a mutable container handed out."""
        self.out.append(container)
        return container

    def keep(self, key, make):
        if key not in self.kept:
            self.kept[key] = make()
        else:
            self.reused += 1
        return self.kept[key]

    def check_inputs(self, what):
        for c, snap in self.inputs:
            now = list(c.items()) if isinstance(c, dict) else list(c)
            if isinstance(c, dict):
                same = len(now) == len(snap) and all(
                    a is p and (b is q or type(b) is type(q) and b == q) for (a, b), (p, q) in zip(now, snap))
            elif isinstance(c, set):
                same = {id(a) for a in now} == {id(a) for a in snap}
            else:
                same = len(now) == len(snap) and all(a is b for a, b in zip(now, snap))
            if not same:
                fail(f"{what} modified the {type(c).__name__} it was given: "
                     f"{short(snap)} became {short(now)}")


# -- the operations: f(ctx, e, a, b, k) -> result ---------------------------------


@operation(2)
def printing(c, e, a, b, k):
    return [repr(e), str(e), e._repr_latex_(), e.eval_latex(), e.eval_repr()]


@operation()
def tree_text(c, e, a, b, k):
    return [str(e.rep), repr(e.rep), repr(e.rep.children), str(a.rep)]


@operation()
def head_args(c, e, a, b, k):
    return [e.head, e.args, e.rep.children] if e.rep.children else []


@operation()
def sort(c, e, a, b, k):
    from protosym.core.tree import topological_sort

    ex = c.inp({a.rep, b.rep})
    return [c.given(topological_sort(e.rep)), c.given(topological_sort(e.rep, heads=True)),
            c.given(topological_sort(e.rep, exclude=ex)),
            topological_sort(e.rep, exclude=ex, heads=True)]


@operation()
def split(c, e, a, b, k):
    from protosym.core.tree import topological_split

    ex = c.inp({a.rep})
    x, h, n = topological_split(e.rep)
    c.out += [x, h, n]
    return [list(x), sorted_trees(h), list(n),
            [sorted_trees(s) if isinstance(s, set) else s
             for s in topological_split(e.rep, exclude=ex)]]


@operation()
def graph(c, e, a, b, k):
    from protosym.core.tree import forward_graph

    g = forward_graph(e.rep)
    c.out += [g.atoms, g.heads, g.operations]
    return [list(g.atoms), sorted_trees(g.heads), [(h, list(i)) for h, i in g.operations]]


def sorted_trees(s):
    return frozenset(s)


@operation(2)
def subs(c, e, a, b, k):
    from protosym.core.tree import SubsFunc

    args = [a.rep, b.rep] if a is not b else [a.rep]
    f = c.keep(("subs", e, a, b), lambda: SubsFunc(e.rep, c.inp(args)))
    new = [pick(c.pool, k).rep, pick(c.pool, k // 2 + 1).rep][: len(args)]
    return [f(*new), f.nargs]


@operation()
def subs_wrong(c, e, a, b, k):
    from protosym.core.tree import SubsFunc

    f = c.keep(("subs", e, a, a), lambda: SubsFunc(e.rep, [a.rep]))
    return f(*[b.rep] * (k % 3 + 2))


@operation(2)
def xreplace(c, e, a, b, k):
    return e.xreplace(c.inp({a: b, b: pick(c.pool, k)}))


@operation()
def xreplace_int(c, e, a, b, k):
    return e.xreplace(c.inp({a: k - 3, 1: b}))


@operation()
def function(c, e, a, b, k):
    n = 1 + k % 3
    f = c.keep(("function", e, n), lambda: e.as_function(*c.syms[:n]))
    return f(*[a, b, k][:n])


@operation(2)
def function_order(c, e, a, b, k):
    s = [*c.syms, a] if a not in c.syms else [*c.syms]
    n = len(s)
    s = [s[(k + i * (1 + 2 * (k % 2))) % n] for i in range(n)] if n == 4 else s[k % 3:] + s[:k % 3]
    if len(set(s)) < n:
        s = s[:1]
    new = [e, b, k, pick(c.pool, k)][:len(s)]
    return [e.as_function(*s)(*new), e.xreplace(dict(zip(s, new))), e.xreplace(
        dict([*zip(s, new)][::-1]))]


@operation(2)
def diff(c, e, a, b, k):
    return e.diff(c.syms[k % 3], 1 + (k > 9))


@operation(2)
def diff_function(c, e, a, b, k):
    return c.sc.diff(e, c.syms[k % 3], k % 4)


@operation()
def diff_higher(c, e, a, b, k):
    return c.sc.diff(e, c.syms[k % 3], 2)


@operation()
def expand(c, e, a, b, k):
    return [e.bin_expand(), c.sc.bin_expand(a.rep)]


@operation()
def counts(c, e, a, b, k):
    return [e.count_ops_tree(), e.count_ops_graph()]


@operation(2)
def f64(c, e, a, b, k):
    vals = c.inp(dict(zip(c.syms, [0.3 + k, -1.7 * k, 0.25])))
    return e.eval_f64(vals)


@operation(2)
def f64_extreme(c, e, a, b, k):
    """Overflows, divisions by zero, not-a-numbers."""
    big = [1e200, -1e308, 0.0, 1e-320, float("inf"), -0.0, float("nan"), 750.5, 1e16]
    vals = c.inp(dict(zip(c.syms, [big[k % 9], big[(k * 2 + 1) % 9], big[(k + 5) % 9]])))
    return e.eval_f64(vals)


@operation()
def f64_ints(c, e, a, b, k):
    """Values that are not floats."""
    vals = c.inp(dict(zip(c.syms, [k - 2, k % 2 == 0, Fraction(k, 3)])))
    return e.eval_f64(vals)


@operation()
def f64_missing(c, e, a, b, k):
    return e.eval_f64(c.inp({c.syms[k % 3]: 0.5}))


@operation()
def f64_tree(c, e, a, b, k):
    vals = c.inp({a: 0.25, b: -1.5, c.syms[0]: 2.0})
    return e.eval_f64(vals)


ERRORS = [OverflowError, ValueError, ZeroDivisionError, KeyError, RuntimeError, TypeError]


def custom(c, n, flat=False):
    """One of several user-made evaluators, kept for the whole history.

    flat: number 2 with the nested evaluations replaced by their result.
    """
    from protosym.core.evaluate import Evaluator

    def make():
        ev = Evaluator()
        sc = c.sc
        ev.add_atom(sc.Integer.atom_type, lambda v: f"i{v}")
        ev.add_op_generic(lambda h, args: f"<{h}:{','.join(map(str, args))}>"[:400])
        if n == 0:
            ev.add_atom_generic(lambda s: str(s))
        elif n == 1:  # fails for some
            def op(args):
                if len(args) > 2:
                    raise ERRORS[len(args) % len(ERRORS)](f"{len(args)} arguments")
                return f"[{'+'.join(map(str, args))}]"[:400]
            ev.add_atom_generic(lambda s: str(s))
            ev.add_opn(sc.Add.rep, op)
        elif n == 2:  # evaluates something else with itself while evaluating
            ev.add_atom_generic(lambda s: str(s))
            inner = sc.Function("g")(2, sc.Symbol("x"))

            def nested(args):
                if flat:
                    v = "<g:i2,inner>"
                else:
                    v = ev(inner.rep, {c.syms[0].rep: "inner"})
                inner.xreplace({c.syms[0]: inner})
                sc.bin_expand(inner.rep)
                return f"({v};{'+'.join(map(str, args))})"[:400]

            ev.add_opn(sc.Add.rep, lambda args: nested(args) if len(args) > 1 else "one")
            ev.add_opn(sc.Mul.rep, lambda args: f"M{len(args)}")
            ev.add_op1(sc.sin.rep, lambda v: nested([v, v]))
        else:
            ev.add_opn(sc.Mul.rep, lambda args: "*".join(map(str, args))[:400])
        return ev

    return c.keep(("custom", n, flat), make)


@operation(3)
def evaluator(c, e, a, b, k):
    ev = custom(c, k % 4)
    values = c.inp({a.rep: "A", c.syms[1].rep: "y"})
    if k % 4 == 2:
        got = ev(e.rep, values)
        want = custom(c, 2, True)(e.rep, values)
        if got != want:
            fail(f"rules that use the evaluator themselves: {short(got)}, with their "
                 f"values given {short(want)}")
        return got
    if k % 2:
        return [ev(e.rep, values), ev.evaluate(e.rep, c.inp({b.rep: "B", a.rep: "A"}))]
    return ev(e.rep, values)


@operation()
def evaluator_plain(c, e, a, b, k):
    return custom(c, k % 4)(e.rep)


@operation()
def transformer(c, e, a, b, k):
    from protosym.core.evaluate import Transformer

    def make():
        T = Transformer()
        if k % 2:
            T.add_opn(c.sc.Add.rep, lambda args: c.sc.Mul.rep(*args))
            T.add_op1(c.sc.sin.rep, c.sc.cos.rep)
        else:
            T.add_opn(c.sc.Mul.rep, lambda args: bin_tree(c, T, args))
        return T

    return c.keep(("transformer", k % 2), make)(e.rep)


def bin_tree(c, T, args):
    T(c.sc.sin(c.sc.Symbol("q")).rep)
    return c.sc.bin_expand(c.sc.Mul.rep(*args)) if len(args) > 1 else c.sc.Mul.rep(*args)


@operation(2)
def differentiator(c, e, a, b, k):
    from protosym.core.sym import SymDifferentiator

    sc = c.sc

    def make():
        d = SymDifferentiator(sc.Expr, zero=sc.Integer(0), one=sc.Integer(1),
                              add=sc.Add, mul=sc.Mul)
        w, v = sc.Expr.new_wild("w"), sc.Expr.new_wild("v")
        f = sc.Function("f")
        d[sc.sin(w), w] = f(w)
        d[w**v, w] = v * w
        if k % 2:
            d[w**v, v] = f(v, w)
            d[f(w), w] = sc.cos(w)
            d[f(w, v), w] = f(v)
            d[f(w, v), v] = f(f(v), w)
            d.add_distributive_rule(sc.Function("g"))
        return d

    d = c.keep(("differentiator", k % 2), make)
    return d(e, c.syms[k % 3])


@operation()
def ir(c, e, a, b, k):
    return e.to_llvm_ir(c.inp(list(c.syms[: 1 + k % 3])))


@operation()
def ir_order(c, e, a, b, k):
    return e.to_llvm_ir(c.inp([c.syms[(k + i) % 3] for i in range(3)]))


def point(k, n):
    return [0.3 + k % 3, -1.7 - k // 2, 0.25 + k][:n]


@operation()
def compiled(c, e, a, b, k):
    n = 1 + k % 3
    f = c.keep(("compiled", e, n), lambda: c.sc.lambdify(c.inp(list(c.syms[:n])), e))
    return f(*point(k // 3, n))


@operation()
def compiled_order(c, e, a, b, k):
    s = c.inp([c.syms[(k + i) % 3] for i in range(3)])
    f = c.keep(("compiled order", e, k % 3), lambda: c.sc.lambdify(s, e))
    return f(*point(k // 3, 3))


@operation()
def compiled_matrix(c, e, a, b, k):
    key = ("compiled matrix", e, a, k % 3)
    f = c.keep(key, lambda: c.sc.lambdify(list(c.syms), c.sc.Matrix(rows(c, e, a, a, k % 3))))
    r = f(*point(k // 3, 3))
    return [[float(v) for v in row] for row in r]


@operation()
def matrix_ir_order(c, e, a, b, k):
    s = c.inp([c.syms[(k + i) % 3] for i in range(3)])
    M = c.sc.Matrix([[e, a], [0, e]] if k % 2 else [[e], [b]])
    return M.to_llvm_ir(s)


@operation()
def sympy_and_back(c, e, a, b, k):
    import sympy

    from .c19 import explosive

    if explosive(c.cas, c.cas.read(e)):
        return "skipped"
    s = e.to_sympy()
    return [sympy.srepr(s), c.sc.Expr.from_sympy(s)]


def rows(c, e, a, b, k):
    return [[e, 0, a], [b, pick(c.pool, k), e]]


@operation(2)
def matrix(c, e, a, b, k):
    r = rows(c, e, a, b, k)
    for row in r:
        c.inp(row)
    M = c.keep(("matrix", e, a, b, k), lambda: c.sc.Matrix(c.inp(r)))
    N = M + M
    return [repr(M), c.given(M.tolist()), c.given(N.tolist()), M.shape, M[k % 2, k % 3]]


@operation()
def matrix_diff(c, e, a, b, k):
    M = c.keep(("matrix", e, a, b, k), lambda: c.sc.Matrix(rows(c, e, a, b, k)))
    return [M.diff(c.syms[k % 3]).tolist(), M.tolist()]


@operation()
def matrix_ir(c, e, a, b, k):
    M = c.keep(("matrix", e, a, b, k), lambda: c.sc.Matrix(rows(c, e, a, b, k)))
    return M.to_llvm_ir(c.inp(list(c.syms)))


@operation()
def matrix_bad(c, e, a, b, k):
    M = c.keep(("matrix", e, a, b, k), lambda: c.sc.Matrix(rows(c, e, a, b, k)))
    if k % 3 == 0:
        return M[2, 0]
    if k % 3 == 1:
        return M + c.sc.Matrix([[e, a]])
    return c.sc.Matrix([[e, a], [b]])


@operation()
def operators(c, e, a, b, k):
    return [e + a, e * b, a - e, b / e, e**2, -e, 2 * e, 1 - e, e(a, k), c.sc.sin(e),
            c.sc.expressify(k)]


@operation()
def bad_operand(c, e, a, b, k):
    if k % 3 == 0:
        return e + "x"
    if k % 3 == 1:
        return e(1.5)
    return c.sc.Matrix([[e, None]])


@operation()
def rebuild(c, e, a, b, k):
    """Making an existing expression again, from its parts."""
    t = e.rep
    if t.children:
        return [c.sc.Expr(type(t)(*t.children)), t.children[0](*t.children[1:])]
    return c.sc.Expr(type(t).atom(t.value))


# -- steps that only disturb -------------------------------------------------------


def disturb(c, kind, e, a, b, k):
    """Definitions for other functions, other kinds and classes, garbage."""
    import gc

    from protosym.core.atom import AtomType
    from protosym.core.exceptions import BadRuleError
    from protosym.core.sym import PyFunc1, PyOp1, PyOpN, Sym, star
    from protosym.core.tree import Tr

    sc = c.sc
    zz = sc.Function(f"zz{k % 4}")
    w, v = sc.Expr.new_wild("w"), sc.Expr.new_wild("v")
    if kind == "rules":
        from protosym.simplecas.functions import eval_f64, eval_latex, eval_repr

        eval_f64[zz(w)] = PyOp1(lambda u: u + k)(w)
        eval_repr[zz(star(w))] = PyOpN(lambda args: f"zz{k}")(w)
        eval_latex[zz(w)] = PyOp1(lambda u: f"zz{k}{u}")(w)
        sc.diff[zz(w), w] = zz(w) * k
        sc.diff[zz(w, v), v] = zz(v)
        custom(c, k % 4).add_op1(zz.rep, lambda u: k)
        zz(e).eval_repr()
    elif kind == "badrules":
        from protosym.simplecas.functions import eval_f64

        for left, right in ((zz(w), PyOp1(lambda u: u)(v)), (zz(w), 3),
                            (sc.sin(w), PyOp1(lambda u: 0.0)(v)),
                            (sc.Add(star(w)), PyFunc1(lambda u: 0.0)(w))):
            try:
                eval_f64[left] = right
            except BadRuleError:
                pass
    elif kind == "kinds":
        for name, value in (("Integer", 1), ("Symbol", "x"), ("Function", "sin"),
                            ("Function", "Add")):
            t = Tr(AtomType(name, type(value))(value))
            c.kept[("kind", name, len(c.kept))] = t(t, e.rep)

        class Other(Sym):
            pass

        c.kept[("class", len(c.kept))] = [Other(e.rep), Other(a.rep), Sym(b.rep)]
    elif kind == "garbage":
        for i in range(30):
            (sc.Symbol(f"g{i}") + e * i).diff(sc.Symbol(f"g{i}")) if k % 2 else e + i
        gc.collect()
    elif kind == "forget":
        c.kept.clear()
        gc.collect()
    elif kind == "spoil":
        for o in c.out:
            if isinstance(o, list):
                if k % 2:
                    o.reverse()
                    o.append(e)
                else:
                    o.clear()
            elif isinstance(o, set):
                o.clear()
        c.out = []


DISTURB = ["rules", "badrules", "kinds", "garbage", "forget", "spoil"]


# -- comparing results ----------------------------------------------------------------


def freeze(c, x):
    """An immutable copy of a result, holding the expression objects."""
    sc = c.sc
    if isinstance(x, sc.Expr):
        return ("Expr", x)
    if hasattr(x, "children"):
        return ("Tree", x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, *[freeze(c, y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ("set", x if isinstance(x, frozenset) else frozenset(x))
    if isinstance(x, float):
        return ("float", x.hex())
    if isinstance(x, (str, int, bool)) or x is None:
        return (type(x).__name__, x)
    if isinstance(x, Exception):
        return ("error", type(x).__name__,
                re.sub(r"0x[0-9a-f]+", "0x", str(x))[:300])
    return ("other", type(x).__name__)


def tree_text_of(t):
    """The structure of a tree as text, shared parts once."""
    number = {}
    lines = []
    todo = [t]
    while todo:
        s = todo[-1]
        if s in number:
            todo.pop()
            continue
        ks = s.children
        missing = [k for k in ks if k not in number]
        if missing:
            todo.extend(reversed(missing))
            continue
        todo.pop()
        number[s] = len(number)
        if ks:
            lines.append(str([number[k] for k in ks]))
        else:
            v = s.value
            lines.append(f"{v.atom_type.name}:{type(v.value).__name__}:{v.value}")
    return ";".join(lines)


def as_text(x):
    kind = x[0]
    if kind == "Expr":
        return "E{" + tree_text_of(x[1].rep) + "}"
    if kind == "Tree":
        return "T{" + tree_text_of(x[1]) + "}"
    if kind in ("list", "tuple"):
        return f"{kind}(" + ", ".join(as_text(y) for y in x[1:]) + ")"
    if kind == "set":
        return "set(" + ", ".join(sorted(tree_text_of(t) for t in x[1])) + ")"
    return repr(x)


def perform(c, step):
    """The frozen result of one step."""
    name, i, j, k = step
    e, a, b = pick(c.pool, i), pick(c.pool, j), pick(c.pool, k)
    if name in DISTURB:
        try:
            disturb(c, name, e, a, b, k)
        except Exception:  # noqa: judged by other properties
            pass
        return None
    c.inputs = []
    try:
        res = OPERATIONS[name][0](c, e, a, b, k)
    except Violation:
        raise
    except Exception as err:  # noqa: failing is a result like any other
        err.__traceback__ = None
        res = err
    res = freeze(c, res)
    c.check_inputs(name)
    return res


def isolated(request):
    """Each step in this fresh process (one fork for the request)."""
    from . import steps

    case, which = request
    cas = Cas()
    pool = reals(cas, case["prog"])
    steps.begin(3_000_000)
    try:
        return as_text(perform(Ctx(cas, pool), case["steps"][which]))
    except StepBudgetExceeded:
        return "step budget exceeded"
    finally:
        steps.end()


ZYGOTE = []


def setup():
    from .zygote import Zygote

    import sympy  # noqa: before forking

    c = Cas().sc
    c.lambdify([c.x], c.Matrix([[c.x]]))(1.0)
    c.x.to_sympy()
    if not ZYGOTE:
        ZYGOTE.append(Zygote(isolated))


def run(case, rec):
    cas = Cas()
    pool = reals(cas, case["prog"])
    tpool = terms(cas, case["prog"])
    c = Ctx(cas, pool)
    results = {}
    plain = [n for n, s in enumerate(case["steps"]) if s[0] not in DISTURB]

    def again(n, when):
        step = case["steps"][n]
        res = perform(c, step)
        if res is None:
            return
        if n not in results:
            results[n] = (res, as_text(res))
            return
        old, text = results[n]
        if res != old:
            new = as_text(res)
            if new == text:
                fail(f"step {n} {step} {when}: equal to the earlier result, but a "
                     f"different object: {short(text)}")
            fail(f"step {n} {step} {when}: gave {short(new, 500)}, before "
                 f"{short(text, 500)}")

    for n, step in enumerate(case["steps"]):
        again(n, "")
        if step[0] in DISTURB:
            rec.label("disturbed by " + step[0])
        else:
            rec.label(step[0])
        for m in case["repeat"]:
            if plain and m % 5 == n % 5:
                m = plain[m % len(plain)]
                if m <= n:
                    again(m, f"repeated after step {n}")
    order = list(plain)
    for m in case["repeat"]:
        if order:
            order.append(order.pop(m % len(order)))
    order.reverse()
    for n in order:
        again(n, "repeated at the end")
    # nothing handed out has changed
    for n, (res, text) in results.items():
        now = as_text(res)
        if now != text:
            fail(f"the result of step {n} {case['steps'][n]} changed from "
                 f"{short(text, 500)} to {short(now, 500)}")
    # the shared expressions are what they were
    for t, e in zip(tpool, pool):
        ensure(cas.read(e) == t, "an expression of the pool changed: was %s",
               cas.show(t))
    # the same as in a fresh process
    errors = 0
    for n in plain:
        if results[n][0][0] == "error":
            errors += 1
    # (above all of one that differs little from an earlier one)
    like = [n for n in plain if any(akin(case["steps"][n], case["steps"][o])
                                    for o in plain if o < n)]
    for m in case["alone"]:
        if not plain:
            break
        n = like[m % len(like)] if like and m % 3 else plain[m % len(plain)]
        text = ZYGOTE[0].ask([case, n])
        if text != results[n][1]:
            fail(f"step {n} {case['steps'][n]} in the history gave "
                 f"{short(results[n][1], 500)}, alone in a fresh process "
                 f"{short(text, 500)}")
    if errors:
        rec.label("a failing operation in between")
    if c.reused:
        rec.label("compiled object used again")
    rec.hit(len(plain) - errors >= 4)


def akin(s, t):
    """The same operation with one operand changed?"""
    return s[0] == t[0] and sum(a != b for a, b in zip(s, t)) == 1


def resolve(steps):
    """Replace the "like" steps by what they stand for."""
    out = []
    for s in steps:
        if s[0] == "like":
            f, d = s[1:]
            names = list(OPERATIONS)
            s = list(out[-1]) if out else [names[(3 * f + 11 * d) % len(names)], 0, 0, 0]
            s[f] = (s[f] + d) % (4 if f == 1 else 13)
        out.append(s)
    return out


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    names = [n for n, (_, w) in OPERATIONS.items() for _ in range(w)] + DISTURB
    fresh = st.tuples(
        st.sampled_from(names), st.integers(0, 3), st.integers(0, 12), st.integers(0, 12)
    ).map(list)
    # the same operation as before with one operand changed
    like = st.tuples(st.just("like"), st.integers(1, 3), st.integers(1, 4)).map(list)
    step = st.one_of(fresh, fresh, like)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS,
                atoms=gen.atom(ints=gen.small_ints, syms=SYMS, funs=["f", "g"]),
                max_cmds=12, max_arity=4, max_atoms=6,
            ),
            "steps": st.one_of(
                st.lists(step, min_size=2, max_size=6),
                st.lists(step, min_size=6, max_size=24)).map(resolve),
            "repeat": st.lists(st.integers(0, 40), min_size=1, max_size=8),
            "alone": st.lists(st.integers(0, 40), min_size=1, max_size=2),
        }
    )


# -- expressions that come and go ---------------------------------------------------


def tweaked(prog, t):
    """The same program with other integers (so that objects get the same places)."""
    atoms = [["I", v + t] if k == "I" else [k, v] for k, v in prog["atoms"]]
    if not any(k == "I" for k, v in atoms):
        atoms.append(["I", t])
    return {"atoms": atoms, "cmds": prog["cmds"]}


def run_transient(case, rec):
    cas = Cas()
    errors = 0
    last = {}
    seen = set()
    for t in case["tweaks"]:
        prog = tweaked(case["prog"], t)
        pool = reals(cas, prog)
        c = Ctx(cas, pool)
        texts = []
        here = set()
        todo = [e.rep for e in pool]
        while todo:
            r = todo.pop()
            if id(r) not in here:
                here.add(id(r))
                todo += r.children
        r = todo = None
        if here & seen:
            rec.label("an address used again")
            rec.hit()
        seen |= here
        for step in case["steps"]:
            res = perform(c, step)
            errors += res[0] == "error"
            texts.append(as_text(res))
        last[t] = texts
        # everything goes away
        res = c = pool = None
        cas.bridge.forget()
    t = case["tweaks"][-1]
    which = case["alone"] % len(case["steps"])
    alone = ZYGOTE[0].ask([{"prog": tweaked(case["prog"], t), "steps": case["steps"]}, which])
    if alone != last[t][which]:
        fail(f"step {case['steps'][which]} after the same on similar expressions that have "
             f"been dropped gave {short(last[t][which], 500)}, alone in a fresh process "
             f"{short(alone, 500)}")


def _strategy_transient():
    from hypothesis import strategies as st

    from . import gen

    names = [n for n, (_, w) in OPERATIONS.items() for _ in range(w)]
    step = st.tuples(
        st.sampled_from(names), st.integers(0, 3), st.integers(0, 12), st.integers(0, 12)
    ).map(list)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS,
                atoms=gen.atom(ints=gen.small_ints, syms=SYMS, funs=["f", "g"]),
                max_cmds=6, max_arity=4, max_atoms=4,
            ),
            "steps": st.lists(step, min_size=1, max_size=3),
            "tweaks": st.lists(st.integers(1, 60), min_size=2, max_size=12, unique=True),
            "alone": st.integers(0, 2),
        }
    )


SUBS = [
    Sub(
        "history",
        _strategy,
        run,
        quick=7500,
        thorough=250000,
        setup=setup,
        rule="a history of 2-24 operations of all parts of the public interface on a "
        "shared pool, with repetitions in between and all of them again in another order "
        "at the end, definitions for other functions, failing operations, garbage, and "
        "changes to lists handed out in between; 1-2 operations are also run alone in a "
        "fresh process; non-trivial = at least four succeeding operations",
    ),
    Sub(
        "transient",
        _strategy_transient,
        run_transient,
        quick=3000,
        thorough=80000,
        setup=setup,
        rule="the same 1-3 operations on 2-12 expressions of the same shape made and "
        "dropped one after another; one operation on the last is compared with the same "
        "alone in a fresh process; non-trivial = objects got the addresses of earlier ones",
    ),
]

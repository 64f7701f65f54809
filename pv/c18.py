"""C18: unsupported input is rejected, never silently mistranslated."""

from __future__ import annotations

from .base import Sub, ensure, fail, short
from .build import BIG, pick, reals
from .model import Cas

OPS = ["add", "mul", "sin", "cos", "neg", "sub", "addn", "muln", "ipow", "div", "square"]


def wrap(sc, e, op, s, k):
    """Put e into a supported context."""
    return {
        "addl": lambda: e + s, "addr": lambda: s + e, "mull": lambda: e * s,
        "mulr": lambda: s * e, "zero": lambda: 0 * e, "zeror": lambda: e * 0,
        "pow0": lambda: e**0, "powb": lambda: e**2, "powe": lambda: s**e,
        "sin": lambda: sc.sin(e), "cos": lambda: sc.cos(e), "sub": lambda: e - e,
        "div": lambda: e / e, "addn": lambda: sc.Add(s, 1, e, s), "neg": lambda: -e,
        "muln": lambda: sc.Mul(s, e, 0, s), "onep": lambda: sc.one**e,
        "dup": lambda: e * e, "add1": lambda: sc.Add(e), "mul1": lambda: sc.Mul(e),
        "first": lambda: sc.Add(e, s, s), "last": lambda: sc.Mul(s, s, 0, e),
        "addN": lambda: sc.Add(*among(e, s, k)), "mulN": lambda: sc.Mul(*among(e, s, k)),
        "rowN": lambda: row(e, s, k), "towerN": lambda: tower(sc, e, k),
    }[op]()


def among(e, s, k):
    """e somewhere among hundreds or thousands of operands."""
    n = BIG[k % len(BIG)]
    out = [s if i % 3 else i // 3 for i in range(n)]
    out[(k * 37 + k // len(BIG)) % n] = e
    return out


def row(e, s, k):
    for i in range(BIG[k % len(BIG)]):
        e = e + s if i % 2 else i * e if i % 3 else s - e
    return e


def tower(sc, e, k):
    for i in range(BIG[k % len(BIG)]):
        e = sc.sin(e) if i % 2 else sc.cos(e)
    return e


WRAPS = ["addl", "addr", "mull", "mulr", "zero", "zeror", "pow0", "powb", "powe", "sin",
         "cos", "sub", "div", "addn", "neg", "muln", "onep", "dup", "add1", "mul1", "first",
         "last"]


def _ctx():
    from hypothesis import strategies as st

    return st.lists(
        st.tuples(st.sampled_from(WRAPS), st.integers(0, 9)).map(list), max_size=6)


def _good():
    from . import gen

    return gen.program(
        OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"]), max_cmds=6)


def bad_parts(sc, own, x, y, good, free, any_shape):
    """Parts without a compiled counterpart; x, y and good are supported."""
    F, Symbol = sc.Function, sc.Symbol
    parts = [
        ("f(x)", lambda: F("f")(good)),
        ("f()", lambda: F("f")()),
        ("g(x, y)", lambda: F("g")(x, good)),
        ("free symbol", lambda: Symbol(free)),
        ("wild", lambda: sc.Expr.new_wild("x")),
        ("bare sin", lambda: sc.sin),
        ("bare f", lambda: F("x")),
        ("List", lambda: sc.List(good, y)),
        ("empty List", lambda: sc.List()),
        ("symbol called", lambda: x(good)),
        ("integer called", lambda: sc.one(good)),
        ("compound head", lambda: sc.sin(x)(good)),
        ("tan", lambda: F("tan")(good)),
        ("exp", lambda: F("exp")(good)),
        ("Sin", lambda: F("Sin")(good)),
        ("add", lambda: F("add")(x, good)),
        ("Pow", lambda: F("Pow")(x, good)),
        ("sin(x, y)", lambda: sc.sin(good, y)),
        ("cos(x, y, y)", lambda: sc.cos(good, y, y)),
        ("pow(x, y, y)", lambda: sc.Pow(x, good, y)),
        ("bare pow in pow", lambda: x**sc.Pow),
        ("own Integer", lambda: own["J"](3)),
        ("own Symbol", lambda: own["T"]("x")),
        ("own float", lambda: own["R"](2.5)),
        ("List of one", lambda: sc.List(good)),
        ("List of an atom", lambda: sc.List(x)),
        ("List of a List", lambda: sc.List(sc.List(good))),
        ("List of five", lambda: sc.List(x, good, y, 1, x)),
        ("f of one atom", lambda: F("f")(x)),
        ("f of four", lambda: F("f")(x, good, 0, y)),
        ("g of g", lambda: F("g")(F("g")(good))),
    ]
    if any_shape:
        # heads called Add that are not the Add of simplecas
        parts.append(("symbol named Add called", lambda: Symbol("Add")(x, good)))
        parts.append(("symbol named sin called", lambda: Symbol("sin")(good)))
        parts.append(("own Add called", lambda: own["G"]("Add")(x, good)))
        parts.append(("own sin called", lambda: own["G"]("sin")(good)))
    return parts


N_BAD = 35


def _strategy_llvm():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "good": _good(), "bad": st.integers(0, N_BAD - 1), "ctx": _ctx(),
            "free": st.sampled_from(["z", "w", "X", "xy", "_out", ".0"]),
            "shape": st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list),
            "at": st.integers(0, 8), "args": st.booleans(),
        }
    )


LARGE = ["addN", "mulN", "rowN", "towerN"]


def _large_ctx(ops, small):
    from hypothesis import strategies as st

    i = st.integers(0, 3000)
    few = st.lists(st.tuples(st.sampled_from(small), st.integers(0, 3)).map(list), max_size=2)
    return st.tuples(few, st.tuples(st.sampled_from(ops), i).map(list), few).map(
        lambda t: [*t[0], t[1], *t[2]])


def _strategy_llvm_large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "good": _good(), "bad": st.integers(0, N_BAD - 1),
            "ctx": _large_ctx(LARGE, ["addl", "mulr", "sin", "zero", "last"]),
            "free": st.sampled_from(["z", "w", "X", "xy", "_out", ".0"]),
            "shape": st.one_of(
                st.sampled_from([[1, 300], [300, 1], [17, 19], [40, 30], [9, 150]]),
                st.just([2, 2])),
            "at": st.integers(0, 3000), "args": st.booleans(),
        }
    )


def _strategy_sympy_large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"bad": st.integers(0, N_SYMPY - 1),
         "ctx": _large_ctx(["addN", "mulN", "fN", "tupleN"], ["add", "mulr", "sin", "f", "zero"]),
         "shape": st.sampled_from([[1, 1], [2, 2], [20, 30], [1, 300], [300, 1]]),
         "at": st.integers(0, 3000)})


def _strategy_eval_large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"good": _good(), "bad": st.integers(0, 15),
         "ctx": _large_ctx(LARGE, ["addl", "mulr", "sin", "zero", "last"]),
         "which": st.integers(0, 2)})


def rejected(what, call, exc):
    try:
        r = call()
    except exc:
        return
    except Exception as e:  # noqa
        fail(f"{what} raised {type(e).__name__}: {short(str(e))} instead of {exc.__name__}")
    fail(f"{what} was accepted: {short(r)}")


def run_llvm(case, rec):
    from protosym.simplecas.exceptions import LLVMNotImplementedError

    cas = Cas()
    sc = cas.sc
    R = reals(cas, case["good"])
    good = R[-1]
    x, y = sc.Symbol("x"), sc.Symbol("y")
    parts = bad_parts(sc, cas.own, x, y, good, case["free"], True)
    name, part = parts[case["bad"] % len(parts)]
    e = part()
    for op, k in case["ctx"]:
        e = wrap(sc, e, op, pick(R, k), k)
    args = [x, y] if case["args"] else [y, sc.Symbol("unused"), x]
    nr, nc = case["shape"]
    rows = [[pick(R, i * nc + j) if (i + j) % 3 else 0 for j in range(nc)]
            for i in range(nr)]
    n = case["at"] % (nr * nc)
    rows[n // nc][n % nc] = e
    ok = sc.Matrix([[good, 0], [x, y]])
    before = (good.to_llvm_ir(args), ok.to_llvm_ir(args))
    t = cas.show(cas.read(e))
    for what, call in (
        ("to_llvm_ir of " + t, lambda: e.to_llvm_ir(args)),
        ("lambdify of " + t, lambda: sc.lambdify(args, e)),
        (f"Matrix.to_llvm_ir with the entry {t}", lambda: sc.Matrix(rows).to_llvm_ir(args)),
        (f"lambdify of a matrix with the entry {t}",
         lambda: sc.lambdify(args, sc.Matrix(rows))),
    ):
        rejected(what, call, LLVMNotImplementedError)
    after = (good.to_llvm_ir(args), ok.to_llvm_ir(args))
    ensure(before == after, "a rejected request changed the IR of another one")
    # the supported neighbour with the offending symbol as an argument is accepted
    if name == "free symbol":
        e.to_llvm_ir(args + [sc.Symbol(case["free"])])
        rejected("to_llvm_ir of " + t, lambda: e.to_llvm_ir([]), LLVMNotImplementedError)
    rec.hit(len(case["ctx"]) >= 1)
    rec.label("part " + name)


# -- SymPy ------------------------------------------------------------------


def sympy_parts():
    import sympy as sp

    x, y = sp.symbols("x y")
    i = sp.Symbol("i", integer=True)
    f = sp.Function("f")
    A = sp.MatrixSymbol("A", 2, 2)
    return [
        ("exp", sp.exp(x)), ("sqrt", sp.sqrt(x)), ("half", sp.Rational(1, 2)),
        ("-7/3", sp.Rational(-7, 3)), ("float", sp.Float(1.5)), ("float 2", sp.Float(2.0)),
        ("pi", sp.pi), ("E", sp.E), ("I", sp.I), ("oo", sp.oo), ("-oo", -sp.oo),
        ("zoo", sp.zoo), ("nan", sp.nan), ("log", sp.log(x)), ("tan", sp.tan(x)),
        ("sinh", sp.sinh(x)), ("asin", sp.asin(x)), ("Abs", sp.Abs(x)),
        ("Eq", sp.Eq(x, y)), ("Lt", sp.Lt(x, y)), ("true", sp.true), ("false", sp.false),
        ("Derivative", sp.Derivative(f(x), x)), ("Integral", sp.Integral(x, x)),
        ("Integral 0..1", sp.Integral(x, (x, 0, 1))), ("Sum", sp.Sum(i, (i, 0, 5))),
        ("Lambda", sp.Lambda(x, x)), ("MatrixSymbol", A), ("MatrixElement", A[0, 1]),
        ("Piecewise", sp.Piecewise((x, x > 0), (y, True))),
        ("conjugate", sp.conjugate(x)), ("re", sp.re(x)), ("factorial", sp.factorial(x)),
        ("Max", sp.Max(x, y)), ("FiniteSet", sp.FiniteSet(x, y)),
        ("Interval", sp.Interval(0, 1)), ("gamma", sp.gamma(x)), ("Mod", sp.Mod(x, y)),
        ("GoldenRatio", sp.GoldenRatio), ("EulerGamma", sp.EulerGamma),
        ("Heaviside", sp.Heaviside(x)), ("Indexed", sp.Indexed("B", i)),
        ("Subs", sp.Subs(f(x), x, y)), ("Not", sp.Not(sp.Symbol("p"))),
        ("And", sp.And(sp.Symbol("p"), sp.Symbol("q"))),
        ("ImmutableMatrix", sp.ImmutableMatrix([[x, y]])), ("Dict", sp.Dict({x: y})),
        ("sec", sp.sec(x)), ("floor", sp.floor(x)), ("sign", sp.sign(x)),
        ("EmptySet", sp.S.EmptySet), ("Integers", sp.S.Integers),
        ("Product", sp.Product(i, (i, 1, 3))), ("Limit", sp.Limit(f(x), x, 0)),
        ("Order", sp.Order(x)), ("unevaluated", sp.UnevaluatedExpr(x)),
        ("DiracDelta", sp.DiracDelta(x)), ("sinc", sp.sinc(x)), ("cot", sp.cot(x)),
        ("besselj", sp.besselj(0, x)), ("binomial", sp.binomial(x, y)),
        ("Catalan", sp.Catalan), ("cbrt", sp.cbrt(x)), ("erf", sp.erf(x)),
        ("Abs(-2)", sp.Abs(-2, evaluate=False)), ("gamma(5)", sp.gamma(5, evaluate=False)),
        ("floor(3)", sp.floor(3, evaluate=False)),
        ("float 0", sp.Float(0)), ("float -3", sp.Float(-3)), ("exp(0)", sp.exp(0, evaluate=False)),
        ("Integral of 0", sp.Integral(0, x)), ("Sum of 1", sp.Sum(1, (i, 1, 3))),
    ]


N_SYMPY = 72


def _strategy_sympy():
    from hypothesis import strategies as st

    ctx = st.lists(
        st.tuples(
            st.sampled_from(["add", "addr", "mul", "mulr", "zero", "pow0", "powb", "powe",
                             "sin", "cos", "f", "tuple", "nested", "sub", "onep"]),
            st.integers(0, 3)).map(list),
        max_size=6)
    return st.fixed_dictionaries(
        {"bad": st.integers(0, N_SYMPY - 1), "ctx": ctx,
         "shape": st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list),
         "at": st.integers(0, 8)})


def in_context(sp, e, ctx, side, f, plain):
    tower = 0
    for op, k in ctx:
        if op in ("powe", "powb"):
            tower += 1
            if tower > 1 and k == 3:
                k = 0  # SymPy would compute 3**3**3**3 at the next occasion
        s = side[k % 4]
        with sp.evaluate(False):
            if not plain:
                e = (sp.Tuple(*among(e, s, k)) if op == "tupleN" else
                     sp.Tuple(s, e) if op == "tuple" else f(e) if op == "f" else sp.Tuple(e))
                plain = op == "f"
                continue
            e = {
                "add": lambda: sp.Add(e, s), "addr": lambda: sp.Add(s, e),
                "mul": lambda: sp.Mul(e, s), "mulr": lambda: sp.Mul(s, e),
                "zero": lambda: sp.Mul(0, e, evaluate=False),
                "pow0": lambda: sp.Pow(e, 0, evaluate=False),
                "powb": lambda: sp.Pow(e, 2), "powe": lambda: sp.Pow(s, e),
                "sin": lambda: sp.sin(e), "cos": lambda: sp.cos(e),
                "f": lambda: f(s, e), "tuple": lambda: sp.Tuple(s, e, s),
                "nested": lambda: sp.Tuple(sp.Tuple(e), sp.Tuple()),
                "sub": lambda: sp.Add(e, sp.Mul(-1, e, evaluate=False), evaluate=False),
                "onep": lambda: sp.Pow(1, e, evaluate=False),
                "addN": lambda: sp.Add(*among(e, s, k)), "mulN": lambda: sp.Mul(*among(e, s, k)),
                "fN": lambda: f(*among(e, s, k)), "tupleN": lambda: sp.Tuple(*among(e, s, k)),
            }[op]()
            plain = op not in ("tuple", "nested", "tupleN")
    return e


def srepr(sp, e):
    try:
        return sp.srepr(e)[:300]
    except Exception:  # noqa: SymPy cannot print that one
        return type(e).__name__


def run_sympy(case, rec):
    import sympy as sp

    cas = Cas()
    sc = cas.sc
    parts = sympy_parts()
    name, e = parts[case["bad"] % len(parts)]
    x, y = sp.symbols("x y")
    side = [x, y + 2, sp.sin(x) * y, sp.Integer(3)]
    f = sp.Function("f")
    plain = isinstance(e, sp.Expr) and not isinstance(e, sp.matrices.MatrixExpr)
    try:
        e = in_context(sp, e, case["ctx"], side, f, plain)
    except Exception:  # noqa: SymPy cannot build that combination
        rec.label("refused by SymPy")
        return
    plain = isinstance(e, sp.Expr) and not isinstance(e, sp.matrices.MatrixExpr)
    present = any(s == parts[case["bad"] % len(parts)][1] for s in sp.preorder_traversal(e))
    if not present:
        rec.label("evaluated away by SymPy")
        return
    good = sp.sin(x) * y**2 + f(x, 3)
    before = sc.Expr.from_sympy(good)
    rejected(f"from_sympy of {srepr(sp, e)}", lambda: sc.Expr.from_sympy(e),
             NotImplementedError)
    if plain:
        nr, nc = case["shape"]
        m = sp.zeros(nr, nc)
        for i in range(nr):
            for j in range(nc):
                if (i + j) % 2:
                    m[i, j] = side[(i + j) % 4]
        n = case["at"] % (nr * nc)
        try:
            m[n // nc, n % nc] = e
            entry = m[n // nc, n % nc]
        except (TypeError, ValueError):
            entry = None
        if entry == e:
            rejected(f"Matrix.from_sympy with the entry {srepr(sp, e)}",
                     lambda: sc.Matrix.from_sympy(m), NotImplementedError)
            rec.label("in a matrix")
    ensure(sc.Expr.from_sympy(good) is before, "a rejected request changed a later one")
    rec.hit(len(case["ctx"]) >= 1)
    rec.label("part " + name)


# -- evaluation with a missing rule --------------------------------------------


def _strategy_eval():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"good": _good(), "bad": st.integers(0, 15), "ctx": _ctx(),
         "which": st.integers(0, 2)})


def run_eval(case, rec):
    from protosym.core.exceptions import NoEvaluationRuleError

    cas = Cas()
    sc = cas.sc
    R = reals(cas, case["good"])
    good = R[-1]
    x, y = sc.Symbol("x"), sc.Symbol("y")
    vals = {x: 0.5, y: -1.25}
    wild = sc.Expr.new_wild("a")
    own = cas.own
    which = case["which"]
    try:
        if not abs(good.eval_f64(vals)) < 10:
            good = x
    except (ArithmeticError, ValueError):
        good = x  # not a number there: the missing rule need not be met first
    if which == 0:
        parts = [
            lambda: sc.Function("f")(good), lambda: sc.Function("f")(),
            lambda: sc.Symbol("unknown"), lambda: wild, lambda: sc.sin,
            lambda: sc.List(x), lambda: sc.List(), lambda: x(y), lambda: sc.one(x),
            lambda: sc.sin(x)(y), lambda: sc.Function("x"), lambda: sc.Function("tan")(x),
            lambda: own["J"](2),
            lambda: own["G"]("sin")(x),
            lambda: sc.Symbol("cos")(x), lambda: own["T"]("x"),
        ]
        part = parts[case["bad"] % len(parts)]()
        ctx = case["ctx"]
        call = lambda: e.eval_f64(dict(vals))  # noqa: E731
        name = "eval_f64"
    else:
        # no rule for wild atoms; every head has a rule
        part = [lambda: wild, lambda: sc.Function("f")(wild), lambda: sc.List(x, wild),
                lambda: own["T"]("x"),
                lambda: sc.Function("f")(own["J"](2)),
                ][case["bad"] % 5]()
        ctx = case["ctx"]
        call = (lambda: e.eval_latex()) if which == 1 else (lambda: e.to_sympy())
        name = "eval_latex" if which == 1 else "to_sympy"
    e = part
    ok_ops = {"addl", "addr", "mull", "mulr", "zero", "zeror", "sin", "cos", "addn", "neg",
              "muln", "dup", "first", "last", "add1", "mul1", "sub", *LARGE}
    for op, k in ctx:
        # contexts that cannot fail for another reason first
        if which == 0 and op not in ok_ops:
            continue
        if which == 2 and op in ("div", "pow0", "powe", "onep", "powb"):
            continue
        e = wrap(sc, e, op, [x, y, sc.one, sc.sin(x)][k % 4], k)
    before = good.eval_latex()
    rejected(f"{name} of {cas.show(cas.read(e))}", call, NoEvaluationRuleError)
    ensure(good.eval_latex() == before, "a rejected request changed a later one")
    ensure((x + y).eval_f64(vals) == -0.75, "a rejected request changed a later one")
    rec.hit(len(ctx) >= 1)
    rec.label(name)


SUBS = [
    Sub(
        "llvm", _strategy_llvm, run_llvm, quick=3000, thorough=60000,
        rule="one of 35 parts without compiled counterpart inside a generated supported "
        "context (also multiplied by zero, to the power zero), alone and as one entry of "
        "a matrix, to IR and compiled; non-trivial = non-empty context",
    ),
    Sub(
        "sympy", _strategy_sympy, run_sympy, quick=2500, thorough=40000,
        rule="one of 72 kinds of unsupported SymPy objects inside a generated unevaluated "
        "context, alone and as a matrix entry; non-trivial = non-empty context and SymPy "
        "kept the part",
    ),
    Sub(
        "eval", _strategy_eval, run_eval, quick=2500, thorough=40000,
        rule="a part without evaluation rule (number, LaTeX, SymPy) inside a generated "
        "context; non-trivial = non-empty context",
    ),
    Sub("llvm-large", _strategy_llvm_large, run_llvm, quick=160, thorough=4000,
        rule="the same with the part among 129 to 2500 operands, below a chain or tower of as "
        "many, in a matrix of up to 1350 entries"),
    Sub("sympy-large", _strategy_sympy_large, run_sympy, quick=160, thorough=4000,
        rule="the same with the part among 129 to 2500 operands, in a matrix of up to 600 "
        "entries"),
    Sub("eval-large", _strategy_eval_large, run_eval, quick=160, thorough=4000,
        rule="the same with the part among 129 to 2500 operands or below a chain or tower of "
        "as many"),
]

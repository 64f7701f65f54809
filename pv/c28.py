"""C28: operations neither depend on nor touch what is around them."""

from __future__ import annotations

import json
import os
import subprocess

from . import c24
from .base import Sub, Violation, fail, short
from .build import pick, reals
from .c24 import Ctx, OPERATIONS, as_text, freeze
from .model import Cas

FLAGS = [
    [],
    ["-O"],
    ["-OO"],
    ["-X", "dev"],
    [],
    ["-bb", "-W", "error"],
    ["-s", "-S", "-X", "utf8=0"],  # (no site: the optional packages are not there at all)
]
NEEDS = {
    "compiled": {"llvmlite"}, "compiled_order": {"llvmlite"},
    "compiled_matrix": {"llvmlite", "numpy"}, "sympy": {"sympy"},
    "sympy_matrix": {"sympy"},
}
OWN = {}
CHILDREN = []


def own(f):
    OWN[f.__name__] = f
    return f


@own
def sympy(c, e, a, b, k):
    s = e.to_sympy() if k % 2 else e._sympy_()
    import sympy

    return [sympy.srepr(s), c.sc.Expr.from_sympy(s)]


@own
def sympy_matrix(c, e, a, b, k):
    s = c.sc.Matrix([[e, 0], [a, 1]]).to_sympy()
    return c.sc.Matrix.from_sympy(s).tolist()


class Duck:
    """Looks like a number, symbol, array ... of another package."""

    free_symbols = shape = args = dtype = func = is_number = is_Integer = is_Symbol = ()
    nrows = ncols = real = imag = numerator = denominator = p = q = value = 1

    def __array__(self, *args, **kw):
        raise TypeError("not this")

    def tolist(self):
        return [[1]]

    def _sympy_(self):
        return 1

    def __float__(self):
        return 1.0


class Anything:
    """Has every attribute."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return 1


@own
def foreign(c, e, a, b, k):
    import decimal
    import fractions

    sc = c.sc
    o = [Duck(), Anything(), 1.5, "x", fractions.Fraction(1, 2), decimal.Decimal(2), None,
         (e,), 2.0, e.rep, Duck, b"1", 1j][k % 13]
    out = []
    for f in (lambda: e + o, lambda: e * o, lambda: o - e, lambda: e**o, lambda: o / e,
              lambda: e(o), lambda: sc.expressify(o), lambda: sc.Matrix([[a, o]]).tolist(),
              lambda: e.xreplace({a: o}), lambda: e.as_function(o)(a), lambda: e == o,
              lambda: e.eval_f64({o: 1.0}), lambda: sc.Expr(o), lambda: e.diff(a, o),
              lambda: sc.Matrix([[e]]) + o, lambda: sc.Matrix([[e]])[o, 0],
              lambda: sc.Matrix(o), lambda: e.to_llvm_ir([o])):
        try:
            out.append(f())
        except Exception as err:  # noqa
            out.append(type(err).__name__)
    return out


@own
def rules(c, e, a, b, k):
    """Rules registered, replaced and refused."""
    from protosym.core.sym import (
        AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, Sym,
        SymDifferentiator, star,
    )

    sc = c.sc

    class Other(Sym):
        pass

    out = []
    for cls, F, K in ((sc.Expr, sc.Function, sc.Integer),
                      (Other, Other.new_atom("Function", str), Other.new_atom("Integer", int))):
        w, v = cls.new_wild("w"), cls.new_wild("v")
        ev = cls.new_evaluator(["ev", "eval_f64", ""][k % 3], [float, str, object][k % 3])
        f = F("f")
        pairs = [
            lambda: (K[w], PyFunc1(float)(w)), lambda: (f(w), PyOp1(abs)(w)),
            lambda: (f(w, v), PyOp2(min)(w, v)), lambda: (f(star(w)), PyOpN(sum)(star(w))),
            lambda: (AtomRule[w], AtomFunc(len)(w)),
            lambda: (HeadRule(w, v), HeadOp(lambda h, x: len(x))(w, v)),
            lambda: (f(w), PyOp1(abs)(v)), lambda: (f(w), f(w)), lambda: (w, PyOp1(abs)(w)),
            lambda: (f(w, w), PyOp2(min)(w, w)), lambda: (K[w], len),
        ]
        for i in (k, k + 1 + k // 13, k, k + 3, k + 5 + k // 29):
            try:
                lhs, rhs = pairs[i % len(pairs)]()
                ev[lhs] = rhs
                out.append("ok")
            except Exception as err:  # noqa
                out.append(type(err).__name__)
        for t in (F("q"), K(3), f(K(2)), f(K(2), K(-1)), f(), F("h")(K(1), f)):
            try:
                out.append(ev(t))
            except Exception as err:  # noqa
                out.append(type(err).__name__)
    w, v = sc.Expr.new_wild("w"), sc.Expr.new_wild("v")
    d = SymDifferentiator(sc.Expr, zero=sc.zero, one=sc.one, add=sc.Add, mul=sc.Mul)
    f = sc.Function("f")
    pairs = [((f(w), w), a), ((f(w), w), f(w) * e), ((sc.sin(w), w), sc.cos(w)),
             ((f(w, v), v), f(v)), ((f(w, v), w), w), ((f(w, w), w), w), ((f(w), v), w),
             (f(w), w), ((w, w), w), ((f(w), w), 1)]
    for i in (k, k + 1 + k // 13, k, k + 3, k + 5 + k // 29, 0, 2, 1):
        try:
            lhs, rhs = pairs[i % len(pairs)]
            d[lhs] = rhs
            out.append("ok")
        except Exception as err:  # noqa
            out.append(type(err).__name__)
        if i % 3 == 0:
            d.add_distributive_rule([sc.Add, sc.Function("g")][i % 2])
    for t in (f(c.syms[0]), f(c.syms[1], c.syms[0]), e, f(sc.sin(c.syms[0]) + 1)):
        try:
            out.append(d(t, c.syms[0]))
        except Exception as err:  # noqa
            out.append(type(err).__name__)
    return out


@own
def large(c, e, a, b, k):
    """Everything at a size where another way might be taken."""
    sc = c.sc
    n = [9, 13, 17, 33, 70, 130, 300][k % 7]
    syms = [sc.Symbol(f"v{i}") for i in range(n)]
    signs = [(-1) ** (i // 2) for i in range(n)]
    vals = {s: g * (1e16 if i % 4 < 2 else 0.1 * i + 1e-3) for i, (s, g) in enumerate(
        zip(syms, signs))}
    mild = {s: 1 + g / (i + 3) for i, (s, g) in enumerate(zip(syms, signs))}
    total, product = sc.Add(*syms), sc.Mul(*syms)
    mixed = sc.Add(*[s * sc.sin(t) if i % 3 else s**2 for i, (s, t) in enumerate(
        zip(syms, syms[1:] + [a]))], e)
    nest = e
    for s in syms[:70]:
        nest = sc.sin(nest) + s
    M = sc.Matrix([[s if i % 2 else 0 for i, s in enumerate(syms)], [mixed] * n])
    do = [
        lambda: total.eval_f64(vals), lambda: sc.Add(*syms[::-1], e).eval_f64(
            {**vals, **{s: 0.5 for s in c.syms}}),
        lambda: product.eval_f64(mild), lambda: mixed.eval_f64({**mild, a: 0.25}),
        lambda: sc.cos(mixed).diff(syms[n // 2]), lambda: total.bin_expand(),
        lambda: [mixed, nest], lambda: repr(mixed), lambda: nest.eval_latex(),
        lambda: [mixed.count_ops_tree(), nest.count_ops_graph()],
        lambda: mixed.to_llvm_ir(syms), lambda: M.to_llvm_ir(syms),
        lambda: (M + M).diff(syms[1]).tolist()[0],
        lambda: mixed.xreplace({s: a + i for i, s in enumerate(syms)}),
        lambda: nest.eval_f64({**mild, **{s: 0.5 for s in c.syms}}),
    ]
    out = []
    for f in [do[i % len(do)] for i in (k // 7, k // 7 + 5, k // 7 + 10)] + do[:2]:
        try:
            out.append(f())
        except Exception as err:  # noqa
            out.append(type(err).__name__)
    return out


NAMES = [n for n, (_, w) in OPERATIONS.items() for _ in range(w)
         if n != "sympy_and_back" and n not in NEEDS] + sorted(NEEDS) + ["foreign"] * 6 + [
             "large"] * 5 + ["rules"] * 4
PLAIN = [n for n in NAMES if n not in NEEDS]


def needs(step):
    return NEEDS.get(step[0], set())


def setup():
    """Here the optional packages are all loaded, in the other processes as needed."""
    import llvmlite.binding  # noqa
    import numpy  # noqa
    import sympy  # noqa


def perform(c, step):
    name, i, j, k = step
    if name not in OWN:
        return c24.perform(c, step)
    e, a, b = pick(c.pool, i), pick(c.pool, j), pick(c.pool, k)
    try:
        return freeze(c, OWN[name](c, e, a, b, k))
    except Violation:
        raise
    except Exception as err:  # noqa
        err.__traceback__ = None
        return freeze(c, err)


def start(flags):
    from .boot import PYTHON, REPO_SRC

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=here, PYTHONHASHSEED="0", PV_REPO_SRC=REPO_SRC)
    return subprocess.Popen(
        [PYTHON, *flags, "-m", "pv.c28_child"], env=env, text=True,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE)


def ask(n, request):
    from .engine import HarnessError

    if not CHILDREN:
        CHILDREN.extend([None] * len(FLAGS))
    if CHILDREN[n] is None:
        CHILDREN[n] = start(FLAGS[n])
    p = CHILDREN[n]
    p.stdin.write(json.dumps(request) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError(f"the process with {FLAGS[n]} ended")
    res = json.loads(line)
    if "error" in res:
        text = res["error"]
        last = text.strip().splitlines()[-1]
        if "/protosym/" in text.replace(" ", "") and "Error" in text:
            fail(f"with the options {FLAGS[n]}: {last}\n{text[-1500:]}")
        raise HarnessError(f"with {FLAGS[n]}: " + text)
    return res


def possible(cas, pool, step):
    """The step, or another one if SymPy would compute astronomic numbers."""
    from .c19 import explosive

    name, i, j, k = step
    if name.startswith("sympy") and any(
            explosive(cas, cas.read(pick(pool, x))) for x in (i, j)):
        return ["printing", i, j, k]
    return step


def run(case, rec):
    cas = Cas()
    pool = reals(cas, case["prog"])
    c = Ctx(cas, pool)
    case = dict(case, steps=[possible(cas, pool, s) for s in case["steps"]])
    want = [as_text(perform(c, step)) for step in case["steps"]]
    flags = case["flags"] % len(FLAGS)
    res = ask(flags, case)
    absent = set()
    for n, name in enumerate(["sympy", "numpy", "llvmlite"]):
        if case["absent"] >> n & 1:
            absent.add(name)
    what = f"options {FLAGS[flags]}, without {sorted(absent)}"
    bare = "-S" in FLAGS[flags]
    missing = 0
    for n, (step, text) in enumerate(zip(case["steps"], want)):
        got = res["texts"][n]
        gone = absent if n < case["present_from"] else set()
        if bare:
            gone = {"sympy", "numpy", "llvmlite"}
        gone = needs(step) & gone
        if gone:
            missing += 1
            if text[:9] == "('error'," and got == text:
                continue
            if not got.startswith(("('error', 'ImportError'",
                                   "('error', 'ModuleNotFoundError'")):
                fail(f"{what}: {step} should say that {sorted(gone)} is missing, but gave "
                     f"{short(got, 500)}")
            rec.label("missing " + sorted(gone)[0])
        elif got != text:
            fail(f"{what}: {step} gave {short(got, 600)}, here {short(text, 600)}")
    if res["changed"]:
        fail(f"{what}: {res['changed'][0]}")
    if "sympy" in " ".join(res["loaded"]):
        fail(f"{what}: loaded without need: {res['loaded']}")
    rec.label("options " + " ".join(FLAGS[flags]))
    if case["thread"]:
        rec.label("in another thread")
    rec.hit(len(case["steps"]) > missing)
    cas.bridge.forget()


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    @st.composite
    def cases(draw):
        flags = draw(st.integers(0, len(FLAGS) - 1))
        # (the other packages need not work with the other options)
        names = [PLAIN]
        if not FLAGS[flags] or "-S" in FLAGS[flags]:
            names = [NAMES, NAMES, sorted(NEEDS)]
        step = st.tuples(st.one_of(*map(st.sampled_from, names)), st.integers(0, 3), st.integers(0, 12),
                         st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 104))).map(list)
        return {
            "flags": flags,
            "prog": draw(gen.program(
                c24.OPS, atoms=gen.atom(ints=draw(st.sampled_from([gen.small_ints, gen.any_ints])), syms=c24.SYMS, funs=["f", "g"]),
                max_cmds=10, max_arity=4, max_atoms=5)),
            "steps": draw(st.lists(step, min_size=1, max_size=8)),
            "absent": draw(st.integers(0, 7)),
            "present_from": draw(st.sampled_from([99, 99, 1, 2, 3])),
            "digits": draw(st.sampled_from([28, 1, 1, 3, 60])),
            "collector": draw(st.integers(0, 3)),
            "thread": draw(st.booleans()),
        }

    return cases()


SUBS = [
    Sub(
        "surroundings",
        _strategy,
        run,
        quick=2000,
        thorough=50000,
        setup=setup,
        rule="1-8 operations of all parts in a process with generated interpreter options, "
        "absent optional packages (sympy, numpy, llvmlite, coming back later or not), decimal "
        "precision, collector settings, in the main or another thread, protosym imported "
        "there: the same results as here (an ImportError where a package is needed), and "
        "nothing around is changed; non-trivial = at least one operation that can work there",
    ),
]

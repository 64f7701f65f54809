"""C26: objects from outside the language are refused or handed back to Python."""

from __future__ import annotations

import decimal
import fractions
import operator

from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = ["add", "mul", "sin", "cos", "sub", "addn", "muln", "ipow", "call1:f", "calln:g",
       "list", "pow"]
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
       "div": operator.truediv, "pow": operator.pow,
       "iadd": operator.iadd, "isub": operator.isub, "imul": operator.imul,
       "idiv": operator.itruediv, "ipow": operator.ipow}
HEADS = ["sin", "cos", "Add", "Mul", "List", "pow", "f", "g", "symbol", "wild", "compound"]
# the foreign object takes the place of an operand, an argument, an entry ...
CALLS = ["call", "matrix", "key", "value", "param", "argument", "expressify", "subsint"]
OTHERS = ["diff", "count", "evalkey", "largs", "lexpr", "ir", "mir", "Expr", "Tree",
          "treecall", "madd", "maddr", "get", "get0", "get1", "mdiff", "from_sympy", "mlargs",
          "modulus", "undefined"]

BARE = ["eq", "Expr", "Tree", "treecall", "madd", "maddr", "evalkey", "modulus",
        "undefined"]  # not even an int
#: operators that expressions do not have
UNDEFINED = {
    "floordiv": operator.floordiv, "mod": operator.mod, "matmul": operator.matmul,
    "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_,
    "or": operator.or_, "xor": operator.xor, "divmod": divmod, "lt": operator.lt,
    "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "ifloordiv": operator.ifloordiv, "imod": operator.imod, "imatmul": operator.imatmul,
    "contains": operator.contains, "getitem": operator.getitem, "round": round,
    "setitem": lambda e, o: operator.setitem(e, 0, o),
    "keyword": lambda e, o: e(value=o), "format": lambda e, o: format(e, ">%r" % [o]),
}


def _foreign():
    from hypothesis import strategies as st

    ints = st.integers(-3, 5)
    return st.one_of(
        st.tuples(st.just("float"), st.one_of(
            st.floats(), st.sampled_from([0.0, 1.0, 2.0, -1.0, 0.5, 3.0, float(2**53)]))),
        st.tuples(st.just("str"), st.one_of(
            st.sampled_from(["x", "y", "1", "0", "-1", "", "sin", "x + y", "2", "inf"]),
            st.text(max_size=3))),
        st.tuples(st.just("int"), ints),
        st.tuples(st.just("bytes"), st.sampled_from(["x", "1", ""])),
        st.tuples(st.just("frac"), ints, st.integers(1, 3)),
        st.tuples(st.just("complex"), ints, ints),
        st.tuples(st.just("decimal"), ints),
        st.tuples(st.just("index"), ints),
        st.tuples(st.just("equal"), ints),
        st.tuples(st.just("plain"), st.sampled_from([
            "None", "object", "tuple", "list", "dict", "set", "tree", "atom", "class",
            "Integer", "Symbol", "atomtype", "matrix", "function", "evaluator", "range",
            "int", "type", "ellipsis", "notimplemented", "lambda", "empty", "emptydict",
            "module", "exprs", "generator"])),
        st.tuples(st.just("language"), st.sampled_from(["x", "1", "wild", "f(x)", "shared"])),
    ).map(list)


class Index:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    __int__ = __index__

    def __float__(self):
        return float(self.n)


class Equal:
    """Equal to anything, with the hash of a number."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return True

    def __hash__(self):
        return hash(self.n)


class Reflect:
    """Knows what to do with an expression on its left."""

    def __init__(self):
        self.seen = []

    def __eq__(self, other):
        self.seen.append(("eq", other))
        return ("eq", self)

    __hash__ = None


def _reflected(name):
    def method(self, other):
        self.seen.append((name, other))
        return (name, self)

    return method


for _n in ("add", "sub", "mul", "truediv", "pow"):
    setattr(Reflect, f"__r{_n}__", _reflected(_n))

REF = {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv", "pow": "pow",
       "iadd": "add", "isub": "sub", "imul": "mul", "idiv": "truediv", "ipow": "pow"}


class Whole(int):
    """An int is an int, of whatever class."""


def make(spec, cas, e):
    """The foreign object, and whether it can be hashed."""
    sc = cas.sc
    k = spec[0]
    if k in ("float", "str", "int"):
        return spec[1]
    if k == "bytes":
        return spec[1].encode()
    if k == "frac":
        return fractions.Fraction(spec[1], spec[2])
    if k == "complex":
        return complex(spec[1], spec[2])
    if k == "decimal":
        return decimal.Decimal(spec[1])
    if k == "index":
        return Index(spec[1])
    if k == "equal":
        return Equal(spec[1])
    if k == "language":
        from protosym.core.sym import Sym

        class Lang(Sym):
            pass

        return {
            "x": lambda: Lang.new_atom("Symbol", str)("x"),
            "1": lambda: Lang.new_atom("Integer", int)(1),
            "wild": lambda: Lang.new_wild("x"),
            "f(x)": lambda: Lang(Lang.new_atom("Function", str)("f").rep(
                Lang.new_atom("Symbol", str)("x").rep)),
            "shared": lambda: Lang(e.rep),  # the same tree, in another class
        }[spec[1]]()
    import math

    from protosym.core.sym import Sym, Wild

    return {
        "None": lambda: None, "object": object, "tuple": lambda: (e,), "list": lambda: [e],
        "dict": lambda: {e: e}, "set": lambda: frozenset([e]), "tree": lambda: e.rep,
        "atom": lambda: sc.Symbol("x").rep.value, "class": lambda: sc.Expr,
        "Integer": lambda: sc.Integer, "Symbol": lambda: sc.Symbol,
        "atomtype": lambda: Wild, "matrix": lambda: sc.Matrix([[e]]),
        "function": lambda: e.as_function(sc.Symbol("x")), "evaluator": lambda: sc.eval_repr
        if hasattr(sc, "eval_repr") else Sym, "range": lambda: range(3), "int": lambda: int,
        "type": lambda: type(e), "ellipsis": lambda: ..., "notimplemented": lambda:
        NotImplemented, "lambda": lambda: (lambda x: e), "empty": lambda: (),
        "emptydict": lambda: {}, "module": lambda: math, "exprs": lambda: [[e, e]],
        "generator": lambda: (x for x in [e]),
    }[spec[1]]()


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    i = st.integers(0, 8)
    attempt = st.one_of(
        st.tuples(st.just("bin"), st.sampled_from([*BIN])),
        st.tuples(st.just("reflect"), st.sampled_from([*BIN, "eq"])),
        st.tuples(st.just("call"), st.sampled_from(HEADS)),
        st.tuples(st.sampled_from(CALLS), st.sampled_from(HEADS)),
        st.tuples(st.sampled_from(OTHERS), st.just("")),
        st.tuples(st.sampled_from(["eq"]), st.just("")),
    )
    return st.fixed_dictionaries(
        {
            "prog": gen.program(OPS, atoms=gen.atom(syms=["x", "y", "z"]), max_cmds=6),
            "tries": st.lists(
                st.tuples(attempt, _foreign(), i, i, i, st.integers(-4, 6)).map(
                    lambda t: [*t[0], *t[1:]]), min_size=1, max_size=6),
        }
    )


def refused(what, call, exc):
    try:
        r = call()
    except exc:
        return
    except Exception as e:  # noqa
        fail(f"{what} raised {type(e).__name__}: {short(str(e))}")
    fail(f"{what} was accepted: {short(r)}")


def run(case, rec):
    from protosym.core.tree import Tree
    from protosym.simplecas.exceptions import ExpressifyError
    from protosym.simplecas.expr import ExprFunction

    cas = Cas()
    sc, node = cas.sc, cas.node
    pool = terms(cas, case["prog"])
    real = reals(cas, case["prog"])
    places = 0

    def head(name, t, e):
        """The model and the real head of a call."""
        if name in ("sin", "cos", "Add", "Mul", "List", "pow"):
            return cas.fn(name), getattr(sc, "Pow" if name == "pow" else name)
        if name == "symbol":
            return cas.sym("x"), sc.Symbol("x")
        if name == "wild":
            return cas.store.atom("Wild", "x"), sc.Expr.new_wild("x")
        if name == "compound":
            return t, e
        return cas.fn(name), sc.Function(name)

    def model(op, a, b):
        op = op.lstrip("i") if op != "i" else op
        if op in ("add", "mul", "pow"):
            return node({"add": cas.Add, "mul": cas.Mul, "pow": cas.Pow}[op], a, b)
        if op == "sub":
            return node(cas.Add, a, node(cas.Mul, cas.int(-1), b))
        return node(cas.Mul, a, node(cas.Pow, b, cas.int(-1)))

    for kind, name, spec, i, j, k, n in case["tries"]:
        t, a = pick(pool, i), pick(pool, j)
        e, ea = pick(real, i), pick(real, j)
        o = make(spec, cas, e)
        try:
            hash(o)
            hashable = True
        except TypeError:
            hashable = False
        if spec[0] == "int" and kind not in BARE:
            continue  # those places take an int
        text = f"{spec}"
        with_int = k % 2 == 0
        good, goodt = (n, cas.int(n)) if with_int else (ea, a)
        held = sc.Integer(n)
        if with_int and (i + j) % 3 == 0:
            # an int of a kind of its own
            good = bool(n) if n in (0, 1) else Whole(n)
            rec.label("int of a subclass")
        if kind == "bin":
            f = BIN[name]
            if spec[0] != "frac" or "pow" not in name:
                # (Fraction(n, 1) knows itself how to be an exponent)
                refused(f"{cas.show(t)} {name} {text}", lambda: f(e, o), TypeError)
            if spec[0] == "plain" and spec[1] == "list" and name[0] == "i" or (
                    spec[0] == "equal"):
                pass  # list += asks for an iterable; covered by the other order
            else:
                refused(f"{text} {name} {cas.show(t)}", lambda: f(o, e), TypeError)
            for one, two, m in ((e, good, model(name, t, goodt)),
                                (good, e, model(name, goodt, t))):
                try:
                    r = f(one, two)
                except TypeError as err:
                    fail(f"{short(one)} {name} {short(two)} after a refusal: {err}")
                cas.same(r, m, f"{name} after a refusal")
        elif kind == "reflect":
            r = Reflect()
            if name == "eq":
                got, want = (e == r), ("eq", r)
            else:
                got, want = BIN[name](e, r), (REF[name], r)
            if not (type(got) is tuple and got[0] == want[0] and got[1] is r):
                fail(f"{cas.show(t)} {name} an object that knows expressions: {short(got)}")
            ensure(len(r.seen) == 1 and r.seen[0][1] is e,
                   "the reflected method was called with %s", short(r.seen))
            if name != "eq":
                refused(f"{name} with {cas.show(t)} on the right of it",
                        lambda: BIN[name](r, e), TypeError)
        elif kind == "call":
            places += 1
            ht, h = head(name, t, e)
            width = i % 4
            args = [pick(real, j + m) for m in range(width)]
            argts = [pick(pool, j + m) for m in range(width)]
            at = k % (width + 1)
            refused(f"call of {cas.show(ht)} with {text} as argument {at}",
                    lambda: h(*args[:at], o, *args[at:]), ExpressifyError)
            cas.same(h(*args[:at], good, *args[at:]), node(
                ht, *argts[:at], goodt, *argts[at:]), "the call after a refusal")
        elif kind == "matrix":
            places += 1
            rows = [[pick(real, i + r * 2 + c) if (r + c + n) % 3 else 0 for c in range(3)]
                    for r in range(2)]
            rows[k % 2][j % 3] = o
            refused(f"Matrix with the entry {text}", lambda: sc.Matrix(rows),
                    ExpressifyError)
            ensure(rows[k % 2][j % 3] is o, "the refused rows were changed")
            rows[k % 2][j % 3] = good
            cas.same(sc.Matrix(rows)[k % 2, j % 3], goodt, "the entry after a refusal")
        elif kind in ("key", "value"):
            places += 1
            if kind == "key":
                if not hashable or spec[0] == "equal":
                    continue
                bad = {ea: e, o: good} if k % 2 else {o: good, ea: e}
            else:
                bad = {ea: o} if k % 2 or sc.Symbol("q") is ea else {
                    sc.Symbol("q"): e, ea: o}
            refused(f"substitution with {text} as a {kind}", lambda: e.xreplace(bad),
                    ExpressifyError)
            cas.same(ea.xreplace({ea: good}), goodt, "substitution after a refusal")
        elif kind == "param":
            places += 1
            bad = [[o], [ea, o], [o, ea]][k % 3]
            refused(f"as_function of {text}", lambda: e.as_function(*bad), ExpressifyError)
            cas.same(ea.as_function(ea)(good), goodt, "a function after a refusal")
        elif kind == "argument":
            places += 1
            f = e.as_function(sc.Symbol("q"), ea) if ea is not sc.Symbol("q") else (
                e.as_function(sc.Symbol("p"), ea))
            bad = [o, ea] if k % 2 else [ea, o]
            refused(f"a function called with {text}", lambda: f(*bad), ExpressifyError)
            cas.same(f(ea, ea), t, "the function after a refusal")
        elif kind == "subsint":
            refused(f"a function made of {text}", lambda: ExprFunction(o, [ea]),
                    ExpressifyError)
            cas.same(ExprFunction(n, [sc.Symbol("q")])(e), cas.int(n), "a constant function")
        elif kind == "expressify":
            refused(f"expressify of {text}", lambda: sc.expressify(o), ExpressifyError)
            cas.same(sc.expressify(good), goodt, "expressify after a refusal")
            cas.same(ExprFunction(good, [sc.Symbol("q")])(sc.Symbol("q")), goodt,
                     "a function of a number")
        elif kind == "eq":
            if spec[0] == "equal":
                ensure((e == o) is True and (o == e) is True, "== was not handed over")
                continue
            ensure((e == o) is False and (o == e) is False and (e != o) is True,
                   "%s is equal to %s", cas.show(t), text)
            ensure((o in [e]) is False and (e in [o]) is False,
                   "%s is found as %s", cas.show(t), text)
        else:
            other(kind, spec, cas, sc, e, ea, o, text, k, n, Tree, hashable, t)
        cas.same(held, cas.int(n), "the number")
        rec.label(kind)
    for t, e in zip(pool, real):
        cas.same(e, t, "an expression after the refusals")
    rec.hit(len(case["tries"]) >= 2 and places >= 1)


def other(kind, spec, cas, sc, e, ea, o, text, k, n, Tree, hashable, t):
    x, y = sc.Symbol("x"), sc.Symbol("y")
    same_tree = spec == ["plain", "tree"]
    matrix = spec == ["plain", "matrix"]
    M = sc.Matrix([[e, 0], [ea, 1]])
    ok = sc.cos(x) * y
    if kind == "diff":
        if spec[0] == "language":
            return  # it has a tree, of which the expression does not depend
        refused(f"derivative by {text}", lambda: e.diff(o), Exception)
        refused(f"second derivative by {text}", lambda: e.diff(o, 2), Exception)
    elif kind == "count":
        if spec[0] != "index":
            refused(f"derivative {text} times", lambda: e.diff(x, o), Exception)
    elif kind == "evalkey":
        if hashable and spec[0] != "language":
            refused(f"value with {text} as a key", lambda: ok.eval_f64(
                {x: 1.0, y: 2.0, o: 1.0}), Exception)
        ensure(ok.eval_f64({x: 0.0, y: 2.0}) == 2.0, "value after a refusal")
    elif kind in ("largs", "mlargs"):
        if spec[0] == "language":
            return
        target = ok if kind == "largs" else sc.Matrix([[ok, 0]])
        refused(f"lambdify with the argument {text}", lambda: sc.lambdify(
            [x, o, y] if k % 2 else [o, x, y], target), Exception)
    elif kind == "lexpr":
        if not matrix:
            refused(f"lambdify of {text}", lambda: sc.lambdify([x], o), TypeError)
    elif kind in ("ir", "mir"):
        if spec[0] == "language":
            return
        target = ok if kind == "ir" else sc.Matrix([[ok, 0]])
        refused(f"IR with the argument {text}", lambda: target.to_llvm_ir([x, y, o]),
                Exception)
        ok.to_llvm_ir([x, y])
    elif kind == "Expr":
        if not same_tree:
            refused(f"Expr({text})", lambda: sc.Expr(o), TypeError)
    elif kind == "Tree":
        if not same_tree:
            mixed = [e.rep, ea.rep, x.rep][: n % 3 + 1]
            mixed.insert(k % (len(mixed) + 1), o)
            refused(f"Tree({text})", lambda: Tree(o), TypeError)
            refused(f"Tree(..., {text}, ...)", lambda: Tree(*mixed), TypeError)
            refused(f"Tree(..., {text}, ...) again", lambda: Tree(*mixed), TypeError)
    elif kind == "treecall":
        if not same_tree:
            args = [ea.rep, o] if k % 2 else [o, ea.rep]
            refused(f"tree called with {text}", lambda: e.rep(*args), TypeError)
            cas.bridge.same(e.rep(ea.rep), cas.node(cas.read(e), cas.read(ea)), "a call")
    elif kind == "madd":
        if not matrix:
            refused(f"Matrix + {text}", lambda: M + o, TypeError)
    elif kind == "maddr":
        if not matrix and spec[0] != "equal":
            refused(f"{text} + Matrix", lambda: o + M, TypeError)
    elif kind in ("get", "get0", "get1"):
        if spec[0] != "index":
            at = {"get": o, "get0": (o, 0), "get1": (0, o)}[kind]
            refused(f"entry {kind} {text}", lambda: M[at], TypeError)
            cas.same(M[0, 0], cas.read(e), "an entry after a refusal")
    elif kind == "mdiff":
        if spec[0] != "language":
            refused(f"Matrix derivative by {text}", lambda: M.diff(o), Exception)
    elif kind == "modulus":
        two = 2 if k % 2 else ea
        refused(f"pow({cas.show(t)}, ..., {text})", lambda: pow(e, two, o), TypeError) \
            if o is not None else None
        refused(f"pow({cas.show(t)}, {text}, 3)", lambda: pow(e, o, 3), TypeError)
        if spec[0] != "equal":
            refused(f"pow({text}, {cas.show(t)}, 3)", lambda: pow(o, e, 3),
                    (TypeError, ValueError))
            refused(f"pow({text}, 2, {cas.show(t)})", lambda: pow(o, 2, e),
                    (TypeError, ValueError))
    elif kind == "undefined":
        name = sorted(UNDEFINED)[(k * 11 + n) % len(UNDEFINED)]
        f = UNDEFINED[name]
        if not (name == "round" and o is None):
            refused(f"{cas.show(t)} {name} {text}", lambda: f(e, o), (TypeError, ValueError)
                    if name == "format" else TypeError)
        if name in ("floordiv", "matmul", "lshift", "rshift", "xor", "divmod", "lt", "ge"):
            refused(f"{text} {name} {cas.show(t)}", lambda: f(o, e), TypeError)
    elif kind == "from_sympy":
        refused(f"from_sympy of {text}", lambda: sc.Expr.from_sympy(o), Exception)
        refused(f"Matrix.from_sympy of {text}", lambda: sc.Matrix.from_sympy(o), Exception)
    else:
        raise ValueError(kind)


SUBS = [
    Sub(
        "refusal", _strategy, run, quick=8000, thorough=160000,
        rule="up to 6 attempts to use a generated foreign object (numbers of other types, "
        "texts, containers, trees, atom kinds, classes, expressions of other languages, "
        "objects that convert to or compare equal to numbers, objects with reflected "
        "operators) at a generated place (operand, argument, entry, key, value, "
        "parameter, variable, index), each followed by the same operation with a valid "
        "operand; non-trivial = 2 attempts, one of them inside a call or container",
    ),
]

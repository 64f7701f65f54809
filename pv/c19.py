"""C19: SymPy conversion preserves meaning and round-trips."""

from __future__ import annotations

import mpmath

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

CTX = mpmath.mp.clone()
CTX.prec = 500
LIMIT = CTX.mpf(10) ** 40
NEAR = CTX.mpf(10) ** -20
TOL = CTX.mpf(10) ** -50
SYMS = ["x", "y", "z", "x1"]
FUNS = ["f", "g", "phi", "Sin", "gamma", "tan", "exp", "Abs", "sqrt", "E", "S", "Pow", "I"]
OPS = [
    "add", "mul", "sin", "cos", "neg", "sub", "div", "addn", "muln", "ipow", "ipow", "pow",
    "inc", "scale", "square", "mid:Add", "mid:Mul", "call:f", "call:g", "call:phi", "call:Sin",
    "call:*",
]


# -- numeric meaning in complex arithmetic; None: undefined or not judged --------


def c_pow(b, p):
    if p == 0:
        return CTX.mpf(1)
    if b == 0 or abs(b) < NEAR:
        if b == 0 and CTX.re(p) > 0 and CTX.im(p) == 0:
            return CTX.mpf(0)
        if CTX.im(p) == 0 and p == CTX.floor(CTX.re(p)) and 0 < CTX.re(p) < 50:
            return b ** int(CTX.re(p))
        return None
    if CTX.im(p) == 0 and CTX.re(p) == CTX.floor(CTX.re(p)) and abs(p) < 10**6:
        n = int(CTX.re(p))
        if abs(n * CTX.log(abs(b))) > 120:
            return None
        return b**n
    re, im = CTX.re(b), CTX.im(b)
    if re < 0 and im != 0 and abs(im) < NEAR * abs(re):
        return None  # too close to the branch cut to tell the side
    lg = CTX.log(CTX.mpc(b))
    if abs(lg * p) > 100:
        return None
    return CTX.exp(p * lg)


def c_fun(name, args):
    """A fixed analytic function for every name."""
    s = CTX.mpf(sum(map(ord, name)) % 17 + 1) / 7
    for i, a in enumerate(args):
        if abs(CTX.im(a)) > 60:
            return None
        s = s * CTX.mpf("0.3") + CTX.sin(a * (i + 2) / 3 + i)
    return s


def c_trig(f, a):
    return None if abs(CTX.im(a)) > 60 else f(a)


def clip(v):
    return None if v is None or abs(v) > LIMIT else v


def term_value(cas, t, vals, memo):
    st = cas.store
    for s in sorted(st.reach(t)):
        if s in memo:
            continue
        if st.is_atom(s):
            memo[s] = CTX.mpf(st.value[s]) if cas.is_int(s) else vals[st.value[s]]
            continue
        h, *ks = st.kids[s]
        a = [memo[k] for k in ks]
        if any(v is None for v in a):
            memo[s] = None
        elif h == cas.Add:
            memo[s] = clip(sum(a, CTX.mpf(0)))
        elif h == cas.Mul:
            r = CTX.mpf(1)
            for v in a:
                r = r * v
            memo[s] = clip(r)
        elif h == cas.Pow:
            memo[s] = clip(c_pow(*a))
        elif h == cas.sin:
            memo[s] = clip(c_trig(CTX.sin, *a))
        elif h == cas.cos:
            memo[s] = clip(c_trig(CTX.cos, *a))
        else:
            memo[s] = clip(c_fun(st.value[h], a))
    return memo[t]


def sympy_value(e, vals):
    import sympy as sp
    from sympy.core.function import AppliedUndef

    memo = {}
    todo = [e]
    while todo:
        s = todo[-1]
        if s in memo:
            todo.pop()
            continue
        if isinstance(s, sp.Rational):
            memo[s] = CTX.mpf(int(s.p)) / CTX.mpf(int(s.q))
        elif isinstance(s, sp.Symbol):
            memo[s] = vals.get(s.name)
            if type(s) is not sp.Symbol or s != sp.Symbol(s.name):
                fail(f"to_sympy made the symbol {sp.srepr(s)}")
        elif s is sp.I:
            memo[s] = CTX.mpc(0, 1)
        elif s in (sp.zoo, sp.nan, sp.oo, -sp.oo):
            memo[s] = None
        elif s is sp.pi:
            memo[s] = CTX.pi + 0
        elif s is sp.E:
            memo[s] = CTX.e + 0
        elif isinstance(s, sp.Float):
            fail(f"to_sympy made the float {s}")
        else:
            missing = [a for a in s.args if a not in memo]
            if missing:
                todo.extend(missing)
                continue
            a = [memo[k] for k in s.args]
            if any(v is None for v in a):
                v = None
            elif isinstance(s, sp.Add):
                v = sum(a, CTX.mpf(0))
            elif isinstance(s, sp.Mul):
                v = CTX.mpf(1)
                for w in a:
                    v = v * w
            elif isinstance(s, sp.Pow):
                v = c_pow(*a)
            elif isinstance(s, sp.sin):
                v = c_trig(CTX.sin, *a)
            elif isinstance(s, sp.cos):
                v = c_trig(CTX.cos, *a)
            elif isinstance(s, sp.sinh):
                v = CTX.sinh(a[0]) if abs(a[0]) < 60 else None
            elif isinstance(s, sp.cosh):
                v = CTX.cosh(a[0]) if abs(a[0]) < 60 else None
            elif isinstance(s, sp.exp):
                v = CTX.exp(a[0]) if abs(a[0]) < 60 else None
            elif isinstance(s, AppliedUndef):
                v = c_fun(s.func.__name__, a)
            else:
                v = None
                memo["other"] = type(s).__name__
            memo[s] = clip(v)
        todo.pop()
    return memo[e], memo.get("other")


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(a))


# -- programs that SymPy can swallow ---------------------------------------------


def _program(max_cmds=9, ops=OPS):
    from hypothesis import strategies as st

    from . import gen

    ints = st.one_of(st.integers(-3, 4), st.integers(-3, 4), st.sampled_from(
        [10**20, -(2**61), 2**53 + 1]))
    return gen.program(ops, atoms=gen.atom(ints=ints, syms=SYMS), max_cmds=max_cmds)


def concrete(prog):
    """Replace calls and powers that would explode when SymPy evaluates them."""
    cmds = []
    for op, idx in prog["cmds"]:
        if op == "call:*":
            op = "call:" + FUNS[4 + sum(idx) % (len(FUNS) - 4)]
        if op.startswith("call:"):
            op = ("call0:" if sum(idx) % 6 == 0 else "calln:") + op[5:]
        cmds.append([op, idx])
    return {"atoms": prog["atoms"], "cmds": cmds}


def explosive(cas, t, big=10**4):
    """Would evaluating the integer powers in t make huge numbers?"""
    st = cas.store
    deg = {}
    closed = {}
    for s in sorted(st.reach(t)):
        if st.is_atom(s):
            deg[s] = 1 if not cas.is_int(s) else max(1, st.value[s].bit_length())
            closed[s] = cas.is_int(s)
            continue
        h, *ks = st.kids[s]
        closed[s] = all(closed[k] for k in ks)
        d = sum(deg[k] for k in ks) or 1
        if h == cas.Add:
            d = max((deg[k] for k in ks), default=1) + len(ks).bit_length()
        if h == cas.Pow:
            b, p = ks
            if cas.is_int(p):
                d = deg[b] * max(1, abs(st.value[p]))
            elif closed[p]:
                return True
            else:
                d = deg[b] * max(1, deg[p])
        elif h in (cas.sin, cas.cos) or h not in (cas.Add, cas.Mul):
            d = max([deg[k] for k in ks], default=1)
        if d > big:
            return True
        deg[s] = d
    return False


def _values():
    from hypothesis import strategies as st

    return st.lists(
        st.tuples(st.integers(-3000, 3000), st.sampled_from([0, 0, 1, -7, 411])).map(list),
        min_size=4, max_size=4)


def values_of(point):
    return {
        s: CTX.mpf(re) / 1000 + CTX.mpf(123) / 10**6 + (CTX.mpc(0, im) / 1000 if im else 0)
        for s, (re, im) in zip(SYMS, point)
    }


def _strategy_to():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"prog": _program(), "points": st.lists(_values(), min_size=1, max_size=2),
         "list": st.integers(0, 3)})


def run_to(case, rec):
    import sympy as sp

    cas = Cas()
    sc = cas.sc
    st = cas.store
    prog = concrete(case["prog"])
    T = terms(cas, prog)
    if explosive(cas, T[-1]):
        rec.label("skipped: explosive integer powers")
        return
    R = reals(cas, prog)
    t, e = T[-1], R[-1]
    s = e.to_sympy()
    ensure(isinstance(s, sp.Basic), "to_sympy returned %s", short(s))
    ensure(sp.sympify(e) == s, "sympify differs from to_sympy")
    ensure(e.to_sympy() == s, "to_sympy gives different results")
    names = {st.value[k] for k in st.reach(t) if st.kind[k] == "Symbol"}
    extra = {str(k) for k in s.free_symbols} - names
    ensure(not extra, "to_sympy of %s mentions %s", cas.show(t), extra)
    for point in case["points"]:
        vals = values_of(point)
        want = term_value(cas, t, vals, {})
        got, other = sympy_value(s, vals)
        if other:
            if other in {st.value[st.kids[k][0]] for k in st.reach(t) if st.kids[k]}:
                fail(f"to_sympy of {cas.show(t)}, with a user function {other}, has "
                     "SymPy's function of that name")
            rec.label("SymPy made a " + other)
        if want is None or got is None:
            rec.label("point not judged")
            continue
        if not close(got, want):
            fail(f"to_sympy of {cas.show(t)} is {sp.srepr(s)[:400]}: value "
                 f"{CTX.nstr(got, 15)} instead of {CTX.nstr(want, 15)}")
        rec.hit(st.graph_size(t) >= 4)
    # lists become tuples of the converted entries
    if case["list"]:
        k = case["list"]
        ok = [(a, b) for a, b in zip(T, R) if not explosive(cas, a)][-k:]
        items = [b for _, b in ok]
        s = sc.List(*items, sc.List(*items[:1])).to_sympy()
        ensure(isinstance(s, sp.Tuple) and len(s.args) == len(items) + 1,
               "to_sympy of a List is %s", short(s))
        for a, b in zip(s.args, items):
            ensure(a == b.to_sympy(), "entry of a converted List is %s", short(a))
        ensure(s.args[-1] == sp.Tuple(*[b.to_sympy() for b in items[:1]]),
               "nested List is %s", short(s.args[-1]))


def _large_program(heads):
    from . import gen

    ints = gen.st.one_of(gen.st.integers(-3, 4), gen.st.sampled_from([10**20, -(2**61)]))
    return gen.large(
        heads, rows=("Add",), towers=(), rest=["add", "mul", "sin", "sub", "scale", "call:f"],
        atoms=gen.atom(ints=ints, syms=SYMS), most=1)


def _strategy_to_large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"prog": _large_program(["Add", "Mul", "f", "g"]),
         "points": st.lists(_values(), min_size=1, max_size=1), "list": st.integers(0, 3)})


def _strategy_from_large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {"prog": _large_program(["Add", "Mul", "f", "List", "List"]),
         "mode": st.sampled_from([0, 4095, 4095, 1365])})


def _strategy_matrix_large():
    from hypothesis import strategies as st

    cell = st.one_of(st.just(-1), st.integers(-1, 12))
    cells = st.tuples(
        st.sampled_from([(17, 9), (9, 17), (1, 300), (300, 1), (40, 30), (30, 40), (2, 129),
                         (20, 20)]),
        st.lists(cell, min_size=1, max_size=12), st.integers(0, 40)
    ).map(lambda t: [list(t[0]), [
        -1 if (k // t[0][1] + 1) * 7 % (t[2] + 3) == 0 else t[1][(k * k + k // 5) % len(t[1])]
        for k in range(t[0][0] * t[0][1])]])
    return st.fixed_dictionaries(
        {"prog": _program(4), "cells": cells, "kind": st.integers(0, 3),
         "mode": st.sampled_from([0, 4095, 4095]), "empty": st.just(12),
         "made": st.integers(0, 5)})


# -- from SymPy ------------------------------------------------------------------


def sympy_term(cas, e):
    """The term with the structure of a SymPy expression; None if unsupported."""
    import sympy as sp
    from sympy.core.function import AppliedUndef

    memo = {}
    todo = [e]
    while todo:
        s = todo[-1]
        if s in memo:
            todo.pop()
            continue
        if isinstance(s, sp.Integer):
            memo[s] = cas.int(int(s))
        elif type(s) is sp.Symbol:
            memo[s] = cas.sym(s.name)
        else:
            head = {sp.Add: cas.Add, sp.Mul: cas.Mul, sp.Pow: cas.Pow, sp.sin: cas.sin,
                    sp.cos: cas.cos, sp.Tuple: cas.List}.get(s.func)
            if head is None and isinstance(s, AppliedUndef):
                head = cas.fn(s.func.__name__)
            if head is None:
                return None
            missing = [a for a in s.args if a not in memo]
            if missing:
                todo.extend(missing)
                continue
            memo[s] = cas.node(head, *[memo[a] for a in s.args])
        todo.pop()
    return memo[e]


def sympy_build(cas, t, mode):
    """A SymPy expression for term t. mode: bits choosing evaluation per node."""
    import sympy as sp

    st = cas.store
    new = {}
    for n, s in enumerate(sorted(st.reach(t))):
        if st.is_atom(s):
            new[s] = (sp.Integer if cas.is_int(s) else sp.Symbol)(st.value[s])
            continue
        h, *ks = st.kids[s]
        a = [new[k] for k in ks]
        ev = bool(mode >> (n % 12) & 1)
        if h == cas.Add:
            r = sp.Add(*a, evaluate=ev)
        elif h == cas.Mul:
            r = sp.Mul(*a, evaluate=ev)
        elif h == cas.Pow:
            r = sp.Pow(*a, evaluate=ev)
        elif h == cas.sin:
            r = sp.sin(*a, evaluate=ev)
        elif h == cas.cos:
            r = sp.cos(*a, evaluate=ev)
        elif h == cas.List:
            r = sp.Tuple(*a)
        else:
            r = sp.Function(st.value[h])(*a)
        new[s] = r
    return new[t]


def text_of(s):
    import sympy as sp

    try:
        return sp.srepr(s)[:300]
    except Exception as e:  # noqa: SymPy cannot print everything it can build
        return f"<{type(s).__name__}: {type(e).__name__}>"


def reevaluated(e):
    if not e.args:
        return e
    return e.func(*[reevaluated(a) for a in e.args])


def _strategy_from():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": _program(ops=OPS + ["list", "list0"]),
            "mode": st.one_of(st.just(0), st.just(4095), st.just(4095), st.integers(0, 4095)),
        }
    )


def run_from(case, rec):
    import sympy as sp

    cas = Cas()
    sc = cas.sc
    st = cas.store
    prog = concrete(case["prog"])
    T = terms(cas, prog)
    t = T[-1]
    lists = [s for s in st.reach(t) if st.kids[s] and st.kids[s][0] == cas.List]
    top = [t]
    if lists:
        # lists may only appear in lists and calls
        bad = any(
            st.kids[s] and st.value[st.kids[s][0]] not in FUNS and st.kids[s][0] != cas.List
            and any(st.contains(k, x) for k in st.kids[s][1:] for x in lists)
            for s in st.reach(t))
        if bad:
            top = [k for k in T
                   if not any(st.kids[x] and st.kids[x][0] == cas.List for x in st.reach(k))]
            if not top:
                return
            t = top[-1]
            t = cas.node(cas.List, *top[-3:])
            rec.label("list at the top")
        else:
            rec.label("lists inside")
    if explosive(cas, t):
        rec.label("skipped: explosive integer powers")
        return
    try:
        s = sympy_build(cas, t, case["mode"])
    except Exception:  # noqa: SymPy cannot build that
        rec.label("refused by SymPy")
        return
    want = sympy_term(cas, s)
    if want is None:
        rec.label("outside the supported language after evaluation")
        return
    e = sc.Expr.from_sympy(s)
    cas.same(e, want, f"from_sympy of {text_of(s)}")
    if st.graph_size(want) >= 4:
        rec.hit()
    if want == t:
        rec.label("SymPy tree as generated")
    try:
        stable = reevaluated(s) == s
    except Exception:  # noqa
        stable = False
    if stable:
        rec.label("stable under evaluation")
        back = e.to_sympy()
        ensure(back == s and sp.srepr(back) == sp.srepr(s),
               "%s comes back as %s", text_of(s), text_of(back))
        again = sc.Expr.from_sympy(back)
        ensure(again is e, "second round trip gives another object")


# -- symbols are kept apart -------------------------------------------------------


def _strategy_symbols():
    from hypothesis import strategies as st

    name = st.one_of(
        st.sampled_from(["x", "y", "_x", "x_", "X", "x1", "x 1", "Dummy", "", "_Dummy_1",
                         "x'", "\u03b1", "alpha", "1", "-1", "f", "sin", "E", "I", "pi", "oo",
                         "gamma", "S"]),
        st.text("xX_ 1", max_size=3))
    kind = st.sampled_from(["", "", "", "", "", "", "positive", "integer", "real", "dummy",
                            "wild"])
    return st.lists(st.tuples(name, kind).map(list), min_size=2, max_size=5)


def run_symbols(case, rec):
    import sympy as sp

    sc = Cas().sc
    syms = []
    for i, (name, kind) in enumerate(case):
        if kind == "dummy":
            s = sp.Dummy(name, dummy_index=1000 + i)
        elif kind == "wild":
            s = sp.Wild(name)
        elif kind:
            s = sp.Symbol(name, **{kind: True})
        else:
            s = sp.Symbol(name)
        syms.append(s)
    # a context with all of them, and each alone
    f = sp.Function("f")
    alone = [sc.Expr.from_sympy(s) for s in syms]
    joint = sc.Expr.from_sympy(f(*syms))
    ensure(joint.args == tuple(alone), "symbols convert to %s inside a call and to %s alone",
           short(joint.args), short(alone))
    plain = [i for i, (_, k) in enumerate(case) if not k]
    for i in plain:
        e = alone[i]
        ensure(e is sc.Symbol(case[i][0]), "Symbol(%s) converts to %s", case[i][0], short(e))
        ensure(e.to_sympy() == syms[i], "Symbol(%s) comes back as %s", case[i][0],
               short(e.to_sympy()))
    later = None
    for i in range(len(syms)):
        for j in range(i):
            if syms[i] != syms[j] and alone[i] is alone[j]:
                msg = (f"distinct SymPy symbols {sp.srepr(syms[i])} and {sp.srepr(syms[j])} "
                       f"both convert to {short(alone[i])}")
                if syms[i].name == syms[j].name and (case[i][1] or case[j][1]):
                    later = msg
                else:
                    fail(msg)
            if syms[i] == syms[j]:
                ensure(alone[i] is alone[j], "the same symbol converts to two objects")
    rec.hit(len(set(syms)) >= 3)
    if later:
        rec.label("same name, different symbol")
        fail(later, finding="same-name-symbols")


# -- matrices ---------------------------------------------------------------------


def _strategy_matrix():
    from hypothesis import strategies as st

    entry = st.one_of(st.integers(0, 9), st.integers(0, 9), st.just(-1))
    size = st.one_of(st.integers(1, 3), st.integers(1, 5))

    def cells(rc):
        return st.tuples(
            st.just(list(rc)),
            st.lists(entry, min_size=rc[0] * rc[1], max_size=rc[0] * rc[1])).map(list)

    return st.fixed_dictionaries(
        {
            "prog": _program(6),
            "cells": st.tuples(size, size).flatmap(cells),
            "kind": st.integers(0, 3), "mode": st.sampled_from([0, 4095, 4095]),
            "empty": st.integers(0, 12),
            "made": st.integers(0, 5),
        }
    )


def run_matrix(case, rec):
    import sympy as sp

    cas = Cas()
    sc = cas.sc
    prog = concrete(case["prog"])
    T = terms(cas, prog)
    if any(explosive(cas, t) for t in T):
        rec.label("skipped: explosive integer powers")
        return
    R = reals(cas, prog)
    (nr, nc), cells = case["cells"]
    rows = [[0 if cells[i * nc + j] < 0 else pick(R, cells[i * nc + j]) for j in range(nc)]
            for i in range(nr)]
    tr = [[cas.int(0) if cells[i * nc + j] < 0 else pick(T, cells[i * nc + j])
           for j in range(nc)] for i in range(nr)]
    M = sc.Matrix(rows)
    made = case.get("made", 0)
    if made in (1, 2, 3):
        # nonzero entries in another order than row by row
        def part(keep):
            return sc.Matrix([[e if keep(i, j) else 0 for j, e in enumerate(row)]
                              for i, row in enumerate(rows)])

        if made == 3:
            M = part(lambda i, j: (i + j) % 3 == 2) + M
        else:
            M = part(lambda i, j: (i + j) % 2 == made - 1) + part(
                lambda i, j: (i + j) % 2 != made - 1)
        rec.label("sum of matrices")
        rows = M.tolist()
    elif made == 4:
        try:
            M = M.diff(sc.Symbol("x"))
        except Exception:  # noqa: judged by C10
            rec.label("no rule to differentiate")
        else:
            rec.label("derivative of a matrix")
            rows = M.tolist()
    m = M.to_sympy()
    ensure(isinstance(m, sp.MatrixBase) and m.shape == (nr, nc), "to_sympy gave %s", short(m))
    for i in range(nr):
        for j in range(nc):
            want = sc.expressify(rows[i][j]).to_sympy()
            ensure(m[i, j] == want, "entry %s,%s of to_sympy is %s instead of %s", i, j,
                   m[i, j], want)
    m[0, 0] = sp.Symbol("fresh_marker")
    ensure(M.to_sympy()[0, 0] != m[0, 0], "to_sympy hands out the same matrix twice")
    ensure(M[0, 0] is sc.expressify(rows[0][0]), "changing a converted matrix changed M")

    # and from SymPy, with entries of SymPy's own making
    try:
        src = [[sympy_build(cas, t, case["mode"]) for t in row] for row in tr]
    except Exception:  # noqa
        rec.label("refused by SymPy")
        return
    kinds = [sp.Matrix, sp.ImmutableMatrix, sp.SparseMatrix, sp.ImmutableSparseMatrix]
    if case["kind"] < 2 or made < 2:
        s = kinds[case["kind"]](nr, nc, [v for row in src for v in row])
    else:
        items = [((i, j), v) for i, row in enumerate(src) for j, v in enumerate(row) if v != 0]
        s = kinds[case["kind"]](nr, nc, dict(items[::-1] if made < 4 else
                                             items[1::2] + items[::2]))
        rec.label("sparse, built in another order")
    want = [[sympy_term(cas, s[i, j]) for j in range(nc)] for i in range(nr)]
    if any(w is None for row in want for w in row):
        rec.label("outside the supported language after evaluation")
        return
    copy = s.copy()
    N = sc.Matrix.from_sympy(s)
    ensure(type(N) is sc.Matrix and N.shape == (nr, nc), "from_sympy gave %s", short(N))
    ensure(s == copy, "from_sympy changed its argument")
    if case["kind"] in (0, 2):
        s[0, 0] = 5
        s[nr - 1, nc - 1] = sp.Symbol("other")
    lst = N.tolist()
    for i in range(nr):
        for j in range(nc):
            cas.same(N[i, j], want[i][j], f"entry {i},{j} of Matrix.from_sympy")
            ensure(lst[i][j] is N[i, j], "tolist differs from indexing")
    stable = all(reevaluated(copy[i, j]) == copy[i, j] for i in range(nr) for j in range(nc))
    if stable:
        back = N.to_sympy()
        ensure(back == copy.as_mutable() and back.shape == copy.shape,
               "matrix %s comes back as %s", short(copy), short(back))
    if case["empty"] < 4:
        shape = [(0, 0), (0, nc), (nr, 0), (0, 1)][case["empty"]]
        z = sc.Matrix.from_sympy(sp.zeros(*shape))
        ensure(z.shape == shape and z.tolist() == [[]] * shape[0],
               "empty matrix %s converts to %s", shape, short(z))
        ensure(z.to_sympy().shape == shape, "empty matrix comes back as %s",
               z.to_sympy().shape)
    zeros = sum(w == cas.int(0) for row in want for w in row)
    rec.hit(nr * nc >= 2 and zeros < nr * nc)
    rec.label("zero matrix" if zeros == nr * nc else "some zeros" if zeros else "dense")


SUBS = [
    Sub(
        "to_sympy", _strategy_to, run_to, quick=4000, thorough=80000,
        rule="random shared expressions with calls; value of both sides compared in "
        "500-bit complex arithmetic at up to 2 points; lists entry by entry; non-trivial "
        "= at least 4 parts and judged",
    ),
    Sub(
        "from_sympy", _strategy_from, run_from, quick=4000, thorough=80000,
        rule="random SymPy expressions, evaluated, unevaluated or mixed per node; exact "
        "structure, and exact round trip when SymPy's evaluation leaves them alone; "
        "non-trivial = at least 4 parts",
    ),
    Sub(
        "symbols", _strategy_symbols, run_symbols, quick=1500, thorough=20000,
        rule="2-5 SymPy symbols with similar names, assumptions, dummies, wilds; "
        "non-trivial = at least 3 different symbols",
    ),
    Sub(
        "matrix", _strategy_matrix, run_matrix, quick=2000, thorough=40000,
        rule="matrices up to 5x5 with zeros, of four SymPy classes, both directions; "
        "non-trivial = at least two entries, not all zero",
    ),
    Sub("to-large", _strategy_to_large, run_to, quick=120, thorough=2500,
        rule="sums, products and calls of 129 to 2500 operands; non-trivial as above"),
    Sub("from-large", _strategy_from_large, run_from, quick=120, thorough=2500,
        rule="sums, products, calls and tuples of 129 to 2500 operands; non-trivial as above"),
    Sub("matrix-large", _strategy_matrix_large, run_matrix, quick=48, thorough=1000,
        rule="matrices of 153 to 1200 entries with zero rows; non-trivial as above"),
    places.sub("sympy_and_back", quick=300, thorough=6000),
]

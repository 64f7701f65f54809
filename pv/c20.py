"""C20: matrices behave as the table of entries they were given."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = ["add", "mul", "sin", "cos", "neg", "sub", "addn", "muln", "ipow", "square", "call1:f"]
SYMS = ["x", "y", "z"]


def _large(cell, i):
    """Matrices of up to 2600 entries, some of their rows and columns zero."""
    from hypothesis import strategies as st

    from . import gen

    shapes = [(16, 17), (17, 16), (1, 300), (300, 1), (33, 40), (65, 3), (3, 65), (40, 65),
              (9, 130), (130, 9), (20, 20), (51, 51)]
    new = st.tuples(
        st.lists(cell, min_size=1, max_size=12), st.integers(0, 9), st.integers(0, 9),
        st.booleans())

    def table(shape, t):
        values, r, c, share = t
        return ["new", [[
            -1 if r and i % (r + 1) == r or c and j % (c + 1) == c
            else values[(i * i + 3 * j + j * j // 4) % len(values)]
            for j in range(shape[1])] for i in range(shape[0])], share]

    def steps(shape):
        step = st.one_of(
            new.map(lambda t: table(shape, t)), st.tuples(st.just("add"), i, i),
            st.tuples(st.just("add"), i, i),
            st.tuples(st.just("diff"), i, st.integers(0, 3)),
            st.tuples(st.just("list"), i, st.integers(0, 3000)),
            st.tuples(st.just("index"), i, st.integers(-3, 70), st.integers(-3, 70)),
            st.tuples(st.just("repr"), i), st.tuples(st.just("sympy"), i),
            st.tuples(st.just("spoil"), i, i, st.integers(0, 300)),
            st.tuples(st.just("use"), i, st.integers(0, 2))).map(list)
        return st.fixed_dictionaries(
            {
                "prog": gen.program(
                    OPS, atoms=gen.atom(ints=gen.small_ints, syms=SYMS), max_cmds=6),
                "start": new.map(lambda t: table(shape, t)),
                "steps": st.lists(step, min_size=1, max_size=4),
            }
        )

    return st.sampled_from(shapes).flatmap(steps)


def _strategy_large():
    return _strategy(True)


def _strategy(large=False):
    from hypothesis import strategies as st

    from . import gen

    i = st.integers(0, 12)
    cell = st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from([-1, -1, -2, -3]))
    size = st.one_of(st.integers(1, 3), st.integers(0, 4))

    def new(rc):
        r, c = rc
        return st.tuples(
            st.just("new"),
            st.lists(st.lists(cell, min_size=c, max_size=c), min_size=max(1, r),
                     max_size=max(1, r)),
            st.booleans(),
        )

    square = st.tuples(
        st.just("new"), st.lists(st.lists(cell, min_size=2, max_size=2), min_size=2,
                                 max_size=2), st.booleans())
    step = st.one_of(
        st.tuples(size, size).flatmap(new),
        square,
        st.tuples(st.just("add"), i, i),
        st.tuples(st.just("add"), i, i),
        st.tuples(st.just("diff"), i, st.integers(0, 3)),
        st.tuples(st.just("list"), i, st.integers(0, 40)),
        st.tuples(st.just("index"), i, st.integers(-3, 6), st.integers(-3, 6)),
        st.tuples(st.just("badindex"), i, st.integers(0, 9)),
        st.tuples(st.just("badnew"), st.integers(0, 11)),
        st.tuples(st.just("badadd"), i, st.integers(0, 5)),
        st.tuples(st.just("repr"), i),
        st.tuples(st.just("sympy"), i),
        st.tuples(st.just("spoil"), i, i, i),
        st.tuples(st.just("use"), i, st.integers(0, 2)),
    ).map(list)
    if large:
        return _large(cell, i)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=SYMS), max_cmds=6),
            "start": square.map(list),
            "steps": st.lists(step, min_size=2, max_size=14),
        }
    )


def run(case, rec):
    cas = Cas()
    sc = cas.sc
    Matrix = sc.Matrix
    T, R = terms(cas, case["prog"]), reals(cas, case["prog"])
    zero = cas.int(0)
    pool = []  # (matrix, table of terms)
    inputs = []  # lists passed in, to be spoiled later

    def check(M, table, what):
        nr, nc = len(table), len(table[0])
        ensure(type(M) is Matrix, "%s: result is %s", what, short(M))
        ensure((M.shape, M.nrows, M.ncols) == ((nr, nc), nr, nc),
               "%s: shape %s/%s/%s instead of %s", what, M.shape, M.nrows, M.ncols, (nr, nc))
        lst = M.tolist()
        ensure(isinstance(lst, list) and len(lst) == nr
               and all(isinstance(r, list) and len(r) == nc for r in lst),
               "%s: tolist gave %s", what, short(lst))
        for i in range(nr):
            for j in range(nc):
                cas.same(M[i, j], table[i][j], f"{what}: entry {i},{j}")
                if lst[i][j] is not M[i, j]:
                    fail(f"{what}: tolist has {short(lst[i][j])} at {i},{j} where indexing "
                         f"gives {short(M[i, j])}")
        return lst

    def check_all(what):
        for n, (M, table) in enumerate(pool):
            check(M, table, f"matrix {n} after {what}")

    def accept(M, table, what):
        check(M, table, what)
        pool.append((M, table))

    def mat(i):
        return pick(pool, i)

    for step in [case["start"]] + case["steps"]:
        kind, *a = step
        if kind == "new":
            cells, share = a
            rows, table = [], []
            for row in cells:
                rows.append([
                    pick(R, c) if c >= 0 else {-1: 0, -2: sc.zero, -3: 7}[c] for c in row])
                table.append([
                    pick(T, c) if c >= 0 else {-1: zero, -2: zero, -3: cas.int(7)}[c]
                    for c in row])
            if share and len(rows) > 1:
                rows[-1] = rows[0]  # the same list twice
                table[-1] = list(table[0])
            before = [list(r) for r in rows]
            M = Matrix(rows)
            ensure(len(rows) == len(before) and all(
                len(p) == len(q) and all(u is v for u, v in zip(p, q))
                for p, q in zip(rows, before)), "the constructor changed its input")
            inputs.append(rows)
            accept(M, table, "new matrix")
            if not cells[0]:
                rec.label("no columns")
            if all(c == zero for r in table for c in r):
                rec.label("zero matrix")
        elif kind == "add":
            (M, tm), (N, tn) = mat(a[0]), mat(a[1])
            if a[0] == a[1] or M.shape == N.shape:
                S = M + N
                table = []
                for i, (rm, rn) in enumerate(zip(tm, tn)):
                    row = []
                    for j, (p, q) in enumerate(zip(rm, rn)):
                        got = cas.read(S[i, j])
                        ok = {cas.node(cas.Add, p, q)}
                        if p == zero:
                            ok.add(q)
                        if q == zero:
                            ok.add(p)
                        if got not in ok:
                            fail(f"entry {i},{j} of a sum is {cas.show(got)}; the entries "
                                 f"are {cas.show(p)} and {cas.show(q)}")
                        row.append(got)
                    table.append(row)
                accept(S, table, "sum")
                rec.label("sum")
            else:
                raises("adding shapes %s and %s" % (M.shape, N.shape), lambda: M + N,
                       TypeError)
        elif kind == "diff":
            M, table = mat(a[0])
            x = sc.Symbol((SYMS + ["w"])[a[1]])
            try:
                want = [[cas.read(cas.expr(t).diff(x)) for t in row] for row in table]
            except Exception:  # noqa: some entry needs a rule that is not there
                got = None
                try:
                    got = M.diff(x)
                except Exception:  # noqa
                    pass
                ensure(got is None, "derivative of a matrix was returned although an entry "
                       "has no derivative")
                rec.label("no rule")
            else:
                accept(M.diff(x), want, "derivative")
                rec.label("derivative")
        elif kind == "list":
            M, table = mat(a[0])
            lst = M.tolist()
            if lst and lst[0]:
                r = a[1] % len(lst)
                q = a[1] % len(lst[0])
                lst[r][q] = sc.Symbol("spoiled")
                for i, row in enumerate(lst):
                    if i != r and row[q] is not M[i, q]:
                        fail(f"assigning to {r},{q} of a listed matrix of shape {M.shape} "
                             f"also changed row {i} of that list to {short(row[q])}")
                lst[r].append(1)
            lst.append("more")
            check(M, table, "matrix after changing the list it gave")
        elif kind == "index":
            M, table = mat(a[0])
            i, j = a[1], a[2]
            if 0 <= i < M.nrows and 0 <= j < M.ncols:
                cas.same(M[i, j], table[i][j], f"entry {i},{j}")
            else:
                raises(f"index {i},{j} of shape {M.shape}", lambda: M[i, j], IndexError,
                       TypeError)
                rec.label("bad index")
        elif kind == "badindex":
            M, table = mat(a[0])
            ix = [0, (0,), (0, 0, 0), "00", (0, "0"), (0.0, 0), slice(0, 1), [0, 0],
                  (None, 0), (sc.zero, sc.zero)][a[1]]
            raises(f"index {ix!r}", lambda: M[ix], TypeError, IndexError)
        elif kind == "badnew":
            e = R[-1]
            arg = [
                lambda: [[e, e], [e]], lambda: [[e], [e, e]], lambda: ((e, e), (e, e)),
                lambda: [(e, e)], lambda: [[e], (e,)], lambda: e, lambda: 3,
                lambda: [e, e], lambda: [["x", e]], lambda: [[e, 1.5]],
                lambda: [[e, None]], lambda: [[[e]]],
            ][a[0]]()
            raises(f"Matrix({short(arg)})", lambda: Matrix(arg), TypeError, IndexError)
            rec.label("bad input")
        elif kind == "badadd":
            M, table = mat(a[0])
            other = [3, R[-1], M.tolist(), None, "x", 1.0][a[1]]
            raises(f"matrix + {short(other)}", lambda: M + other, TypeError)
            raises(f"{short(other)} + matrix", lambda: other + M, TypeError)
            raises("derivative by a non-expression", lambda: M.diff(
                [3, "x", None, M, 1.0, [R[-1]]][a[1]]), TypeError)
        elif kind == "repr":
            M, table = mat(a[0])
            rows = ", ".join(
                "[" + ", ".join(repr(cas.expr(t)) for t in row) + "]" for row in table)
            ensure(repr(M) == str(M) == f"Matrix([{rows}])", "repr is %s", short(repr(M)))
        elif kind == "sympy":
            M, table = mat(a[0])
            try:
                want = [[cas.read(sc.Expr.from_sympy(cas.expr(t).to_sympy()))
                         for t in row] for row in table]
            except NotImplementedError:
                rec.label("SymPy evaluates outside the language")
            else:
                N = Matrix.from_sympy(M.to_sympy())
                if M.ncols:
                    accept(N, want, "SymPy round trip")
                else:
                    ensure(N.shape == M.shape, "SymPy round trip has shape %s", N.shape)
        elif kind == "spoil":
            if inputs:
                rows = pick(inputs, a[0])
                row = rows[a[1] % len(rows)] if rows else None
                if row:
                    row[a[2] % len(row)] = sc.Symbol("spoiled")
                    rec.label("input changed later")
                rows.append([1])
        elif kind == "use":
            # operations that only read
            M, table = mat(a[0])
            syms = [sc.Symbol(s) for s in SYMS]
            if a[1] == 0:
                try:
                    M.to_llvm_ir(syms)
                except Exception:  # noqa: decided elsewhere (C17, C18)
                    pass
            elif a[1] == 1:
                M.elements_graph.count_ops_graph()
            else:
                str(M)
        if kind not in ("index", "repr", "use", "badindex"):
            check_all(kind)
    check_all("everything")
    nz = sum(1 for _, t in pool for r in t for c in r if c != zero)
    rec.hit(len(pool) >= 3 and nz >= 3)
    rec.maximum("max_matrices", len(pool))


def raises(what, call, *excs):
    try:
        r = call()
    except excs:
        return
    except Exception as e:  # noqa
        fail(f"{what} raised {type(e).__name__}: {short(str(e))}")
    fail(f"{what} was accepted: {short(r)}")


SUBS = [
    Sub(
        "matrix", _strategy, run, quick=5000, thorough=100000,
        rule="histories of construction (shared row lists, zeros, no columns), addition, "
        "differentiation, indexing, listing, printing, SymPy round trips, malformed "
        "requests, and later changes to lists passed in or returned, on a pool of "
        "matrices checked against tables after every step; non-trivial = at least 3 "
        "matrices with at least 3 non-zero entries",
    ),
    Sub(
        "large", _strategy_large, run, quick=120, thorough=3000,
        rule="the same with matrices of up to 2601 entries; non-trivial as above",
    ),
    places.sub("matrix", "matrix_diff", "matrix_bad"),
]

"""C17: compiled matrices compute every entry in its place."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .c09 import float_values
from .c16 import _strategy_dropped as _base_dropped
from .c16 import _strategy_retained as _base_retained
from .c16 import arguments, expr_program, named, run_dropped, run_retained, spread, symbol_names
from .ir import array_function
from .model import Cas
from .num import NumEval, agrees, describe, tight


def _strategy():
    from hypothesis import strategies as st

    entry = st.one_of(
        st.tuples(st.just("e"), st.integers(0, 8)),
        st.tuples(st.just("e"), st.integers(0, 8)),
        st.tuples(st.just("n"), st.sampled_from([0, 0, 0, 1, -1, 2, 10**20, 7])),
        st.tuples(st.just("z"), st.integers(0, 2)),
    ).map(list)
    size = st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 6))

    def matrix(rc):
        r, c = rc
        row = st.lists(entry, min_size=c, max_size=c)
        zrow = st.lists(st.just(["n", 0]), min_size=c, max_size=c)
        return st.fixed_dictionaries(
            {
                "rows": st.lists(st.one_of(row, row, row, zrow), min_size=r, max_size=r),
                "extra": st.integers(0, 15),
                "shuffle": st.lists(st.integers(0, 3), min_size=4, max_size=4),
                "made": st.integers(0, 4),
            }
        )

    # large matrices: the entries repeat those of a short list
    shapes = [(12, 11), (1, 40), (40, 1), (9, 17), (17, 9), (2, 33), (100, 2), (11, 11),
              (1, 150), (150, 1), (7, 10), (16, 16), (3, 70), (20, 19), (1, 300), (260, 1),
              (36, 30), (1, 1100), (1030, 1), (33, 65)]
    big = st.tuples(
        st.sampled_from(shapes), st.lists(entry, min_size=1, max_size=9), st.integers(1, 9),
        st.integers(0, 15), st.lists(st.integers(0, 3), min_size=4, max_size=4),
        st.integers(0, 4)
    ).map(lambda t: {
        "rows": [[t[1][(i * t[2] + j) % len(t[1])] for j in range(t[0][1])]
                 for i in range(t[0][0])],
        "extra": t[3], "shuffle": t[4], "made": t[5]})
    # and larger ones of few entries
    sparse = st.tuples(
        st.sampled_from([(260, 260), (1, 70000), (33000, 2), (300, 40), (40, 300), (5000, 1)]),
        st.lists(st.tuples(st.integers(0, 70000), st.integers(0, 70000), entry).map(list),
                 min_size=1, max_size=9),
        st.integers(0, 15), st.lists(st.integers(0, 3), min_size=4, max_size=4),
        st.integers(0, 4)
    ).map(lambda t: {"shape": list(t[0]), "cells": t[1], "extra": t[2], "shuffle": t[3],
                     "made": t[4]})
    small = st.lists(st.tuples(size, size).flatmap(matrix), min_size=1, max_size=2)
    return st.fixed_dictionaries(
        {
            "names": symbol_names(),
            "prog": expr_program(8),
            "mats": st.integers(0, 31).flatmap(
                lambda k: small if k < 27 else st.lists(big if k < 31 else sparse, min_size=1,
                                                        max_size=1)),
            "points": st.lists(
                st.lists(float_values(), min_size=4, max_size=4), min_size=1, max_size=3),
        }
    )


def zero_forms(cas):
    """Expressions whose value is zero without being the literal zero."""
    sc = cas.sc
    z = sc.zero
    return [sc.Mul(0, 1), z + z, sc.sin(z)]


def run(case, rec):
    import numpy as np

    cas = Cas()
    sc = cas.sc
    st = cas.store
    names = case["names"]
    prog = named(case["prog"], names)
    T, R = terms(cas, prog), reals(cas, prog)
    zeros = zero_forms(cas)
    keep = []
    earlier = []
    for m in case["mats"]:
        rows = []
        def value(k, v):
            return pick(R, v) if k == "e" else v if k == "n" else zeros[v]

        if "rows" in m:
            for row in m["rows"]:
                rows.append([value(k, v) for k, v in row])
            nr, nc = len(rows), len(rows[0])
        else:
            nr, nc = m["shape"]
            rows = [[0] * nc for _ in range(nr)]
            for i, j, (k, v) in m["cells"]:
                rows[-1 - i % nr][-1 - j % nc] = value(k, v)
            rec.label("large and sparse")
        M = sc.Matrix(rows)
        zero = cas.int(0)
        want = [[zero if v == 0 else cas.read(sc.expressify(v)) for v in row] for row in rows]
        if m["made"] == 1:
            # the same with the non-zero entries stored in another order
            B = sc.Matrix([[0] * nc for _ in range(nr)])
            C = sc.Matrix([[v if (i + j) % 2 else 0 for j, v in enumerate(r)]
                           for i, r in enumerate(rows)])
            D = sc.Matrix([[0 if (i + j) % 2 else v for j, v in enumerate(r)]
                           for i, r in enumerate(rows)])
            M = B + C + D
        elif m["made"] == 2:
            M = M + M
            want = [[w if w == zero else cas.node(cas.Add, w, w) for w in row]
                    for row in want]
        elif m["made"] == 3:
            x = sc.Symbol(names[0])
            try:
                M = M.diff(x)
            except Exception:  # noqa: no rule for x in an exponent; see C10, C20
                rec.label("no derivative")
            z = sc.zero
            want = [[zero if M[i, j] is z else cas.read(M[i, j]) for j in range(nc)]
                    for i in range(nr)]
        flat = [w for row in want for w in row]
        args = arguments(flat, cas, names, m["extra"], m["shuffle"])
        symargs = [sc.Symbol(a) for a in args]
        given = list(symargs)
        fn = sc.lambdify(symargs, M)
        text = M.to_llvm_ir(symargs)
        ensure(symargs == given, "the list of arguments was changed")
        ensure(isinstance(text, str), "IR is %s", short(text))
        try:
            fn2 = array_function(text, len(args), nr * nc, keep)
        except ValueError as err:
            fail(f"IR of a {nr}x{nc} matrix with arguments {args}: {err}\n{text}")
        outs = []
        for point in case["points"]:
            values = spread(names, point)
            floats = [values[a] for a in args]
            ev = NumEval(cas, {cas.sym(k): v for k, v in values.items()}, True, 8)
            arr = fn(*floats)
            ensure(isinstance(arr, np.ndarray) and arr.dtype == np.float64,
                   "result is %s", type(arr))
            ensure(arr.shape == (nr, nc), "shape is %s, expected %s", arr.shape, (nr, nc))
            if all(v == int(v) and abs(v) < 2**53 for v in floats):
                ensure(fn(*[int(v) for v in floats]).tobytes() == arr.tobytes()
                       or any(v == 0 for v in floats),
                       "ints gave another result than the same floats %s", floats)
            for prev, _, _ in outs:
                ensure(not np.shares_memory(prev, arr), "two calls share one array")
            flat2 = fn2(*floats)
            outs.append((arr, arr.tobytes(), floats))
            for i in range(nr):
                for j in range(nc):
                    w = want[i][j]
                    got, got2 = float(arr[i, j]), flat2[i * nc + j]
                    if w == zero:
                        if not (got == 0.0 and got2 == 0.0):
                            fail(f"entry {i},{j} is zero but computed as {got!r}/{got2!r}")
                        continue
                    ref = ev(w)
                    if ref is None:
                        continue
                    for what, g in (("compiled matrix", got), ("compiled IR", got2)):
                        if not agrees(g, ref):
                            fail(f"{what}: entry {i},{j} = {cas.show(w)} of {nr}x{nc}, "
                                 f"arguments {args} at {floats}: {describe(g, ref)}")
                    if tight(ref) and st.graph_size(w) >= 3:
                        rec.hit(nr * nc >= 2)
        # writing into a returned array must not reach any other
        if len(outs) > 1:
            outs[0][0][:] = -77.0
            outs[0] = (outs[0][0], outs[0][0].tobytes(), outs[0][2])
            again = fn(*outs[1][2])
            ensure(again.tobytes() == outs[1][1], "a later call gave another result")
        earlier.append((fn, outs))
        if nr * nc >= 40:
            rec.label("40 or more entries")
        if len(args) > 4:
            rec.label("more than 4 arguments")
        if nr != nc:
            rec.label("not square")
        if all(w == cas.int(0) for w in flat):
            rec.label("zero matrix")
        elif any(w == cas.int(0) for w in flat):
            rec.label("some zeros")
        if len(set(flat)) < len(flat):
            rec.label("repeated entries")
        rec.label(f"construction {m['made']}")
    for fn, outs in earlier:
        for arr, data, floats in outs:
            ensure(arr.tobytes() == data, "an array returned earlier was changed")
        arr, data, floats = outs[-1]
        ensure(fn(*floats).tobytes() == data,
               "a function compiled earlier gives another result")
        # the function returned earlier keeps giving fresh arrays
        a, b = fn(*floats), fn(*floats)
        a[:] = 5.5
        ensure(b.tobytes() == data, "two calls share one array")


def _strategy_dropped():
    return _base_dropped().map(lambda c: {**c, "matrix": 1 + c["matrix"] % 2})


def _strategy_retained():
    return _base_retained().map(lambda c: {**c, "kinds": [1 + k % 2 for k in c["kinds"]]})


SUBS = [
    Sub(
        "matrix", _strategy, run, quick=3000, thorough=40000,
        rule="1-2 matrices of 1-6 rows and columns over a shared pool of random "
        "expressions, literal zeros, zero rows, repeated entries, built directly, by "
        "addition or by differentiation; any argument order; up to 3 points; IR compiled "
        "separately into a guarded buffer; non-trivial = at least 2 entries and one of "
        "at least 3 parts with error bound below 1e-6",
    ),
    Sub(
        "dropped", _strategy_dropped, run_dropped, quick=1200, thorough=20000,
        rule="2-6 matrices of the same shape and different constants, each compiled, "
        "called and dropped before the next; non-trivial = a later one judged with an "
        "error bound below 1e-6 relative",
    ),
    Sub(
        "retained", _strategy_retained, run_retained, quick=120, thorough=1600, shards=8,
        rule="matrix functions kept and called again after bursts of up to 140 further "
        "compilations; non-trivial = at least 40 compilations and the first result judged",
    ),
    places.sub("compiled_matrix", "matrix_ir", "matrix_ir_order", quick=300, thorough=4000),
]

"""C16: compiled functions compute the expression."""

from __future__ import annotations

import math
import struct

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .c09 import float_values
from .ir import scalar_function
from .model import Cas
from .num import NumEval, agrees, describe, tight

OPS = [
    "add", "mul", "pow", "sin", "cos", "neg", "sub", "div", "addn", "muln", "addn",
    "muln", "ipow", "inc", "scale", "square", "sub", "ipow", "wide:Add", "mid:Mul",
]


def symbol_names():
    """Two to four distinct names, plain ones and awkward ones."""
    from hypothesis import strategies as st

    plain = st.sampled_from(["x", "y", "z", "t", "alpha", "x1", "X"])
    odd = st.sampled_from(
        [".0", ".1", ".2", "_out", "_out.", "_out._out", "", "0", "1", "jit_func1", "a b",
         'q"', "back\\slash", "\\22", "%x", '"', "\u00e9", "\u03b1", "x'", "entry", "double",
         "llvm.sin.f64", "@x", "new\nline", "\t", ";x", "Val", "_out.0", ".", "..", "_",
         "x y", "\\", "\\5C", '%"x"', "\U0001d4d0", "_OUT", "x,", ")", "\x7f", "\x01", "-1",
         "\x00", "a\x00b", "\u200b", "_out.1", "_out.2"])
    rnd = st.text(
        st.characters(blacklist_categories=("Cs",)), max_size=8)
    one = st.one_of(plain, plain, plain, odd, odd, rnd)
    few = st.lists(one, min_size=2, max_size=4, unique=True)
    # more arguments than digits, letters or machine registers
    many = st.tuples(few, st.sampled_from([5, 8, 9, 11, 12, 17, 24, 33])).map(
        lambda t: list(dict.fromkeys(t[0] + [f"v{i}" for i in range(t[1] - len(t[0]))])))
    # long names that differ only at one end
    long = st.tuples(
        st.sampled_from(["a", "x_", "alpha", "\u03b1", "\\", " ", "v1.", "\n"]),
        st.sampled_from([20, 33, 64, 70, 130, 260, 300]),
        st.lists(st.one_of(plain, odd), min_size=2, max_size=4, unique=True), st.booleans()
    ).map(lambda t: [t[0] * t[1] + n if t[3] else n + t[0] * t[1] for n in t[2]])
    return st.one_of(few, few, few, few, few, many, long)


def expr_program(max_cmds=9):
    from hypothesis import strategies as st

    from . import gen

    # symbols are given by position in the list of names
    atom = st.one_of(
        st.tuples(st.just("N"), st.integers(0, 3)),
        st.tuples(st.just("N"), st.integers(0, 3)),
        st.tuples(st.just("I"), st.one_of(gen.small_ints, gen.any_ints)),
    ).map(list)
    return gen.program(OPS, atoms=atom, max_cmds=max_cmds, max_arity=5)


def named(prog, names):
    first = [["S", n] for n in names] if len(names) > 4 else []
    return {
        "atoms": first + [["S", names[v % len(names)]] if k == "N" else [k, v]
                          for k, v in prog["atoms"]],
        "cmds": prog["cmds"],
    }


def spread(names, point):
    """A float for every name from the few of a generated point."""
    return {n: point[i % 4] + 0.25 * (i // 4) if i >= 4 else point[i]
            for i, n in enumerate(names)}


def arguments(T, cas, names, extra, shuffle):
    """Names of the arguments: all needed ones, some others, in an order."""
    st = cas.store
    need = {st.value[s] for t in T for s in st.reach(t) if st.kind[s] == "Symbol"}
    out = [n for i, n in enumerate(names) if n in need or extra >> i & 1]
    for i, k in enumerate(shuffle[:len(out)]):
        j = k % len(out)
        out[i], out[j] = out[j], out[i]
    return out


def bits(v):
    return struct.pack("<d", v)


def _strategy():
    from hypothesis import strategies as st

    fn = st.fixed_dictionaries(
        {"prog": expr_program(), "extra": st.integers(0, 15), "root": st.integers(0, 3),
         "shuffle": st.lists(st.integers(0, 3), min_size=4, max_size=4)}
    )
    return st.fixed_dictionaries(
        {
            "names": symbol_names(),
            "fns": st.lists(fn, min_size=1, max_size=3),
            "points": st.lists(
                st.lists(float_values(), min_size=4, max_size=4), min_size=1, max_size=4),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    atom = st.one_of(
        st.tuples(st.just("N"), st.integers(0, 3)),
        st.tuples(st.just("I"), gen.small_ints)).map(list)
    names = st.one_of(
        symbol_names(),
        st.sampled_from([40, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257]).map(
            lambda n: [f"v{i}" for i in range(n)]))
    fn = st.fixed_dictionaries(
        {"prog": gen.large(["Add", "Add", "Mul"], towers=("sin", "cos"), most=1, after=2,
                           rest=["add", "mul", "sin", "ipow", "sub", "scale"], atoms=atom),
         "extra": st.integers(0, 15), "root": st.just(0),
         "shuffle": st.lists(st.integers(0, 300), min_size=4, max_size=40)})
    return st.fixed_dictionaries(
        {
            "names": names,
            "fns": st.lists(fn, min_size=1, max_size=2),
            "points": st.lists(
                st.lists(st.one_of(float_values(), st.floats(0.5, 1.5)), min_size=4, max_size=4),
                min_size=1, max_size=2),
        }
    )


def run(case, rec):
    cas = Cas()
    sc = cas.sc
    st = cas.store
    names = case["names"]
    earlier = []
    keep = []
    for f in case["fns"]:
        prog = named(f["prog"], names)
        T, R = terms(cas, prog), reals(cas, prog)
        n = max(0, len(T) - 1 - f["root"]) if f["root"] else len(T) - 1
        t, e = T[n], R[n]
        args = arguments([t], cas, names, f["extra"], f["shuffle"])
        symargs = [sc.Symbol(a) for a in args]
        given = list(symargs)
        fn = sc.lambdify(symargs, e)
        text = e.to_llvm_ir(symargs)
        ensure(symargs == given, "the list of arguments was changed")
        ensure(isinstance(text, str), "IR is %s", short(text))
        try:
            fn2 = scalar_function(text, len(args), keep)
        except ValueError as err:
            fail(f"IR of {cas.show(t)} with arguments {args}: {err}\n{text}")
        outputs = []
        points = []
        for point in case["points"]:
            points.append(point)
            if 0 in point:  # and the other zero
                points.append([-v if v == 0 else v for v in point])
        for point in points:
            values = spread(names, point)
            floats = [values[a] for a in args]
            ref = NumEval(cas, {cas.sym(k): v for k, v in values.items()}, True, 8)(t)
            got, got2 = fn(*floats), fn2(*floats)
            outputs.append((floats, bits(got)))
            if all(v == int(v) and abs(v) < 2**53 for v in floats):
                # Python's ints are floats as well
                other = fn(*map(int, floats))
                if any(v == 0 and bits(v) != bits(0.0) for v in floats):
                    pass  # there is one int for both zeros
                else:
                    ensure(bits(other) == bits(got), "the compiled function of %s gave %s at "
                           "%s and %s at the ints", cas.show(t), got, floats, other)
            if type(got) is float and got == -got2 and math.isinf(got):
                fail(f"the compiled function of {cas.show(t)} with arguments {args} at {floats} "
                     f"gave {got}, its IR gives {got2}")
            if ref is None:
                rec.label("point not judged")
                continue
            for what, g in (("compiled function", got), ("separately compiled IR", got2)):
                if type(g) is not float or not agrees(g, ref):
                    fail(f"{what} of {cas.show(t)} with arguments {args} at {floats} gave "
                         f"{describe(g, ref)}")
            if tight(ref) and st.graph_size(t) >= 3:
                rec.hit()
                rec.label(f"{len(args)} arguments judged")
        earlier.append((fn, outputs, t))
        for g, outs, tt in earlier:
            for floats, b in outs:
                now = g(*floats)
                ensure(bits(now) == b, "the function compiled for %s changed to %s at %s "
                       "after a later compilation", cas.show(tt), now, floats)
    if len(earlier) > 1:
        rec.label("several functions")
    if any(not str.isidentifier(n) for n in names):
        rec.label("unusual symbol names")


# -- expressions compiled, dropped, and others compiled in their place -------------


def _strategy_dropped():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"]), max_cmds=5),
            "tweaks": st.lists(st.integers(1, 60), min_size=2, max_size=6, unique=True),
            "matrix": st.integers(0, 2),
            "order": st.integers(0, 1),
            "points": st.lists(
                st.lists(float_values(), min_size=2, max_size=2), min_size=1, max_size=2),
        }
    )


def run_dropped(case, rec):
    from .c24 import tweaked

    sc = Cas().sc
    names = ["x", "y"] if case["order"] else ["y", "x"]
    symargs = [sc.Symbol(n) for n in names]
    for t in case["tweaks"]:
        prog = tweaked(case["prog"], t)
        cas = Cas()
        e = reals(cas, prog)[-1]
        T = terms(cas, prog)
        if case["matrix"]:
            e = sc.Matrix([[e, 0], [t, e]] if case["matrix"] == 1 else [[0, 0, e]])
        fn = sc.lambdify(symargs, e)
        for point in case["points"]:
            values = {cas.sym(k): v for k, v in zip(names, point)}
            ref = NumEval(cas, values, True, 8)(T[-1])
            if ref is None:
                continue
            got = fn(*point)
            if case["matrix"]:
                want_shape = (2, 2) if case["matrix"] == 1 else (1, 3)
                ensure(got.shape == want_shape, "shape is %s", got.shape)
                got = float(got[want_shape[0] - 1, want_shape[1] - 1])
            if not agrees(got, ref):
                fail(f"the function compiled for {cas.show(T[-1])} (after others were "
                     f"compiled and dropped) at {point}: {describe(got, ref)}")
            if tight(ref):
                rec.hit(t != case["tweaks"][0])
        e = fn = got = None


# -- functions kept while many others are compiled ---------------------------------


def _strategy_retained():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"]), max_cmds=5),
            "bursts": st.lists(
                st.one_of(
                    st.integers(0, 3), st.integers(0, 12), st.sampled_from([40, 70, 140])
                ),
                min_size=1, max_size=3,
            ),
            "kinds": st.lists(st.integers(0, 2), min_size=1, max_size=4),
            "keep": st.integers(0, 6),
            "point": st.lists(float_values(), min_size=2, max_size=2),
        }
    )


def run_retained(case, rec):
    import gc

    from .c24 import tweaked

    sc = Cas().sc
    symargs = [sc.Symbol("x"), sc.Symbol("y")]
    point = case["point"]
    kinds = case["kinds"]
    kept = []
    junk = []

    def result(fn, kind):
        out = fn(*point)
        return bits(out) if kind == 0 else out.tobytes()

    def check(after):
        for fn, kind, data, ref, shown in kept:
            for _ in range(2):
                ensure(result(fn, kind) == data, "the function compiled for %s gives "
                       "another result after %s further compilations", shown, after)

    n = 0
    total = 0
    for b in [0, *case["bursts"]]:
        for k in range(b + 1):
            n += 1
            cas = Cas()
            prog = tweaked(case["prog"], n)
            e = reals(cas, prog)[-1]
            T = terms(cas, prog)[-1]
            kind = kinds[n % len(kinds)]
            if kind:
                e = sc.Matrix([[e, 0], [n, e]] if kind == 1 else [[0, 0, e]])
            fn = sc.lambdify(symargs, e)
            total += 1
            if k == b:
                values = {cas.sym(s): v for s, v in zip(["x", "y"], point)}
                ref = NumEval(cas, values, True, 8)(T)
                got = fn(*point)
                if ref is not None:
                    g = got if not kind else float(got.flat[-1])
                    if not agrees(g, ref):
                        fail(f"the function compiled for {cas.show(T)} after {total - 1} "
                             f"others at {point}: {describe(g, ref)}")
                kept.append((fn, kind, result(fn, kind), ref, cas.show(T)))
            elif case["keep"] and k % 7 < case["keep"]:
                junk.append(fn)
            e = fn = None
        gc.collect()
        check(b)
    if kept[0][3] is not None and total >= 40:
        rec.hit()
        rec.label(f"kept through {total // 50 * 50}+ compilations")


SUBS = [
    Sub(
        "lambdify", _strategy, run, quick=5000, thorough=60000, shards=8,
        rule="1-3 random expressions compiled one after another over symbols with plain "
        "and awkward names, arguments in any order with unused ones; up to 4 points each; "
        "the IR text compiled separately without protosym; non-trivial = an expression of "
        "at least 3 parts with an error bound below 1e-6 relative",
    ),
    Sub(
        "large", _strategy_large, run, quick=96, thorough=2000, shards=8,
        rule="sums and products of 129 to 2500 operands, chains and towers of as many, up to "
        "257 arguments; non-trivial as above",
    ),
    Sub(
        "dropped", _strategy_dropped, run_dropped, quick=2400, thorough=40000, shards=8,
        rule="2-6 expressions or matrices of the same shape and different constants, each "
        "compiled, called and dropped before the next; non-trivial = a later one judged "
        "with an error bound below 1e-6 relative",
    ),
    Sub(
        "retained", _strategy_retained, run_retained, quick=160, thorough=2400, shards=8,
        rule="functions of scalars and matrices kept and called again after bursts of up "
        "to 140 further compilations of similar expressions, some kept, most dropped; "
        "non-trivial = at least 40 compilations and the first result judged",
    ),
    places.sub("ir", "ir_order", "compiled", "compiled_order", quick=240, thorough=4000),
]

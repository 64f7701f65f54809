"""C06: substitution is simultaneous, exact and reusable."""

from __future__ import annotations

from . import places
from .base import Sub, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "pow", "sin", "cos", "neg", "sub", "addn", "muln", "call1:f",
    "call2:g", "calln:f", "list", "apply", "apply", "symcall", "square", "call0:h",
    "wide:f", "wide:Mul", "deep:g",
]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(funs=gen.FUNS + ["sin", "Add"], own=True), max_cmds=12
            ),
            "funcs": st.lists(
                st.fixed_dictionaries(
                    {
                        "root": st.integers(0, 3),
                        "targets": st.lists(
                            st.tuples(st.integers(0, 9), st.integers(0, 40)).map(list),
                            max_size=5,
                        ),
                    }
                ),
                min_size=1,
                max_size=3,
            ),
            "calls": st.lists(
                st.tuples(
                    st.integers(0, 2),  # which prepared function
                    st.lists(st.integers(0, 24), min_size=1, max_size=5),
                    st.integers(0, 15),  # interface / wrong count
                ).map(list),
                min_size=1,
                max_size=7,
            ),
        }
    )


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    few = st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3000)).map(list), max_size=5)
    # a progression of hundreds of targets
    many = st.tuples(st.integers(6, 600), st.integers(1, 5), st.integers(0, 40)).map(
        lambda t: [[0, t[2] + t[1] * k] for k in range(t[0])])
    i = st.integers(0, 40)
    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                [*gen.LARGE_HEADS, "="],
                rest=OPS, atoms=gen.atom(funs=gen.FUNS, own=True, ints=gen.small_ints)),
            "funcs": st.lists(
                st.fixed_dictionaries({"root": st.integers(0, 3),
                                       "targets": st.one_of(few, many, many)}),
                min_size=1, max_size=2),
            "calls": st.lists(
                st.tuples(st.integers(0, 2), st.lists(i, min_size=1, max_size=5),
                          st.integers(0, 15)).map(list),
                min_size=1, max_size=3),
        }
    )


def choose_targets(cas, pool, root, spec):
    st = cas.store
    inside = sorted(st.reach(root, heads=True))
    out = []
    have = set()
    for mode, i in spec:
        if mode < 6:
            t = inside[len(inside) - 1 - (i % len(inside))]
        elif mode < 9:
            t = pick(pool, i)
        else:
            t = root
        if t not in have:
            have.add(t)
            out.append(t)
    return out


def run(case, rec):
    from protosym.core.tree import SubsFunc

    cas = Cas()
    pool = terms(cas, case["prog"])
    real = reals(cas, case["prog"])
    prepared = []
    for spec in case["funcs"]:
        root = pick(pool, spec["root"])
        rroot = pick(real, spec["root"])
        targets = choose_targets(cas, pool, root, spec["targets"])
        rtargets = [cas.expr(t) for t in targets]
        params = [
            cas.store.value[t] if cas.is_int(t) and spec["root"] % 2 else e
            for t, e in zip(targets, rtargets)
        ]
        arglist = [e.rep for e in rtargets]
        before = list(arglist)
        sf = SubsFunc(rroot.rep, arglist)
        ensure(
            len(arglist) == len(before) and all(a is b for a, b in zip(arglist, before)),
            "SubsFunc changed the list of arguments",
        )
        ef = rroot.as_function(*params)
        prepared.append((root, rroot, targets, rtargets, params, sf, ef, []))
        inside = cas.store.reach(root, heads=True)
        present = [t for t in targets if t in inside]
        rec.hit(len(present) >= 1 and not cas.store.is_atom(root))
        if len(present) > 64:
            rec.label("more than 64 targets present")
        if len(present) >= 2 and len(present) <= 9:
            rec.label("two or more targets present")
            for a in present:
                for b in present:
                    if a != b and b in cas.store.reach(a, heads=True):
                        rec.label("nested targets")
        if root in targets:
            rec.label("whole expression is a target")
        if len(present) < len(targets):
            rec.label("absent target")
        under = cas.store.reach(root)
        if present and not any(t in under for t in present):
            rec.label("target only in head position")
        if not targets:
            rec.label("no targets")

    for which, idx, mode in case["calls"]:
        root, rroot, targets, rtargets, params, sf, ef, shared = prepared[which % len(prepared)]
        n = len(targets)
        terms_new = [pick(pool, idx[k % len(idx)] + k // len(idx)) for k in range(n)]
        reals_new = [pick(real, idx[k % len(idx)] + k // len(idx)) for k in range(n)]
        if mode >= 14 or (mode == 13 and n):
            # a wrong number of replacements
            extra = reals_new + [real[0]] if mode != 13 else reals_new[:-1]
            rec.label("wrong count")
            for f, args in ((sf, [e.rep for e in extra]), (ef, extra)):
                try:
                    r = f(*args)
                except TypeError:
                    continue
                fail(f"{len(args)} replacements for {n} targets accepted, gave {short(r)}")
            continue
        want = cas.store.subst(root, dict(zip(targets, terms_new)))
        ctx = (
            f"substituting {[cas.show(t, 80) for t in targets[:9]]} by "
            f"{[cas.show(t, 80) for t in terms_new[:9]]} in {cas.show(root, 200)}"
        )
        if 0 < n < 9 and any(
                t in cas.store.reach(r, heads=True) for r in terms_new for t in targets):
            rec.label("replacement contains a target")
        args = [
            cas.store.value[t] if cas.is_int(t) and mode % 2 else e
            for t, e in zip(terms_new, reals_new)
        ]
        got = sf(*[e.rep for e in reals_new])
        cas.bridge.same(got, want, "SubsFunc " + ctx)
        if mode % 3:
            cas.same(ef(*args), want, "as_function " + ctx)
        # and by their methods, for which the caller may use one list again and again
        shared[:] = [e.rep for e in reals_new]
        cas.bridge.same(ef.call(shared), want, "ExprFunction.call " + ctx)
        ensure(len(shared) == n and all(a is e.rep for a, e in zip(shared, reals_new)),
               "ExprFunction.call changed the list of arguments")
        cas.bridge.same(sf.call(tuple(shared)), want, "SubsFunc.call " + ctx)
        if len(set(map(type, params))) <= 1 or mode % 3 == 0:
            reps = dict(zip(params, args))
            snap = list(reps.items())
            cas.same(rroot.xreplace(reps), want, "xreplace " + ctx)
            now = list(reps.items())
            ensure(
                len(now) == len(snap)
                and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(snap, now)),
                "xreplace changed the dictionary of replacements",
            )
    # nothing that was handed in has changed
    cas.bridge.forget()
    for t, e in zip(pool, real):
        if cas.bridge.read(e.rep) != t:
            fail(f"an input expression changed: was {cas.show(t)}")


SUBS = [
    Sub(
        "subst",
        _strategy,
        run,
        quick=9000,
        thorough=400000,
        rule="random shared expressions (any expression may be a head), 1-3 prepared "
        "substitutions with 0-5 targets each, up to 7 calls; non-trivial = a target "
        "occurs inside a compound expression",
    ),
    Sub(
        "large", _strategy_large, run, quick=300, thorough=8000,
        rule="calls of 129 to 2500 operands, chains and towers of as many, up to 600 "
        "targets; non-trivial as above",
    ),
    places.sub("subs", "xreplace", "xreplace_int", "function", "function_order"),
]

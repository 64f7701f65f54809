"""C10: derivatives equal the true derivative, to any order."""

from __future__ import annotations

from . import jets
from . import places
from .base import Sub, ensure, fail, short
from .build import pick
from .model import Cas

OPS = [
    "add", "mul", "sin", "cos", "neg", "sub", "addn", "muln", "muln", "ipow", "ipow",
    "inc", "scale", "square", "div", "powc", "powc", "muln", "wide:Add", "mid:Mul",
]
SYMS = ["x", "y", "z"]


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    coord = st.one_of(st.integers(-2500, 2500), st.integers(-2500, 2500),
                      st.sampled_from([None, None, -317, 683]))
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=SYMS), max_cmds=9,
                max_arity=5,
            ),
            "wrt": st.one_of(st.integers(0, 2), st.integers(0, 2), st.integers(0, 3)),
            "order": st.one_of(st.integers(1, 3), st.integers(0, 4)),
            "root": st.integers(0, 9),
            "points": st.lists(
                st.lists(coord, min_size=3, max_size=3), min_size=1, max_size=2),
            "list": st.integers(0, 5),
        }
    )


def point(k):
    return jets.CTX.mpf(0) if k is None else jets.point(k)


def build_pools(cas, prog, wrt):
    """As build.terms/reals; "powc" picks an exponent free of wrt."""
    from .build import apply_real, apply_term, atom_real, atom_term

    st = cas.store
    T = [atom_term(cas, a) for a in prog["atoms"]]
    R = [atom_real(cas, a) for a in prog["atoms"]]
    for op, idx in prog["cmds"]:
        if op == "powc":
            free = [i for i, t in enumerate(T) if not st.contains(t, wrt)]
            k = free[len(free) - 1 - idx[-1] % len(free)] if free else None
            p, rp = (T[k], R[k]) if free else (cas.int(3), 3)
            T.append(cas.node(cas.Pow, pick(T, idx[0]), p))
            R.append(pick(R, idx[0]) ** rp)
        else:
            T.append(apply_term(cas, op, idx, T))
            R.append(apply_real(cas, op, idx, R))
    return T, R


def run(case, rec):
    cas = Cas()
    st = cas.store
    sc = cas.sc
    x = cas.sym((SYMS + ["w"])[case["wrt"]])
    rx = cas.expr(x)
    prog = dict(case["prog"])
    if case["wrt"] < 3:
        prog["atoms"] = prog["atoms"] + [["S", SYMS[case["wrt"]]]]
    T, R = build_pools(cas, prog, x)
    if case["root"]:
        # mostly an expression that involves the symbol
        n = max((i for i, s in enumerate(T) if st.contains(s, x)), default=len(T) - 1)
        T, R = T[:n + 1], R[:n + 1]
    t, e = T[-1], R[-1]
    n = case["order"]
    table = jets.basic_table(cas)

    # by every interface
    ways = {"diff(sym, n)": e.diff(rx, n), "diff function": sc.diff(e, rx, n)}
    d = e
    for _ in range(n):
        d = d.diff(rx)
    ways["repeated diff"] = d
    other = sc.Symbol(SYMS[(case["wrt"] + 1) % 3])
    for name, way in (("diff function", sc.diff), ("diff", type(e).diff)):
        try:
            way(e, other, n)
        except Exception:  # noqa: no rule, see below
            pass
        ways[name + " after another symbol"] = way(e, rx, n)
    if n == 1:
        ways["diff(sym)"] = e.diff(rx)
        ways["Matrix.diff"] = sc.Matrix([[e, e], [0, e]]).diff(rx)[1, 1]
        lst = sc.List(*R[-3:]).diff(rx)
        lt = cas.read(lst, "derivative of a list")
        ks = st.kids[lt]
        ensure(ks and ks[0] == cas.List and len(ks) == len(R[-3:]) + 1,
               "derivative of a List is %s", cas.show(lt))
        ways["List entry"] = lst.args[-1]
    results = {name: cas.read(v, name) for name, v in ways.items()}

    # expressions without parts
    for a, ra in [*zip(T, R)][:len(prog["atoms"])]:
        want = ra if n == 0 else sc.one if a == x and n == 1 else sc.zero
        for v in (ra.diff(rx, n), sc.diff(ra, rx, n)):
            ensure(v is want, "derivative of order %s of %s by %s is %s", n, cas.show(a),
                   cas.show(x), short(v))
    if n == 0:
        for name, v in ways.items():
            ensure(v is e, "%s: derivative of order 0 of %s is %s", name, cas.show(t), short(v))
    if not st.contains(t, x):
        rec.label("symbol does not occur")
        if n >= 1:
            for name, v in ways.items():
                ensure(v is sc.zero, "%s: derivative of %s by the absent %s is %s",
                       name, cas.show(t), cas.show(x), short(v))
        return

    # sums and products of entire functions: the derivative exists everywhere
    entire = not any(st.kids[s] and st.kids[s][0] == cas.Pow for s in st.reach(t))
    if entire:
        rec.label("entire")
    judged = False
    for coords in case["points"]:
        values = {cas.sym(s): point(k) for s, k in zip(SYMS, coords)}
        j = jets.JetEval(st, table, "Integer", values, x, n)(t)
        if j is None:
            rec.label("point not judged")
            continue
        want = j[n] * jets.CTX.fac(n)
        flat = jets.JetEval(st, table, "Integer", values, None, 0)
        for name, rt in results.items():
            v = flat(rt)
            if v is None:
                if entire and not any(v is not None and abs(v[0]) > 10**6
                                      for v in flat.memo.values()):
                    fail(f"{name}: derivative of order {n} of {cas.show(t)} by "
                         f"{cas.show(x)} is {cas.show(rt)}, not defined at "
                         f"{[jets.CTX.nstr(point(k), 8) for k in coords]}")
                rec.label("point not judged")
                continue
            judged = True
            if not jets.close(v[0], want):
                fail(
                    f"{name}: derivative of order {n} of {cas.show(t)} by {cas.show(x)} is "
                    f"{cas.show(rt)}, value {jets.CTX.nstr(v[0], 15)} instead of "
                    f"{jets.CTX.nstr(want, 15)} at "
                    f"{[jets.CTX.nstr(point(k), 8) for k in coords]}"
                )
        if want != 0:
            rec.label(f"order {n}")
            rec.hit(judged and n >= 1 and st.graph_size(t) >= 3)


# -- high orders, and sums and products of hundreds of parts ------------------------


def _strategy_high():
    from hypothesis import strategies as st

    from . import gen

    coord = st.one_of(st.integers(-1500, 1500), st.integers(100, 1500))
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                ["add", "mul", "sin", "cos", "ipow", "inc", "scale", "square", "div", "muln",
                 "neg", "sin", "cos"],
                atoms=gen.atom(ints=gen.small_ints, syms=SYMS), min_cmds=2, max_cmds=4, max_arity=3,
                max_atoms=3),
            "wrt": st.integers(0, 2),
            "order": st.integers(4, 13),
            "points": st.lists(st.lists(coord, min_size=3, max_size=3), min_size=1, max_size=1),
        }
    )


def run_high(case, rec):
    cas = Cas()
    st = cas.store
    name = SYMS[case["wrt"]]
    x, rx = cas.sym(name), cas.sc.Symbol(name)
    prog = dict(case["prog"])
    prog["atoms"] = prog["atoms"] + [["S", name]]
    T, R = build_pools(cas, prog, x)
    n = max(i for i, s in enumerate(T) if st.contains(s, x))
    t, e = T[n], R[n]
    table = jets.basic_table(cas)
    values = {cas.sym(s): point(k) for s, k in zip(SYMS, case["points"][0])}
    j = jets.JetEval(st, table, "Integer", values, x, case["order"])(t)
    flat = jets.JetEval(st, table, "Integer", values, None, 0)
    d = e
    for k in range(1, case["order"] + 1):
        d = d.diff(rx)
        td = cas.read(d)
        if st.graph_size(td) > 4000:
            break  # the next ones would be larger still
        whole = e.diff(rx, k) if k % 3 == 1 or k >= 8 else d
        ensure(whole is d, "diff(x, %s) differs from repeated diff of %s", k, cas.show(t))
        v = flat(td)
        if v is None or j is None:
            rec.label("point not judged")
            continue
        want = j[k] * jets.CTX.fac(k)
        if not jets.close(v[0], want):
            fail(f"derivative of order {k} of {cas.show(t)} by {name} is {cas.show(td)}, value "
                 f"{jets.CTX.nstr(v[0], 15)} instead of {jets.CTX.nstr(want, 15)}")
        if k >= 5:
            rec.label(f"order {k}")
            rec.hit(want != 0)


def _strategy_large():
    from hypothesis import strategies as st

    from . import gen

    coord = st.one_of(st.integers(-2500, 2500), st.sampled_from([None, -317, 683]))
    return st.sampled_from([1, 1, 1, 2]).flatmap(lambda order: st.fixed_dictionaries(
        {
            "prog": gen.large(
                ["Add", "Add"], rows=("Add",), towers=("sin", "cos"),
                rest=["wide:Mul" if order == 1 else "mul", "sin", "square", "scale", "add",
                      "muln", "ipow"],
                atoms=gen.atom(ints=gen.small_ints, syms=SYMS), names=9),
            "wrt": st.integers(0, 2),
            "order": st.just(order),
            "root": st.just(1),
            "points": st.lists(st.lists(coord, min_size=3, max_size=3), min_size=1, max_size=1),
            "list": st.just(0),
        }
    ))


# -- a needed rule is missing -------------------------------------------------


def _strategy_norule():
    from hypothesis import strategies as st

    ctx = st.lists(
        st.tuples(
            st.sampled_from(["sin", "cos", "addl", "addr", "mull", "mulr", "sq", "muln",
                             "list", "neg"]),
            st.integers(0, 3),
        ).map(list),
        max_size=5,
    )
    return st.fixed_dictionaries(
        {
            "inner": st.lists(st.sampled_from(["sin", "sq", "inc", "cube"]), max_size=3),
            "form": st.integers(0, 5),
            "ctx": ctx,
            "order": st.integers(1, 2),
        }
    )


def run_norule(case, rec):
    cas = Cas()
    sc = cas.sc
    x, y = sc.Symbol("x"), sc.Symbol("y")
    z = x
    for op in case["inner"]:
        z = {"sin": lambda v: sc.sin(v), "sq": lambda v: v**2, "inc": lambda v: v + y,
             "cube": lambda v: v * v * y}[op](z)
    G = sc.Function("norule_g")
    bad = [
        lambda: G(z), lambda: G(y, z), lambda: y**z, lambda: z**z, lambda: G(z, z, y),
        lambda: 2 ** (y * z),
    ][case["form"]]()
    side = [y, sc.Integer(2), sc.sin(x), x]
    e = bad
    for op, k in case["ctx"]:
        s = side[k]
        e = {
            "sin": lambda: sc.sin(e), "cos": lambda: sc.cos(e), "addl": lambda: e + s,
            "addr": lambda: s + e, "mull": lambda: e * s, "mulr": lambda: s * e,
            "sq": lambda: e**2, "muln": lambda: sc.Mul(s, e, s), "neg": lambda: -e,
            "list": lambda: sc.List(s, e),
        }[op]()
        if op == "list":
            break
    rec.hit(bool(case["ctx"]))
    good = sc.sin(x * y) ** 3
    before = good.diff(x)
    try:
        d = e.diff(x, case["order"])
    except Exception:  # noqa
        pass
    else:
        fail(f"derivative of {cas.show(cas.read(e))} returned {short(d)}: a rule for "
             "that is not registered")
    ensure(good.diff(x) is before, "a failed derivative changed a later one")
    # by a symbol it does not depend on in that place, no rule is needed
    w = sc.Symbol("unrelated")
    if not any(op == "list" for op, _ in case["ctx"]):
        ensure(e.diff(w) is sc.zero, "derivative by an absent symbol is not zero")


SUBS = [
    Sub(
        "value",
        _strategy,
        run,
        quick=18000,
        thorough=200000,
        rule="random shared expressions, a symbol, an order 0..4, up to two points; the "
        "Taylor coefficient in 450-bit arithmetic is compared; non-trivial = order at "
        "least 1, non-zero derivative, at least 3 distinct parts",
    ),
    Sub(
        "high", _strategy_high, run_high, quick=4000, thorough=40000,
        rule="all derivatives up to order 4..13 (as long as they have at most 4000 parts) of "
        "small expressions; non-trivial = a non-zero derivative of order at least 5 judged",
    ),
    Sub(
        "large", _strategy_large, run, quick=160, thorough=4000,
        rule="sums of 129 to 2500 terms, products of up to 130 factors, long chains and towers, "
        "order 1 or 2; non-trivial as for value",
    ),
    Sub(
        "norule",
        _strategy_norule,
        run_norule,
        quick=1500,
        thorough=40000,
        rule="an unregistered function of x, or a power with x in the exponent, inside a "
        "generated context; non-trivial = non-empty context",
    ),
    places.sub("diff", "diff_function", "diff_higher"),
]

"""C11: user derivative rules obey the chain rule, per differentiator."""

from __future__ import annotations

from . import jets
from . import places
from .base import Sub, ensure, fail, short
from .build import pick
from .model import Cas

J = jets
HEADS = [("Add", "Mul"), ("plus", "times"), ("Add", "times"), ("Mul", "Add")]
SYMS = ["x", "y", "z"]
WILDS = ["a", "b", "c"]


def _exp(a):
    return J.exp(a)


def _powf(a, b):
    lg = J.log(a)
    return None if lg is None else J.exp(J.mul2(b, lg))


def _hyp(a, b):
    return J.powc(J.add(J.mul2(a, a), J.mul2(b, b)), J.CTX.mpf("0.5"))


def _const7(a):
    return J.const(7, len(a) - 1)


def _sum(*a):
    return J.add(*a)


# name: (arity, definition on jets)
LIB = {
    "sin": (1, lambda a: J.sincos(a)[0]),
    "cos": (1, lambda a: J.sincos(a)[1]),
    "pow": (2, J.power),
    "exp": (1, _exp),
    "tan": (1, J.tan),
    "idf": (1, lambda a: a),
    "hsq": (1, lambda a: J.scale(J.CTX.mpf("0.5"), J.mul2(a, a))),
    "log": (1, J.log),
    "prod2": (2, J.mul2),
    "lin": (2, lambda a, b: J.add(J.scale(2, a), J.scale(3, b))),
    "quot": (2, J.div),
    "hyp": (2, _hyp),
    "seven": (1, _const7),
    "cube": (1, lambda a: J.mul(a, a, a)),
    "sel3": (3, lambda a, b, c: J.add(a, J.mul2(b, c))),
    "powf": (2, _powf),
    "aexp": (2, lambda a, b: None if _exp(b) is None else J.mul2(a, _exp(b))),
    "tot3": (3, _sum),
    "first": (3, lambda a, b, c: a),
    "rot": (2, lambda a, b: J.mul2(J.sincos(a)[0], J.sincos(b)[1])),
}
NAMES = list(LIB)
LINEAR = ["lin", "idf", "tot3", "first"]  # distributing is right for these


class Build:
    """Right sides of rules, built with the heads of a differentiator."""

    def __init__(self, cas, addmul):
        sc = cas.sc
        self.cas = cas
        self.A, self.M = (sc.Function(n) for n in addmul)
        self.F = sc.Function
        self.I = sc.Integer
        self.tA, self.tM = (cas.fn(n) for n in addmul)

    def p(self, a, n):
        return self.F("pow")(a, n if not isinstance(n, int) else self.I(n))

    def right(self, name, n, w):
        """The partial derivative of name(*w) by argument n."""
        A, M, F, I, p = self.A, self.M, self.F, self.I, self.p
        a = w[0]
        b = w[1] if len(w) > 1 else None
        c = w[2] if len(w) > 2 else None
        f = F(name)
        return {
            "sin": lambda: [F("cos")(a)],
            "cos": lambda: [M(-1, F("sin")(a))],
            "pow": lambda: [M(b, p(a, A(b, -1))), M(F("log")(a), p(a, b))],
            "exp": lambda: [f(a)],
            "tan": lambda: [A(1, p(f(a), 2))],
            "idf": lambda: [I(1)],
            "hsq": lambda: [a],
            "log": lambda: [p(a, -1)],
            "prod2": lambda: [b, a],
            "lin": lambda: [I(2), I(3)],
            "quot": lambda: [p(b, -1), M(-1, a, p(b, -2))],
            "hyp": lambda: [M(a, p(f(a, b), -1)), M(p(f(a, b), -1), b)],
            "seven": lambda: [I(0)],
            "cube": lambda: [M(3, a, a)],
            "sel3": lambda: [I(1), c, b],
            "powf": lambda: [M(b, f(a, A(b, -1))), M(F("log")(a), f(a, b))],
            "aexp": lambda: [F("exp")(b), f(a, b)],
            "tot3": lambda: [I(1), I(1), I(1)],
            "first": lambda: [I(1), I(0), I(0)],
            "rot": lambda: [M(F("cos")(a), F("cos")(b)),
                            M(-1, F("sin")(a), F("sin")(b))],
        }[name]()[n]

    def wrong(self, name, w, form):
        """Some other right side for name(*w)."""
        A, M, F, I, p = self.A, self.M, self.F, self.I, self.p
        a, z = w[0], w[-1]
        return [
            lambda: a, lambda: z, lambda: I(0), lambda: I(3), lambda: M(a, z),
            lambda: A(a, 1, z), lambda: F(name)(*w), lambda: F(name)(*w[::-1]),
            lambda: self.cas.sc.Symbol("y"), lambda: p(a, 2), lambda: M(F(name)(*w), z),
        ][form % 11]()


def needed_by_right(name, n):
    """Functions met in the right sides, for higher orders."""
    return {
        "sin": ["cos"], "cos": ["sin"], "pow": ["log", "pow"], "tan": ["pow"],
        "log": ["pow"], "quot": ["pow"], "hyp": ["pow", "hyp"],
        "powf": ["log", "powf"], "aexp": ["exp", "aexp"], "rot": ["sin", "cos"],
    }.get(name, [])


def build(cas, prog, addmul):
    """Pools of terms and expressions."""
    sc = cas.sc
    T, R = [], []
    for k, v in prog["atoms"]:
        if k == "W":
            T.append(cas.store.atom("Wild", v))
            R.append(sc.Expr.new_wild(v))
        elif k == "S":
            T.append(cas.sym(v))
            R.append(sc.Symbol(v))
        else:
            T.append(cas.int(v))
            R.append(sc.Integer(v))
    for op, idx in prog["cmds"]:
        if op in ("add", "mul"):
            name, n = addmul[op == "mul"], len(idx)
        elif op == "ipow":
            T.append(cas.node(cas.Pow, pick(T, idx[0]), cas.int(idx[-1] % 6 - 2)))
            R.append(pick(R, idx[0]) ** (idx[-1] % 6 - 2))
            continue
        else:
            name, n = op, LIB[op][0]
        ix = [idx[i % len(idx)] for i in range(n)]
        T.append(cas.node(cas.fn(name), *[pick(T, i) for i in ix]))
        R.append(sc.Function(name)(*[pick(R, i) for i in ix]))
    return T, R


def table_of(cas, addmul):
    tab = {cas.fn(n): f for n, (_, f) in LIB.items()}
    tab[cas.fn(addmul[0])] = lambda *a: J.add(*a)
    tab[cas.fn(addmul[1])] = lambda *a: J.mul(*a)
    return tab


def values_at(cas, coords):
    vals = {cas.sym(s): J.point(k) for s, k in zip(SYMS, coords)}
    vals.update(
        {cas.store.atom("Wild", s): J.point(k) for s, k in zip(WILDS, coords[3:])})
    return vals


def _prog(max_cmds=8):
    from hypothesis import strategies as st

    from . import gen

    atom = st.one_of(
        st.tuples(st.just("S"), st.sampled_from(SYMS)),
        st.tuples(st.just("S"), st.sampled_from(SYMS)),
        st.tuples(st.just("W"), st.sampled_from(WILDS)),
        st.tuples(st.just("I"), st.integers(-2, 3)),
    ).map(list)
    return gen.program(
        NAMES + ["add", "add", "mul", "mul", "mul", "ipow"], atoms=atom, max_cmds=max_cmds,
        max_arity=3, max_atoms=4)


def _points():
    from hypothesis import strategies as st

    coord = st.one_of(st.integers(100, 2000), st.integers(-2000, 2000))
    return st.lists(st.lists(coord, min_size=6, max_size=6), min_size=1, max_size=2)


# -- all rules registered: true derivatives of any order -----------------------


def _strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": _prog(), "points": _points(),
            "wrt": st.integers(0, 2), "order": st.sampled_from([2, 1, 3, 1, 2]),
            "heads": st.integers(0, 3),
            "names": st.permutations(WILDS),
            "linear": st.integers(0, 15),
        }
    )


def run(case, rec):
    from protosym.core.sym import SymDifferentiator

    cas = Cas()
    sc = cas.sc
    st = cas.store
    addmul = HEADS[case["heads"]]
    bld = Build(cas, addmul)
    diff = SymDifferentiator(sc.Expr, add=bld.A, mul=bld.M, zero=sc.zero, one=sc.one)
    wilds = [sc.Expr.new_wild(n) for n in case["names"]]
    for name, (arity, _) in LIB.items():
        w = wilds[:arity]
        if name in LINEAR and case["linear"] >> LINEAR.index(name) & 1:
            diff.add_distributive_rule(sc.Function(name))
            continue
        for n in range(arity):
            diff[sc.Function(name)(*w), w[n]] = bld.right(name, n, w)
    prog = dict(case["prog"])
    prog["atoms"] = prog["atoms"] + [["S", SYMS[case["wrt"]]]]
    T, R = build(cas, prog, addmul)
    x = cas.sym(SYMS[case["wrt"]])
    n = max(i for i, s in enumerate(T) if st.contains(s, x))
    t, e = T[n], R[n]
    order = case["order"]
    d = diff(e, cas.expr(x), order)
    td = cas.read(d)
    if order > 1:
        d2 = e
        for _ in range(order):
            d2 = diff(d2, cas.expr(x))
        ensure(d2 is d, "diff(e, x, %s) differs from repeated diff", order)
    table = table_of(cas, addmul)
    for coords in case["points"]:
        vals = values_at(cas, coords)
        j = J.JetEval(st, table, "Integer", vals, x, order)(t)
        v = J.JetEval(st, table, "Integer", vals, None, 0)(td)
        if j is None or v is None:
            rec.label("point not judged")
            continue
        want = j[order] * J.CTX.fac(order)
        if not J.close(v[0], want):
            fail(f"derivative of order {order} of {cas.show(t)} by {cas.show(x)} is "
                 f"{cas.show(td)}, value {J.CTX.nstr(v[0], 15)} instead of "
                 f"{J.CTX.nstr(want, 15)}")
        if want != 0 and st.graph_size(t) >= 3:
            rec.hit()
            rec.label(f"order {order}", f"heads {addmul}")
            for s in st.reach(t):
                if st.kids[s] and st.kids[s][0] != cas.Pow:
                    rec.label("with " + st.value[st.kids[s][0]])


# -- histories of registrations on two differentiators -------------------------


def _strategy_tables():
    from hypothesis import strategies as st

    d = st.integers(0, 1)
    fn = st.integers(0, len(NAMES) - 1)
    reg = st.tuples(st.just("reg"), d, fn, st.integers(0, 2), st.integers(-6, 10),
                    st.permutations(WILDS))
    used = st.tuples(st.just("used"), d, st.integers(0, 30), st.integers(0, 2),
                     st.integers(-6, 10), st.permutations(WILDS))
    dist = st.tuples(st.just("dist"), d, st.integers(0, 3))
    bad = st.tuples(st.just("bad"), d, st.integers(0, 30), st.integers(0, 5))
    every = st.tuples(st.just("all"), d)
    do = st.tuples(st.just("diff"), d, st.integers(0, 6), st.sampled_from([0, 0, 0, 1, 2]))
    step = st.one_of(do, do, used, used, reg, dist, bad, every).map(list)
    return st.fixed_dictionaries(
        {
            "prog": _prog(6), "points": _points(),
            "heads": st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list),
            "steps": st.one_of(st.lists(step, min_size=2, max_size=14),
                               st.lists(step, min_size=6, max_size=14)),
            "start": st.integers(0, 5),
        }
    )


def run_tables(case, rec):
    from protosym.core.sym import SymDifferentiator

    cas = Cas()
    sc = cas.sc
    st = cas.store
    prog = dict(case["prog"])
    prog["atoms"] = prog["atoms"] + [["S", "x"]]
    blds, diffs, pools = [], [], []
    rules = [{}, {}]  # (name, argnum) -> (wild terms, term of the right side)
    dists = [set(), set()]
    for h in case["heads"]:
        bld = Build(cas, HEADS[h])
        blds.append(bld)
        diffs.append(
            SymDifferentiator(sc.Expr, add=bld.A, mul=bld.M, zero=sc.zero, one=sc.one))
        pools.append(build(cas, prog, HEADS[h]))
    tables = [table_of(cas, HEADS[h]) for h in case["heads"]]
    used = sorted({st.value[st.kids[s][0]] for T, _ in pools for t in T
                   for s in st.reach(t) if st.kids[s]} & set(LIB)) or ["sin"]

    def register(d, name, n, form, names):
        arity = LIB[name][0]
        n %= arity
        w = [sc.Expr.new_wild(x) for x in names[:arity]]
        rhs = blds[d].right(name, n, w) if form < 0 else blds[d].wrong(name, w, form)
        diffs[d][sc.Function(name)(*w), w[n]] = rhs
        rules[d][name, n] = ([cas.read(v) for v in w], cas.read(rhs))

    def derivative(d, t, x, vals):
        """(value of the derivative or None, needs a missing rule: yes/no/maybe)."""
        flat = J.JetEval(st, tables[d], "Integer", vals, None, 0)
        tA, tM = blds[d].tA, blds[d].tM
        dv = {}
        nz = set()  # subterms whose derivative may be other than the literal zero
        missing = "no"
        zero = J.CTX.mpf(0)
        for s in sorted(st.reach(t)):
            if st.is_atom(s):
                dv[s] = J.CTX.mpf(1) if s == x else zero
                if s == x:
                    nz.add(s)
                continue
            h, *args = st.kids[s]
            name = st.value[h]
            if name not in dists[d] and not any(a in nz for a in args):
                dv[s] = zero
                continue
            nz.add(s)
            vs = [flat(a) for a in args]
            if any(v is None for v in vs) or any(dv[a] is None for a in args):
                dv[s] = None
                # cannot tell whether rules are needed above or here
                missing = "maybe" if missing == "no" else missing
                continue
            if name in dists[d]:
                r = tables[d][h](*[[dv[a]] for a in args])
                dv[s] = r and r[0]
            elif h == tA:
                dv[s] = sum((dv[a] for a in args), zero)
            elif h == tM:
                tot = zero
                for i, a in enumerate(args):
                    m = dv[a]
                    for k, v in enumerate(vs):
                        if k != i:
                            m = m * v[0]
                    tot += m
                dv[s] = tot
            else:
                tot = zero
                for i, a in enumerate(args):
                    if a not in nz:
                        continue
                    if (name, i) not in rules[d]:
                        if dv[a] != 0:
                            return None, "yes"
                        missing = "maybe"
                        continue
                    w, rhs = rules[d][name, i]
                    inner = st.subst(rhs, dict(zip(w, args)))
                    v = flat(inner)
                    if v is None:
                        tot = None
                        break
                    tot += v[0] * dv[a]
                dv[s] = tot
        return dv[t], missing

    def do(d, root, wrt):
        T, R = pools[d]
        x = cas.sym(SYMS[wrt])
        if root < 4:
            ok = [i for i, s in enumerate(T) if st.contains(s, x)]
            i = ok[-1 - root % len(ok)] if ok else len(T) - 1
        else:
            i = len(T) - 1 - (root - 4) % len(T)
        t, e = T[i], R[i]
        results = [derivative(d, t, x, values_at(cas, c)) for c in case["points"]]
        try:
            got = diffs[d](e, cas.expr(x))
        except KeyError as err:
            got = err
        except Exception as err:  # noqa
            got = err
        if isinstance(got, Exception):
            if all(m == "no" for _, m in results):
                raise got
            rec.label("missing rule")
            return
        td = cas.read(got)
        for (want, missing), coords in zip(results, case["points"]):
            if missing == "yes":
                fail(f"derivative of {cas.show(t)} by {cas.show(x)} needs a rule that is "
                     f"not registered but gave {cas.show(td)}")
            v = J.JetEval(st, tables[d], "Integer", values_at(cas, coords), None, 0)(td)
            if want is None or v is None:
                rec.label("point not judged")
                continue
            if missing == "maybe":
                continue
            if not J.close(v[0], want):
                fail(f"with the rules {show_rules(d)} the derivative of {cas.show(t)} by "
                     f"{cas.show(x)} is {cas.show(td)}, value {J.CTX.nstr(v[0], 15)} "
                     f"instead of {J.CTX.nstr(want, 15)}")
            if want != 0 and st.graph_size(t) >= 3:
                rec.hit(len(case["steps"]) >= 3)
                rec.label("derivative judged")
        return

    def show_rules(d):
        return "; ".join(
            f"d{name}/d{n}({', '.join(map(cas.show, w))}) = {cas.show(r)}"
            for (name, n), (w, r) in list(rules[d].items())[:12])

    def malformed(d, i, form):
        name = used[i % len(used)]
        f = sc.Function(name)
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        df = diffs[d]
        keys = [
            lambda: f(a),
            lambda: (f(a), a, a),
            lambda: (f(a, a), a),
            lambda: (f(b), a),
            lambda: (f(a, b, a), a),
            lambda: (f(f(a)), a),
        ]
        try:
            df[keys[form]()] = sc.Integer(5)
        except TypeError:
            rec.label("malformed registration")
        else:
            fail(f"malformed registration number {form} for {name} was accepted")

    def everything(d):
        for name, (arity, _) in LIB.items():
            if name in dists[d]:
                continue
            for n in range(arity):
                register(d, name, n, -1, WILDS)

    for d in (0, 1):
        if case["start"] > d:
            everything(d)
    for step in case["steps"] + [["diff", 0, 0, 0], ["diff", 1, 0, 0]]:
        kind, d, *rest = step
        if kind == "reg":
            register(d, NAMES[rest[0]], *rest[1:])
        elif kind == "used":
            register(d, used[rest[0] % len(used)], *rest[1:])
        elif kind == "dist":
            name = LINEAR[rest[0]]
            diffs[d].add_distributive_rule(sc.Function(name))
            dists[d].add(name)
        elif kind == "bad":
            malformed(d, *rest)
        elif kind == "all":
            everything(d)
        else:
            do(d, *rest)
    # the standard differentiator knows none of this
    e = sc.Function("hsq")(sc.x)
    try:
        r = e.diff(sc.x)
    except Exception:  # noqa
        pass
    else:
        fail(f"a rule of another differentiator reached Expr.diff: {short(r)}")
    ensure(sc.sin(sc.x).diff(sc.x) is sc.cos(sc.x),
           "a rule of another differentiator changed Expr.diff")


# -- distributive heads, exactly ------------------------------------------------


def _strategy_dist():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": _prog(6), "heads": st.integers(0, 3),
            "head": st.sampled_from(["vec", "List", "F", "cube", "plus", "hyp"]),
            "idx": st.one_of(
                st.lists(st.integers(0, 12), max_size=5),
                st.lists(st.integers(0, 12), max_size=5),
                st.tuples(st.integers(0, 12), st.integers(6, 300)).map(
                    lambda t: [(t[0] + k * k) % 13 for k in range(t[1])])),
            "nest": st.integers(0, 2), "wrt": st.integers(0, 2),
        }
    )


def run_dist(case, rec):
    from protosym.core.sym import SymDifferentiator

    cas = Cas()
    sc = cas.sc
    addmul = HEADS[case["heads"]]
    bld = Build(cas, addmul)
    diff = SymDifferentiator(sc.Expr, add=bld.A, mul=bld.M, zero=sc.zero, one=sc.one)
    w = [sc.Expr.new_wild(n) for n in WILDS]
    for name, (arity, _) in LIB.items():
        for n in range(arity):
            diff[sc.Function(name)(*w[:arity]), w[n]] = bld.right(name, n, w)
    head = sc.Function(case["head"])
    prog = dict(case["prog"])
    prog["atoms"] = prog["atoms"] + [["S", "x"]]
    _, R = build(cas, prog, addmul)
    x = sc.Symbol(SYMS[case["wrt"]])
    before = {r: diff(r, x) for r in R}
    diff.add_distributive_rule(head)
    if head in (bld.A, bld.M) or case["head"] in LIB:
        # other expressions may use it: derive the entries again
        before = {r: diff(r, x) for r in R}
    args = [pick(R, i) for i in case["idx"]]
    e, want = head(*args), head(*[before[a] for a in args])
    for _ in range(case["nest"]):
        e, want = head(e, *args[:1]), head(want, *[before[a] for a in args[:1]])
    got = diff(e, x)
    cas.same(got, cas.read(want), f"derivative of {cas.show(cas.read(e))}")
    rec.hit(len(args) >= 2)


# -- functions of many arguments ------------------------------------------------


def _strategy_arity():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": _prog(4), "points": _points(),
            "heads": st.integers(0, 3), "wrt": st.integers(0, 2),
            "arity": st.one_of(st.integers(4, 9), st.integers(10, 40),
                               st.sampled_from([33, 64, 65, 100, 129, 257])),
            "shift": st.integers(0, 300), "coef": st.integers(1, 99),
            "args": st.lists(st.integers(0, 12), min_size=1, max_size=6),
            "order": st.integers(1, 2), "start": st.integers(0, 300),
            "over": st.integers(0, 2), "missing": st.integers(0, 600),
        }
    )


def run_arity(case, rec):
    """F(a0, a1, ...) = the sum of ci*ai*a(i+s)."""
    from protosym.core.sym import SymDifferentiator

    cas = Cas()
    sc = cas.sc
    st = cas.store
    addmul = HEADS[case["heads"]]
    bld = Build(cas, addmul)
    A, M, I = bld.A, bld.M, bld.I
    diff = SymDifferentiator(sc.Expr, add=bld.A, mul=bld.M, zero=sc.zero, one=sc.one)
    for name, (arity, _) in LIB.items():
        w = [sc.Expr.new_wild(k) for k in WILDS[:arity]]
        for n in range(arity):
            diff[sc.Function(name)(*w), w[n]] = bld.right(name, n, w)
    n = case["arity"]
    s = case["shift"] % n
    coef = [(case["coef"] * (i + 1) * (i + 3)) % 7 - 3 for i in range(n)]
    w = [sc.Expr.new_wild(f"w{i}") for i in range(n)]
    F = sc.Function("many")

    def rule(i):
        j = (i - s) % n
        diff[F(*w), w[i]] = A(M(I(coef[i]), w[(i + s) % n]), M(I(coef[j]), w[j]))

    def stale(i):
        diff[F(*w), w[i]] = A(w[i], 11)

    order = [(case["start"] + i * (n + 1 if case["over"] else n - 1)) % n for i in range(n)]
    if case["over"] == 2:
        for i in range(n):
            stale(i)
    for i in order:
        rule(i)

    def jet(*a):
        return J.add(*[J.scale(coef[i], J.mul2(a[i], a[(i + s) % n])) for i in range(n)])

    prog = dict(case["prog"])
    prog["atoms"] = prog["atoms"] + [["S", SYMS[case["wrt"]]]]
    T, R = build(cas, prog, addmul)
    x = cas.sym(SYMS[case["wrt"]])
    ix = [case["args"][k % len(case["args"])] + k // len(case["args"]) for k in range(n)]
    t = cas.node(cas.fn("many"), *[pick(T, i) for i in ix])
    e = F(*[pick(R, i) for i in ix])
    table = table_of(cas, addmul)
    table[cas.fn("many")] = jet
    order = case["order"] if n <= 40 else 1
    td = cas.read(diff(e, cas.expr(x), order))
    for coords in case["points"]:
        vals = values_at(cas, coords)
        j = J.JetEval(st, table, "Integer", vals, x, order)(t)
        v = J.JetEval(st, table, "Integer", vals, None, 0)(td)
        if j is None or v is None:
            rec.label("point not judged")
            continue
        want = j[order] * J.CTX.fac(order)
        if not J.close(v[0], want):
            fail(f"derivative of order {order} of {cas.show(t)}, {n} arguments, coefficients "
                 f"{coef[:50]}, shift {s}: {J.CTX.nstr(v[0], 15)} instead of "
                 f"{J.CTX.nstr(want, 15)}")
        if want != 0:
            rec.hit()
            rec.label("arity " + ("up to 9" if n < 10 else "up to 40" if n <= 40 else "above 40"))
    # every single partial derivative, and a missing one
    G = sc.Function("other")
    u = [sc.Symbol(f"u{i}") for i in range(n)]
    miss = case["missing"] % n
    for i in range(n):
        if i != miss:
            diff[G(*w), w[i]] = M(I(i + 2), w[(i + s) % n])
    g = G(*u)
    tu = [cas.read(v) for v in u]
    vals = {v: J.CTX.mpf(i * i + 3) for i, v in enumerate(tu)}
    for i in {k % n for k in (0, 1, 3, 4, n // 2, n - 2, n - 1, miss, miss + 1, miss - 1)}:
        try:
            got = diff(g, u[i])
        except Exception as err:  # noqa
            if i != miss:
                fail(f"the derivative by argument {i} of {n} raised {type(err).__name__}: "
                     f"{short(str(err))}, only the rule for argument {miss} is missing")
            continue
        if i == miss:
            fail(f"the derivative by argument {i} of {n} has no rule but gave {short(got)}")
        v = J.JetEval(st, table, "Integer", vals, None, 0)(cas.read(got))
        want = (i + 2) * vals[tu[(i + s) % n]]
        if v is None or not J.close(v[0], want):
            fail(f"the derivative by argument {i} of {n} is {short(got)}, by its rule it is "
                 f"{i + 2} times argument {(i + s) % n}")


SUBS = [
    Sub(
        "value", _strategy, run, quick=7000, thorough=150000,
        rule="random expressions over 20 user functions (arity 1-3), any n-ary sums and "
        "products (also with exchanged or own heads), wilds as ordinary atoms; all "
        "rules registered with permuted pattern names; derivative of order 1-3 against "
        "Taylor coefficients of the definitions; non-trivial = non-zero derivative of "
        "an expression of at least 3 parts that was judged",
    ),
    Sub(
        "tables", _strategy_tables, run_tables, quick=4000, thorough=100000,
        rule="histories of right, wrong, distributive and malformed registrations on two "
        "differentiators, with derivatives in between, against the chain rule over the "
        "latest rules; non-trivial = a judged non-zero derivative of at least 3 parts in "
        "a history of at least 3 steps",
    ),
    Sub(
        "arity", _strategy_arity, run_arity, quick=1500, thorough=30000,
        rule="a function of 4 to 257 arguments with a rule for each of them, registered in "
        "some order, some over earlier ones, its derivative of order 1 or 2 and single "
        "partial derivatives, one without rule; non-trivial = a non-zero derivative judged",
    ),
    Sub(
        "distributive", _strategy_dist, run_dist, quick=2000, thorough=40000,
        rule="head registered as distributive over generated arguments, exact structure; "
        "non-trivial = at least two arguments",
    ),
    places.sub("differentiator"),
]

"""C08: rule tables accept only well-formed rules; the latest wins."""

from __future__ import annotations

from .base import Sub, ensure, fail, short
from .model import Cas

FUNS = ["f", "g", "h"]
KINDS = ["Integer", "Symbol", "Function"]


def _strategy():
    from hypothesis import strategies as st

    w = st.integers(0, 2)
    which = st.integers(0, 2)
    fun = st.sampled_from(FUNS)
    rid = st.one_of(st.integers(0, 99), st.sampled_from([5, 10, 10, 20]))
    cmd = st.one_of(
        # well-formed
        st.tuples(st.just("op1"), which, fun, w, rid),
        st.tuples(st.just("op2"), which, fun, w, w, rid),
        st.tuples(st.just("opn"), which, fun, w, rid),
        st.tuples(st.just("addop"), which, fun, st.integers(0, 2), rid),
        st.tuples(st.just("kind"), which, st.sampled_from(KINDS), w, rid),
        st.tuples(st.just("gatom"), which, w, rid),
        st.tuples(st.just("gop"), which, w, w, rid),
        # ill-formed
        st.tuples(st.just("bad"), which, st.integers(0, 27), fun, st.sampled_from(KINDS),
                  w, rid),
        st.tuples(st.just("bad"), which, st.integers(0, 27), fun, st.sampled_from(KINDS),
                  w, rid),
        # use
        st.tuples(st.just("eval"), which, st.integers(0, 11), st.integers(0, 1)),
        st.tuples(st.just("eval"), which, st.integers(0, 11), st.integers(0, 1)),
    ).map(list)
    return st.fixed_dictionaries(
        {"cmds": st.one_of(st.lists(cmd, min_size=2, max_size=12),
                           st.lists(cmd, min_size=12, max_size=40)),
         "names": st.sampled_from([["e0", "e1", "e2"], ["e", "e", "e"], ["", "e", "e"],
                                   ["eval_f64", "eval_repr", "to_sympy"]])}
    )


def run(case, rec):
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.sym import (
        AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star,
    )

    cas = Cas()
    sc = cas.sc
    st = cas.store
    W = [cas.Expr.new_wild(n) for n in ("a", "b", "u")]
    SK = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}
    evs = [cas.Expr.new_evaluator(name, tuple) for name in case["names"]]
    models = [{"kind": {}, "head": {}, "gatom": None, "gop": None} for _ in range(3)]

    # one function in several roles: as a rule of every kind, for any head
    shared = {}

    def common(r):
        if r not in shared:
            def any_rule(*args):
                return ("any", r, *map(shown, args))
            shared[r] = any_rule
        return shared[r]

    def shown(arg):
        if isinstance(arg, (list, tuple)) and not (arg and isinstance(arg[0], str)):
            return ("seq", *arg)
        if isinstance(arg, tuple):
            return arg
        return str(arg)

    def mk1(r):
        return common(r) if r % 5 == 0 else lambda x: ("op1", r, x)

    def mk2(r):
        return common(r) if r % 5 == 0 else lambda x, y: ("op2", r, x, y)

    def mkn(r):
        return common(r) if r % 5 == 0 else lambda xs: ("opn", r, tuple(xs))

    def mkk(r):
        return common(r) if r % 5 == 0 else lambda v: ("kind", r, v)

    def mka(r):
        return common(r) if r % 5 == 0 else lambda tree: ("gatom", r, str(tree))

    def mkg(r):
        return common(r) if r % 5 == 0 else lambda head, xs: ("gop", r, str(head), tuple(xs))

    def result(kind, r, *args):
        """What a rule of this kind and number gives."""
        if r % 5:
            return (kind, r, *args)
        return ("any", r, *[("seq", *a) if n == len(args) - 1 and kind in ("opn", "gop") else
                            a if isinstance(a, tuple) else str(a)
                            for n, a in enumerate(args)])

    x, y, n5 = cas.sym("x"), cas.sym("y"), cas.int(5)
    F = {n: cas.fn(n) for n in FUNS}
    nd = cas.node
    exprs = [
        x, n5, F["f"],
        nd(F["f"], x), nd(F["g"], x, n5), nd(F["h"], x, y, x), nd(F["h"]),
        nd(F["f"], nd(F["f"], n5)), nd(F["g"], nd(F["f"], x), nd(F["f"], x)),
        nd(F["h"], nd(F["g"], x, y), F["g"]), nd(F["g"], nd(F["h"], x)),
        nd(F["f"], nd(F["g"], n5, nd(F["f"], x)), y),
    ]

    class Missing(Exception):
        pass

    class Arity(Exception):
        pass

    def meaning(m, t, values, memo):
        """Recursive meaning; Missing / Arity when it has none."""
        if t in memo:
            return memo[t]
        if st.is_atom(t):
            if t in values:
                v = values[t]
            elif st.kind[t] in m["kind"]:
                v = result("kind", m["kind"][st.kind[t]], st.value[t])
            elif m["gatom"] is not None:
                v = result("gatom", m["gatom"], str(st.value[t]))
            else:
                raise Missing
        else:
            h, *args = st.kids[t]
            rule = m["head"].get(h)
            if rule is None and m["gop"] is None:
                raise Missing
            xs = tuple(meaning(m, c, values, memo) for c in args)
            if rule is None:
                v = result("gop", m["gop"], str(st.value[h]), xs)
            elif rule[0] == "opn":
                v = result("opn", rule[1], xs)
            elif rule[0] == "op1":
                if len(xs) != 1:
                    raise Arity
                v = result("op1", rule[1], *xs)
            else:
                if len(xs) != 2:
                    raise Arity
                v = result("op2", rule[1], *xs)
        memo[t] = v
        return v

    def evaluate(i, t, with_values):
        values = {x: ("supplied",)} if with_values else {}
        try:
            want = meaning(models[i], t, values, {})
        except Missing:
            want = Missing
        except Arity:
            return  # calling a rule with the wrong number of values: unspecified
        rv = {cas.expr(k): v for k, v in values.items()}
        try:
            got = evs[i](cas.expr(t), rv) if with_values else evs[i](cas.expr(t))
        except NoEvaluationRuleError:
            # with rules of the wrong arity around, an arity problem or a missing
            # rule may come first; without them it must be a missing rule
            ensure(want is Missing, "evaluator %s: missing rule reported for %s, "
                   "registered rules give %s", i, cas.show(t), short(want))
            return
        except TypeError:
            if want is Missing:
                return
            raise
        if want is Missing:
            fail(f"evaluator {i}: {cas.show(t)} gave {short(got)}, a rule is missing")
        if got != want:
            fail(f"evaluator {i}: {cas.show(t)} gave {short(got)}, the last rules give "
                 f"{short(want)}")

    n_bad = n_over = 0

    def bad(i, kind, fun, katom, w, r):
        """An ill-formed registration: (pattern, call) pairs."""
        a, b, u = W[w], W[(w + 1) % 3], W[(w + 2) % 3]
        f = sc.Function(fun)
        K = SK[katom]
        forms = [
            lambda: (f(a), f(a)),  # right side is not a symbolic call
            lambda: (f(a), mk1(r)),
            lambda: (f(a), PyOp1(mk1(r))),
            lambda: (K[a], 5),
            lambda: (AtomRule[a], None),
            lambda: (f(a), PyOp1(mk1(r))(b)),  # other name
            lambda: (f(a, b), PyOp2(mk2(r))(b, a)),  # other order
            lambda: (f(a, b), PyOp2(mk2(r))(a, u)),
            lambda: (f(a, b), PyOp1(mk1(r))(a)),  # other number
            lambda: (f(a), PyOp2(mk2(r))(a, b)),
            lambda: (f(), PyOp1(mk1(r))(a)),
            lambda: (f(star(a)), PyOpN(mkn(r))(b)),
            lambda: (f(a), PyOpN(mkn(r))(a)),  # not a star pattern
            lambda: (f(star(a)), PyOp1(mk1(r))(a)),
            lambda: (f(a, star(b)), PyOpN(mkn(r))(b)),
            lambda: (K[a], PyFunc1(mkk(r))(b)),
            lambda: (AtomRule[a], AtomFunc(mka(r))(b)),
            lambda: (HeadRule(a, b), HeadOp(mkg(r))(b, a)),
            lambda: (f(a), PyFunc1(mkk(r))(a)),  # kind of function and pattern differ
            lambda: (f(a), AtomFunc(mka(r))(a)),
            lambda: (f(a, b), HeadOp(mkg(r))(a, b)),
            lambda: (K[a], PyOp1(mk1(r))(a)),
            lambda: (K[a], AtomFunc(mka(r))(a)),
            lambda: (AtomRule[a], PyOp1(mk1(r))(a)),
            lambda: (AtomRule[a], PyFunc1(mkk(r))(a)),
            lambda: (HeadRule(a, b), PyOp2(mk2(r))(a, b)),
            lambda: (K[a], PyOpN(mkn(r))(a)),
            lambda: (AtomRule[a], PyOpN(mkn(r))(a)),
        ]
        pattern, call = forms[kind % len(forms)]()
        try:
            evs[i][pattern] = call
        except BadRuleError:
            return
        fail(f"ill-formed rule accepted (form {kind % len(forms)})")

    for cmd in case["cmds"]:
        op, i = cmd[0], cmd[1]
        m, ev = models[i], evs[i]
        if op == "op1":
            _, _, fun, w, r = cmd
            n_over += F[fun] in m["head"]
            ev[sc.Function(fun)(W[w])] = PyOp1(mk1(r))(W[w])
            m["head"][F[fun]] = ("op1", r)
        elif op == "op2":
            _, _, fun, w, w2, r = cmd
            if w == w2:
                w2 = (w + 1) % 3
            n_over += F[fun] in m["head"]
            ev[sc.Function(fun)(W[w], W[w2])] = PyOp2(mk2(r))(W[w], W[w2])
            m["head"][F[fun]] = ("op2", r)
        elif op == "opn":
            _, _, fun, w, r = cmd
            n_over += F[fun] in m["head"]
            ev[sc.Function(fun)(star(W[w]))] = PyOpN(mkn(r))(W[w])
            m["head"][F[fun]] = ("opn", r)
        elif op == "addop":
            _, _, fun, k, r = cmd
            n_over += F[fun] in m["head"]
            ev.add_op(sc.Function(fun),
                      [PyOp1(mk1(r)), PyOp2(mk2(r)), PyOpN(mkn(r))][k])
            m["head"][F[fun]] = (["op1", "op2", "opn"][k], r)
        elif op == "kind":
            _, _, k, w, r = cmd
            n_over += k in m["kind"]
            ev[SK[k][W[w]]] = PyFunc1(mkk(r))(W[w])
            m["kind"][k] = r
        elif op == "gatom":
            ev[AtomRule[W[cmd[2]]]] = AtomFunc(mka(cmd[3]))(W[cmd[2]])
            m["gatom"] = cmd[3]
        elif op == "gop":
            w, w2 = cmd[2], cmd[3]
            if w == w2:
                w2 = (w + 1) % 3
            ev[HeadRule(W[w], W[w2])] = HeadOp(mkg(cmd[4]))(W[w], W[w2])
            m["gop"] = cmd[4]
        elif op == "bad":
            bad(i, *cmd[2:])
            n_bad += 1
        else:
            evaluate(i, exprs[cmd[2]], cmd[3])
    for i in range(3):
        for t in exprs:
            evaluate(i, t, False)
    for ev, name in zip(evs, case["names"]):
        ensure(repr(ev) == name, "the evaluator named %s shows as %s", name, repr(ev))
    rec.hit(n_bad >= 1 and n_over >= 1)
    if n_bad:
        rec.label("ill-formed rule")
    if n_over:
        rec.label("rule replaced")


# -- tables of hundreds of rules --------------------------------------------------


def _strategy_many():
    from hypothesis import strategies as st

    n = st.one_of(st.integers(1, 40), st.sampled_from([64, 65, 100, 128, 129, 256, 257, 600]))
    reg = st.tuples(st.just("heads"), st.integers(0, 2), st.integers(0, 300), n,
                    st.integers(0, 3), st.integers(0, 99), st.integers(0, 2))
    kinds = st.tuples(st.just("kinds"), st.integers(0, 2), st.integers(0, 60),
                      st.integers(1, 70), st.integers(0, 99), st.integers(0, 1))
    atoms = st.tuples(st.just("supplied"), st.integers(0, 2), st.integers(0, 300), n)
    return st.fixed_dictionaries(
        {
            "kinds": st.integers(1, 80),
            "steps": st.lists(st.one_of(reg, reg, kinds, atoms).map(list), min_size=1,
                              max_size=6),
            "stride": st.sampled_from([1, 7, 11, 101]),
        }
    )


def run_many(case, rec):
    from protosym.core.exceptions import NoEvaluationRuleError
    from protosym.core.sym import PyFunc1, PyOp1, PyOp2, PyOpN, star

    cas = Cas()
    sc = cas.sc
    a, b = cas.Expr.new_wild("a"), cas.Expr.new_wild("b")
    evs = [cas.Expr.new_evaluator(f"e{i}", tuple) for i in range(3)]
    heads = [{}, {}, {}]  # number -> (arity or None, rule)
    kindrules = [{}, {}, {}]
    kinds = [cas.Expr.new_atom(f"K{i // 2}", int) for i in range(case["kinds"])]
    x = sc.Symbol("x")
    for e in evs:
        e[sc.Integer[a]] = PyFunc1(lambda v: ("int", v))(a)

    def head(n):
        return sc.Function(f"head{n * case['stride']}")

    def look(i, n):
        e, rule = evs[i], heads[i].get(n)
        h = head(n)
        for args in ([7], [7, 8]):
            want = None
            if rule is not None and rule[0] in (None, len(args)):
                want = (rule[1], *[("int", v) for v in args])
            elif rule is not None:
                continue  # a rule of another arity: unspecified
            try:
                got = e(h(*args))
            except NoEvaluationRuleError:
                got = None
            if got != want:
                fail(f"evaluator {i} with {len(heads[i])} rules: {h}{tuple(args)} gave "
                     f"{short(got)}, the last rules give {short(want)}")

    most = 0
    for step in case["steps"]:
        op, i, first, n = step[:4]
        e = evs[i]
        if op == "heads":
            style, r, how = step[4:]
            for k in range(first, first + n):
                rule = (r, k)
                st_ = (style + k) % 3 if style == 3 else style
                if st_ == 0:
                    call, pat, ar = PyOp1(lambda p, rule=rule: (rule, p)), (a,), 1
                elif st_ == 1:
                    call, pat, ar = PyOp2(lambda p, q, rule=rule: (rule, p, q)), (a, b), 2
                else:
                    call, pat, ar = PyOpN(lambda ps, rule=rule: (rule, *ps)), (star(a),), None
                if how == 1:
                    e.add_op(head(k), call)
                else:
                    e[head(k)(*pat)] = call(*[a, b][:len(pat)])
                heads[i][k] = (ar, rule)
        elif op == "kinds":
            r = step[4]
            for k in range(first, first + n):
                k %= len(kinds)
                e[kinds[k][a]] = PyFunc1(lambda v, r=(r, k): (r, v))(a)
                kindrules[i][k] = (r, k)
        else:
            # values for hundreds of symbols at once
            syms = [sc.Symbol(f"s{k * case['stride']}") for k in range(first, first + n)]
            e[sc.Function("all")(star(a))] = PyOpN(lambda ps: tuple(ps))(a)
            values = {s: ("value", k) for k, s in enumerate(syms)}
            order = list(range(n))[::-1] if first % 2 else list(range(n))
            got = e(sc.Function("all")(*[syms[k] for k in order]), values)
            if got != tuple(("value", k) for k in order):
                fail(f"{n} supplied values: {short(got)}")
            try:
                got = e(sc.Function("all")(syms[0], x), values)
            except NoEvaluationRuleError:
                pass
            else:
                fail(f"a symbol without value evaluates among {n} others: {short(got)}")
        most = max(most, *map(len, heads), *map(len, kindrules))
    for i in range(3):
        for n in sorted(set().union(*heads)) + [-1]:
            look(i, n)
        for k, K in enumerate(kinds):
            want = kindrules[i].get(k)
            try:
                got = evs[i](K(5))
            except NoEvaluationRuleError:
                got = None
            if got != (want and (want, 5)):
                fail(f"evaluator {i} with rules for {len(kindrules[i])} kinds: kind {k} gave "
                     f"{short(got)}, the last rule gives {short(want)}")
    rec.hit(most >= 20)
    rec.maximum("max_rules", most)


SUBS = [
    Sub(
        "rules",
        _strategy,
        run,
        quick=9000,
        thorough=300000,
        rule="histories of up to 40 registrations (7 well-formed forms, 28 ill-formed "
        "ones) and evaluations on three evaluators; afterwards every evaluator is probed "
        "with 12 expressions; some functions serve as rules of every kind in turn; non-trivial = an ill-formed registration and a replaced "
        "rule occur",
    ),
    Sub(
        "many", _strategy_many, run_many, quick=800, thorough=20000,
        rule="tables of up to 1800 head rules and rules for 80 kinds on three evaluators, "
        "registered in ranges that overlap, every rule probed; values for up to 600 symbols; "
        "non-trivial = at least 20 rules in one table",
    ),
]

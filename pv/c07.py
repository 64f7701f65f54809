"""C07: evaluation equals the recursive meaning of the rules."""

from __future__ import annotations

from collections import Counter

from . import places
from .base import Sub, Violation, ensure, fail, short
from .build import pick, reals, terms
from .model import Cas

OPS = [
    "add", "mul", "sin", "addn", "call1:f", "call2:g", "calln:f", "list0", "calln:h",
    "apply", "symcall", "call0:h", "call1:g", "call2:f", "pow", "wide:f", "deep:g",
]
SPECIALS = [None, 0, False, "", (), 0.0, [], {}, NotImplemented, Ellipsis, frozenset(), b""]


class RuleError(Exception):
    pass


class RuleStop(BaseException):
    pass


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    spec = st.one_of(
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("const"), st.integers(0, len(SPECIALS) - 1)),
        st.tuples(st.just("first"), st.just(0)),
        st.tuples(st.just("raise"), st.integers(0, 13)),
    ).map(list)
    good = st.one_of(
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("const"), st.integers(0, len(SPECIALS) - 1)),
        st.tuples(st.just("first"), st.just(0)),
    ).map(list)
    return st.booleans().flatmap(
        lambda total: st.fixed_dictionaries(
            {
                "prog": gen.program(OPS, atoms=gen.atom(funs=gen.FUNS), max_cmds=14),
                "kinds": st.dictionaries(
                    st.sampled_from(["Integer", "Symbol", "Function"]),
                    good if total else spec, max_size=3),
                "heads": st.lists(
                    st.tuples(st.integers(0, 20), good if total else spec,
                              st.integers(0, 2)).map(list),
                    max_size=5,
                ),
                "gatom": good if total else st.one_of(st.none(), spec),
                "gop": good if total else st.one_of(st.none(), spec),
                "values": st.lists(
                    st.tuples(st.integers(0, 20), st.integers(0, len(SPECIALS) + 3)).map(
                        list),
                    max_size=4,
                ),
                "stray": st.booleans(),
                "spoil": st.integers(0, 4),
            }
        )
    )


def _strategy_large():
    """Large expressions, many rules and many supplied values."""
    from hypothesis import strategies as st

    from . import gen

    good = st.one_of(
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("tok"), st.integers(0, 3)),
        st.tuples(st.just("first"), st.just(0)),
    ).map(list)
    spec = st.one_of(good, good, good, st.tuples(st.just("raise"), st.integers(0, 13)).map(list))
    i = st.integers(0, 3000)
    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                ["f", "g", "Add", "List", "="], rows=("Add",), towers=("f", "pow"), rest=OPS,
                atoms=gen.atom(funs=gen.FUNS + [f"F{k}" for k in range(99)], ints=gen.small_ints),
                after=8),
            "kinds": st.fixed_dictionaries(
                {"Integer": good, "Symbol": good, "Function": good}),
            "heads": st.one_of(
                st.lists(st.tuples(i, spec, st.integers(0, 2)).map(list), max_size=5),
                st.tuples(i, good, st.integers(0, 2), st.integers(20, 300)).map(
                    lambda t: [[t[0] + k, [t[1][0], k % 4], t[2]] for k in range(t[3])])),
            "gatom": good,
            "gop": good,
            "values": st.one_of(
                st.lists(st.tuples(i, st.integers(0, len(SPECIALS) + 3)).map(list), max_size=4),
                st.tuples(i, st.integers(20, 700), st.integers(0, 14)).map(
                    lambda t: [[t[0] + k, (t[2] + k * k) % 15] for k in range(t[1])])),
            "stray": st.booleans(),
            "spoil": st.integers(0, 4),
        }
    )


class Values:
    """Opaque values, told apart by identity."""

    def __init__(self, missing_rule):
        self.table = {}
        self.keep = []
        self.errors = [
            RuleError("r0"), ValueError("r1"), KeyError("r2"), RuleStop("r3"),
            StopIteration("r4"), TypeError("r5"), AttributeError("r6"),
            IndexError("r7"), ZeroDivisionError("r8"), OverflowError("r9"),
            NotImplementedError("r10"), RuntimeError("r11"), AssertionError("r12"),
            missing_rule("r13"),
        ]

    def mk(self, key):
        v = self.table.get(key)
        if v is None:
            v = ("value", len(self.table))
            self.table[key] = v
        return v

    def apply(self, spec, rid, args):
        """What rule rid (of the given spec) returns for args; may raise."""
        self.keep.extend(args)
        k, n = spec
        if k == "tok":
            return self.mk((rid, n) + tuple(id(a) for a in args))
        if k == "const":
            return SPECIALS[n]
        if k == "first":
            return args[0] if args else self.mk((rid, "none"))
        raise self.errors[n % len(self.errors)]


def run(case, rec):
    from protosym.core.evaluate import Evaluator
    from protosym.core.exceptions import NoEvaluationRuleError
    from protosym.core.sym import (
        AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star,
    )

    cas = Cas()
    st = cas.store
    sc = cas.sc
    pool = terms(cas, case["prog"])
    real = reals(cas, case["prog"])
    t, expr = pool[-1], real[-1]
    V = Values(NoEvaluationRuleError)
    reach = sorted(st.reach(t))
    nodes = [s for s in reach if not st.is_atom(s)]
    atoms = [s for s in reach if st.is_atom(s)]
    allsub = sorted(st.reach(t, heads=True))

    # ---- the rules ----------------------------------------------------
    calls = Counter()
    log_on = [True]

    def logged(rid, spec, args, extra=()):
        if log_on[0]:
            calls[(rid,) + tuple(extra) + tuple(id(a) for a in args)] += 1
        return V.apply(spec, rid, args)

    def spoil(xs):
        """What a rule may do with the list of values it is given."""
        how = case.get("spoil", 0)
        if how and type(xs) is list:
            if how == 1:
                xs.reverse()
            elif how == 2:
                xs.clear()
            elif how == 3:
                xs[:] = ["spoilt"] * (len(xs) + 1)
            else:
                xs.append(None)

    def many(rid, spec, xs, extra=()):
        try:
            return logged(rid, spec, tuple(xs), extra)
        finally:
            spoil(xs)

    kinds = {k: (f"kind:{k}", s) for k, s in case["kinds"].items()}
    heads = {}
    everyrule = []
    for i, spec, mode in case["heads"]:
        h = allsub[len(allsub) - 1 - (i % len(allsub))]
        hs = sorted({st.kids[n][0] for n in nodes})
        if hs and mode:
            h = hs[i % len(hs)]
        arities = {len(st.kids[n]) - 1 for n in nodes if st.kids[n][0] == h}
        style = "n"
        if arities == {1} and mode:
            style = "1"
        elif arities == {2} and mode:
            style = "2"
        # the last one wins
        heads.pop(h, None)
        heads[h] = (f"head:{h}", spec, style)
        everyrule.append((h, f"head:{h}", spec, style))
    gatom, gop = case["gatom"], case["gop"]

    ev = Evaluator()
    sev = cas.Expr.new_evaluator("sev", object)
    a, b = cas.Expr.new_wild("a"), cas.Expr.new_wild("b")
    symkinds = {"Integer": sc.Integer, "Symbol": sc.Symbol, "Function": sc.Function}
    for k, (rid, spec) in kinds.items():
        f = lambda v, rid=rid, spec=spec: logged(rid, spec, (v,))  # noqa
        ev.add_atom(cas.bridge.kinds[k], f)
        sev[symkinds[k][a]] = PyFunc1(f)(a)
    for h, rid, spec, style in everyrule:
        he = cas.expr(h)
        if style == "1":
            f1 = lambda x, rid=rid, spec=spec: logged(rid, spec, (x,))  # noqa
            ev.add_op1(he.rep, f1)
            sev[he(a)] = PyOp1(f1)(a)
        elif style == "2":
            f2 = lambda x, y, rid=rid, spec=spec: logged(rid, spec, (x, y))  # noqa
            ev.add_op2(he.rep, f2)
            sev[he(a, b)] = PyOp2(f2)(a, b)
        else:
            fn = lambda xs, rid=rid, spec=spec: many(rid, spec, xs)  # noqa
            ev.add_opn(he.rep, fn)
            sev[he(star(a))] = PyOpN(fn)(a)
    if gatom is not None:
        fa = lambda tree: logged("gatom", gatom, (tree,))  # noqa
        ev.add_atom_generic(fa)
        sev[AtomRule[a]] = AtomFunc(fa)(a)
    if gop is not None:
        fo = lambda head, xs: many("gop", gop, xs, (id(head),))  # noqa
        ev.add_op_generic(fo)
        sev[HeadRule(a, b)] = HeadOp(fo)(a, b)

    # ---- supplied values ----------------------------------------------
    supplied = {}
    anyatoms = [s for s in allsub if st.is_atom(s)]
    for i, v in case["values"]:
        s = anyatoms[i % len(anyatoms)]
        supplied[s] = SPECIALS[v] if v < len(SPECIALS) else V.mk(("supplied", v))
    if case["stray"]:
        supplied[cas.sym("stray")] = V.mk("stray")
    if any(s in atoms and not supplied[s] for s in supplied):
        rec.label("falsy supplied value")
    if any(s in atoms and supplied[s] is None for s in supplied):
        rec.label("supplied None")
    if any(s in supplied and s not in atoms for s in allsub):
        rec.label("value supplied for a head")

    # ---- the meaning --------------------------------------------------
    val = {}
    failures = []  # exceptions that may be raised
    missing = False
    expect = Counter()
    bad = set()
    for s in reach:
        args = ()
        try:
            if st.is_atom(s):
                if s in supplied:
                    val[s] = supplied[s]
                elif st.kind[s] in kinds:
                    rid, spec = kinds[st.kind[s]]
                    val[s] = V.apply(spec, rid, (cas.bridge.build(s).value.value,))
                elif gatom is not None:
                    val[s] = V.apply(gatom, "gatom", (cas.bridge.build(s),))
                else:
                    missing = True
                    bad.add(s)
                continue
            ks = st.kids[s]
            if any(c in bad for c in ks[1:]):
                bad.add(s)
                continue
            args = tuple(val[c] for c in ks[1:])
            ids = tuple(id(x) for x in args)
            if ks[0] in heads:
                rid, spec, style = heads[ks[0]]
                expect[(rid,) + ids] += 1
                val[s] = V.apply(spec, rid, args)
            elif gop is not None:
                expect[("gop", id(cas.bridge.build(ks[0]))) + ids] += 1
                val[s] = V.apply(gop, "gop", args)
            else:
                missing = True
                bad.add(s)
        except (Exception, RuleStop) as e:
            if not any(e is x for x in V.errors):
                raise
            failures.append(e)
            bad.add(s)
    fails = t in bad
    rec.hit(not fails and len(nodes) >= 2 and st.tree_size(t) > len(reach))
    if failures and fails:
        rec.label("a rule raises")
    if missing and fails:
        rec.label("a needed rule is missing")
    if not fails:
        rec.label("evaluates")
        if any(not x for x in val.values()):
            rec.label("falsy intermediate value")

    # ---- the real thing -----------------------------------------------
    def check(what, f, once, values, keyed):
        calls.clear()
        snap = list(values.items()) if values is not None else None
        what = f"{what} of {cas.show(t)}"
        try:
            got = f()
        except (Exception, RuleStop) as e:
            if any(e is x for x in failures):
                ensure(fails, "%s: raised although every rule succeeds", what)
            elif isinstance(e, NoEvaluationRuleError):
                ensure(fails and missing, "%s: reports a missing rule, but none is", what)
            elif fails and failures and not isinstance(e, Violation):
                fail(f"{what}: raised {e!r}, not the exception of a rule")
            else:
                raise
        else:
            if fails:
                fail(f"{what}: returned {short(got)} although it has no value")
            if got is not val[t]:
                fail(f"{what}: returned {short(got)}, the rules give {short(val[t])}")
        nodecalls = {k: n for k, n in calls.items() if k[0] == "gop" or k[0][:4] == "head"}
        if once:
            for k, n in nodecalls.items():
                if n > expect[k]:
                    fail(f"{what}: rule {k[0]} applied {n} times to the same arguments,"
                         f" needed {expect[k]}")
            if not fails and sum(nodecalls.values()) != sum(expect.values()):
                fail(f"{what}: {sum(nodecalls.values())} rule applications, there are "
                     f"{sum(expect.values())} distinct operations")
        else:
            for k in nodecalls:
                if k not in expect:
                    fail(f"{what}: rule {k[0]} applied to unexpected arguments")
        if values is not None:
            now = list(values.items())
            ensure(
                len(now) == len(snap) and all(
                    x[0] is y[0] and x[1] is y[1] for x, y in zip(snap, now)),
                "%s: the dictionary of values was modified", what,
            )

    rv = {cas.bridge.build(s): v for s, v in supplied.items()}
    sv = {cas.expr(s): v for s, v in supplied.items()}
    for _ in range(2):
        check("Evaluator call", lambda: ev(expr.rep, rv), True, rv, None)
        check("evaluate", lambda: ev.evaluate(expr.rep, rv), True, rv, None)
        check("eval_forward", lambda: ev.eval_forward(expr.rep, rv), True, rv, None)
        check("SymEvaluator call", lambda: sev(expr, sv), True, sv, None)
        if st.tree_size(t) <= 600:
            check("eval_recursive", lambda: ev.eval_recursive(expr.rep, rv), False, rv, None)
    if not supplied:
        check("Evaluator call without values", lambda: ev(expr.rep), True, None, None)
        check("SymEvaluator call without values", lambda: sev(expr), True, None, None)
    # another evaluator knows nothing of these rules
    if nodes:
        try:
            Evaluator()(expr.rep, {cas.bridge.build(s): 0 for s in atoms})
        except NoEvaluationRuleError:
            pass
        else:
            fail("a new evaluator evaluates " + cas.show(t))


SUBS = [
    Sub(
        "evaluate",
        _strategy,
        run,
        quick=9000,
        thorough=300000,
        rule="random shared expressions, rules per atom kind/head/fallback that return "
        "opaque tokens, falsy constants or their argument, or raise; supplied values; "
        "non-trivial = evaluates, with two or more operations and repeated "
        "subexpressions",
    ),
    Sub(
        "large", _strategy_large, run, quick=240, thorough=6000,
        rule="calls of 129 to 2500 operands, chains and towers of as many, up to 300 rules "
        "and 700 supplied values; non-trivial as above",
    ),
    places.sub("evaluator", "evaluator_plain"),
]

"""C27: an operation cut short, or with another one in its middle, leaves no trace."""

from __future__ import annotations

import gc
import sys
import threading

from . import c24, cut
from .base import StepBudgetExceeded, Sub, fail, short
from .build import pick, reals
from .c24 import Ctx, OPERATIONS, as_text, freeze, perform
from .model import Cas


class Cut(BaseException):
    """A user's own kind of interruption."""


KINDS = [KeyboardInterrupt, Cut, SystemExit, GeneratorExit]
COMPILED = {"compiled", "compiled_order", "compiled_matrix"}
FOREIGN = COMPILED | {"sympy_and_back"}
NAMES = [n for n, (_, w) in OPERATIONS.items() for _ in range(w) if n not in COMPILED]
NAMES += sorted(COMPILED)
# Python shows a tuple in the middle of showing the same tuple as (...)
NESTED = [n for n in NAMES if n != "tree_text"]


def begin_at(pos, count):
    """The moment meant: a place in the whole, from its start or its end."""
    if pos < 1000:
        return 1 + pos * count // 1000
    if pos < 2000:
        return max(1, count - (pos - 1000))
    return pos - 1999


# -- the reference: the same steps in a fresh process ---------------------------------


def reference(case):
    """[text, number of moments] of each step, alone in this fresh process."""
    from . import steps

    cas = Cas()
    with cut.moments() as m:
        pool = reals(cas, case["prog"])
    out = [["", m.n]]
    for step in case["steps"]:
        steps.begin(3_000_000)
        try:
            with cut.moments() as m:
                res = perform(Ctx(cas, pool), step)
            out.append([as_text(res), m.n])
        except StepBudgetExceeded:
            out.append(["step budget exceeded", 1])
        finally:
            steps.end()
    return out


ZYGOTE = []


def setup():
    from .zygote import Zygote

    import sympy  # noqa: before forking

    cut.install()
    c = Cas().sc
    c.lambdify([c.x], c.Matrix([[c.x]]))(1.0)
    c.x.to_sympy()
    if not ZYGOTE:
        ZYGOTE.append(Zygote(reference))
    sys.unraisablehook = lambda info: None


def setup_plain():
    cut.install()
    sys.unraisablehook = lambda info: UNRAISABLE.append(type(info.exc_value))


UNRAISABLE = []  # failures in finalizers, which Python reports and ignores


def living():
    """Numbers of the living objects of the system (made after the start)."""
    from protosym.core.atom import Atom
    from protosym.core.sym import Sym
    from protosym.core.tree import Tree
    from protosym.simplecas import Matrix

    from collections import Counter

    kinds = (Sym, Tree, Atom, Matrix)
    n = Counter(map(type, gc.get_objects()))
    return {cls.__name__: k for cls, k in n.items() if issubclass(cls, kinds)}


def others_can_work(cas):
    """Another thread can still make things (no lock is held for ever)."""
    from protosym.core.atom import AtomType

    done = []

    def work():
        kind = AtomType("Own", int)
        sc = cas.sc
        t = sc.Expr(c24_tr(kind(7)))
        done.append((sc.Symbol("of another thread") + t) * 3)

    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(30)
    return not th.is_alive() and bool(done)


def c24_tr(atom):
    from protosym.core.tree import Tr

    return Tr(atom)


def same(res, want, step, when, nested=False):
    got = as_text(res)
    if nested and res[0] == "error":
        # (texts of errors may hold a display Python itself cuts off)
        got, want = [t.split(",")[:2] for t in (got, want)]
    if got != want:
        fail(f"{step} {when}: gave {short(got, 600)}, elsewhere {short(want, 600)}")


class Interrupted:
    """One step that is interrupted at a moment."""

    def __init__(self, at, kind, hold):
        self.at = at
        self.error = KINDS[kind % len(KINDS)]("interrupted here")
        self.hold = hold

    def act(self):
        raise self.error

    def call(self, f):
        """f() interrupted: (result, True if it was)."""
        try:
            with cut.moments(self.at, self.act) as m:
                res = f()
        except tuple(KINDS) as e:
            if e is not self.error:
                raise
            if self.hold is not None:
                self.hold.append(e)  # with all the frames below it
            else:
                e.__traceback__ = None
            return None, True
        return res, False


def run(case, rec):
    if case["release"]:
        gc.collect()
        before = living()
    fired = once(case, case["prog"], rec)
    if case["release"]:
        rec.label("everything dropped")
        gc.collect()
        after = living()
        if after != before:
            # something made once and kept on purpose?  then not for other numbers
            once(case, c24.tweaked(case["prog"], 1000), rec)
            gc.collect()
            more = living()
            if more != after:
                fail(f"after everything was dropped: {after} objects, before {before}; "
                     f"after the same with other integers {more}")
    rec.total("interruptions", fired)
    rec.hit(fired > 0)


def once(case, prog, rec):
    case = dict(case, prog=prog)
    want = ZYGOTE[0].ask({"prog": prog, "steps": case["steps"]})
    hold = []
    try:
        return inside(case, rec, want, hold)
    finally:
        hold.clear()


def inside(case, rec, want, hold):
    cas = Cas()
    steps = case["steps"]
    fired = 0
    # building the expressions
    for pos, kind, held in case["building"]:
        stop = Interrupted(begin_at(pos, want[0][1]), kind, hold if held else None)
        _, was = stop.call(lambda: reals(cas, case["prog"]) and None)
        fired += was
    pool = reals(cas, case["prog"])
    c = Ctx(cas, pool)
    for n, pos, kind, held, series, others in case["cuts"]:
        n %= len(steps)
        step = steps[n]
        at = begin_at(pos, want[n + 1][1])
        for k in range(series):
            stop = Interrupted(at + k, kind, hold if held else None)
            res, was = stop.call(lambda: perform(c, step))
            if was:
                fired += 1
                rec.label("cut " + step[0])
                c.check_inputs(step[0] + " (interrupted)")
            else:
                rec.label("not reached")
                same(res, want[n + 1][0], step, f"(interrupted {fired} times before)")
                break
        same(perform(c, step), want[n + 1][0], step, "after it had been interrupted "
             f"at moment {at} of {want[n + 1][1]}")
        for m in others:
            m %= len(steps)
            same(perform(c, steps[m]), want[m + 1][0], steps[m],
                 f"after {step} had been interrupted at moment {at} of {want[n + 1][1]}")
    if hold:
        rec.label("the interruption is kept")
    for n, step in enumerate(steps):
        same(perform(c, step), want[n + 1][0], step, "at the end")
    again = reals(cas, case["prog"])
    for e, f in zip(pool, again):
        if e is not f:
            fail(f"made again after the interruptions: another object for {short(e)}")
    if fired and not others_can_work(cas):
        fail("after an interruption no other thread can make expressions any more")
    cas.bridge.forget()
    return fired


def _prog():
    from . import gen

    return gen.program(
        c24.OPS, atoms=gen.atom(ints=gen.small_ints, syms=c24.SYMS, funs=["f", "g"]),
        max_cmds=9, max_arity=4, max_atoms=5)


def _step(names):
    from hypothesis import strategies as st

    return st.tuples(st.sampled_from(names), st.integers(0, 3), st.integers(0, 12),
                     st.integers(0, 12)).map(list)


def _pos():
    from hypothesis import strategies as st

    return st.one_of(st.integers(0, 999), st.integers(1000, 1020), st.integers(2000, 2020))


def _strategy():
    from hypothesis import strategies as st

    one = st.tuples(st.integers(0, 7), _pos(), st.integers(0, 3), st.booleans(),
                    st.sampled_from([1, 1, 2, 3, 8]),
                    st.lists(st.integers(0, 7), max_size=2)).map(list)
    return st.fixed_dictionaries(
        {
            "prog": _prog(),
            "building": st.lists(
                st.tuples(_pos(), st.integers(0, 3), st.booleans()).map(list), max_size=2),
            "steps": st.lists(_step(NAMES), min_size=1, max_size=6),
            "cuts": st.lists(one, min_size=1, max_size=6),
            "release": st.sampled_from([False, False, True]),
        }
    )


# -- one operation cut at one moment after the other ------------------------------------


def run_sweep(case, rec):
    step = case["step"]
    want = ZYGOTE[0].ask({"prog": case["prog"], "steps": [step]})
    text, count = want[1]
    cas = Cas()
    fired = 0
    stride = 1 + count // 60
    for at in range(1 + case["first"] % stride, count + 1, stride):
        # all new: nothing has been prepared by an earlier use
        c = pool = None
        pool = reals(cas, case["prog"])
        c = Ctx(cas, pool)
        hold = [] if case["hold"] else None
        stop = Interrupted(at, case["kind"], hold)
        res, was = stop.call(lambda: perform(c, step))
        fired += was
        if was:
            c.check_inputs(step[0] + " (interrupted)")
        for when in ("once more", "twice more"):
            same(perform(c, step), text, step, f"{when} after it had been interrupted at "
                 f"moment {at} of {count}")
    if fired:
        rec.label("cut " + step[0])
    rec.total("interruptions", fired)
    rec.hit(fired >= 5)
    cas.bridge.forget()


def _strategy_sweep():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "prog": _prog(),
            "step": _step(NAMES),
            "first": st.integers(0, 50),
            "kind": st.integers(0, 3),
            "hold": st.booleans(),
        }
    )


# -- another operation in the middle -----------------------------------------------------


def run_nested(case, rec):
    steps = case["steps"]
    want = ZYGOTE[0].ask({"prog": case["prog"], "steps": steps})
    cas = Cas()
    pool = reals(cas, case["prog"])
    c = Ctx(cas, pool)
    deep = 0
    for n, within in case["outer"]:
        n %= len(steps)
        moments = sorted({(begin_at(pos, want[n + 1][1]), m % len(steps))
                          for pos, m in within})
        problems = []
        done = []

        def act():
            at, m = moments[len(done)]
            done.append(at)
            keep = c.inputs
            try:
                if case["collect"]:
                    gc.collect()
                res = perform(c, steps[m])
                same(res, want[m + 1][0], steps[m],
                     f"in the middle (moment {at}) of {steps[n]}", True)
            except BaseException as e:  # noqa: reported below
                problems.append(e)
            finally:
                c.inputs = keep
            if len(done) < len(moments):
                nxt = moments[len(done)][0]
                # moments of one step at the same place follow one another
                ctl.again(max(nxt, at + 1), act)

        ctl = cut.moments(moments[0][0], act)
        with ctl:
            res = perform(c, steps[n])
        if problems:
            raise problems[0]
        same(res, want[n + 1][0], steps[n],
             f"with {[steps[m] for _, m in moments][:len(done)]} in its middle "
             f"(moments {done} of {want[n + 1][1]})", True)
        deep += len(done)
        if done:
            rec.label("in the middle of " + steps[n][0])
            if any(m == n for _, m in moments[:len(done)]):
                rec.label("in the middle of itself")
    for n, step in enumerate(steps):
        same(perform(c, step), want[n + 1][0], step, "at the end")
    rec.total("operations in the middle", deep)
    rec.hit(deep > 0)
    cas.bridge.forget()


def _strategy_nested():
    from hypothesis import strategies as st

    outer = st.tuples(
        st.integers(0, 7),
        st.lists(st.tuples(_pos(), st.integers(0, 7)).map(list), min_size=1, max_size=3),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "prog": _prog(),
            "steps": st.lists(_step(NESTED), min_size=1, max_size=5),
            "outer": st.lists(outer, min_size=1, max_size=5),
            "collect": st.sampled_from([False, False, True]),
        }
    )


# -- running out of stack ------------------------------------------------------------------


def run_stack(case, rec):
    steps = case["steps"]
    want = ZYGOTE[0].ask({"prog": case["prog"], "steps": steps})
    cas = Cas()
    pool = reals(cas, case["prog"])
    c = Ctx(cas, pool)
    limit = sys.getrecursionlimit()
    out = 0
    for n, room in case["tries"]:
        n %= len(steps)
        f = sys._getframe()
        depth = 0
        while f is not None:
            depth += 1
            f = f.f_back
        try:
            sys.setrecursionlimit(depth + 3 + room)
            try:
                res = perform_tight(c, steps[n])
            finally:
                sys.setrecursionlimit(limit)
        except RecursionError:
            res = None
        if res is None or res[:2] == ("error", "RecursionError"):
            out += 1
            rec.label("no stack for " + steps[n][0])
        else:
            same(res, want[n + 1][0], steps[n], f"with room for {room} calls")
        same(perform(c, steps[n]), want[n + 1][0], steps[n],
             f"after running out of stack (room for {room} calls)")
    for n, step in enumerate(steps):
        same(perform(c, step), want[n + 1][0], step, "at the end")
    rec.total("out of stack", out)
    rec.hit(out > 0)
    cas.bridge.forget()


def perform_tight(c, step):
    """perform without the parts of the harness that need room themselves."""
    name, i, j, k = step
    e, a, b = pick(c.pool, i), pick(c.pool, j), pick(c.pool, k)
    c.inputs = []
    try:
        res = OPERATIONS[name][0](c, e, a, b, k)
    except RecursionError:
        return None
    except Exception as err:  # noqa
        err.__traceback__ = None
        res = err
    sys.setrecursionlimit(1000)
    res = freeze(c, res)
    c.check_inputs(name)
    return res


def _strategy_stack():
    from hypothesis import strategies as st

    names = [n for n in NAMES if n not in FOREIGN]
    return st.fixed_dictionaries(
        {
            "prog": _prog(),
            "steps": st.lists(_step(names), min_size=1, max_size=6),
            "tries": st.lists(
                st.tuples(st.integers(0, 7), st.one_of(st.integers(1, 12), st.integers(1, 40)))
                .map(list), min_size=1, max_size=8),
        }
    )


# -- definitions that are cut short ---------------------------------------------------------


class Book:
    """An evaluator and a differentiator with what their rules may be now."""

    def __init__(self, cas):
        from protosym.core.sym import SymDifferentiator

        sc = self.sc = cas.sc
        self.ev = sc.Expr.new_evaluator("ev", str)
        self.d = SymDifferentiator(sc.Expr, zero=sc.Integer(0), one=sc.Integer(1),
                                   add=sc.Add, mul=sc.Mul)
        self.w, self.v = sc.Expr.new_wild("w"), sc.Expr.new_wild("v")
        self.fs = [sc.Function(n) for n in ("f", "g", "h")]
        self.may = {}

    def add(self, where, k):
        """Add a rule; the slot it belongs to."""
        from protosym.core.sym import (
            AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star)

        sc, ev, w, v = self.sc, self.ev, self.w, self.v
        f = self.fs[where % 3]
        kind = KINDS_OF_RULE[where // 3 % len(KINDS_OF_RULE)]
        if kind == "op1":
            ev[f(w)] = PyOp1(lambda a: f"{k}.1")(w)
        elif kind == "op2":
            ev[f(w, v)] = PyOp2(lambda a, b: f"{k}.2")(w, v)
        elif kind == "opn":
            ev[f(star(w))] = PyOpN(lambda a: f"{k}.n")(w)
        elif kind == "add_op":
            ev.add_op(f, PyOpN(lambda a: f"{k}.n"))
        elif kind == "generic":
            ev[HeadRule(w, v)] = HeadOp(lambda h, a: f"{k}.h")(w, v)
        elif kind == "atom":
            typ = [sc.Symbol, sc.Integer, sc.Function][where % 3]
            ev[typ[w]] = PyFunc1(lambda a: f"{k}.a")(w)
        elif kind == "atoms":
            ev[AtomRule[w]] = AtomFunc(lambda a: f"{k}.g")(w)
        elif kind == "d0":
            self.d[f(w, v), w] = sc.Integer(k + 2)
        elif kind == "d1":
            self.d[f(v, w), w] = sc.Integer(k + 2)
        else:
            self.d.add_distributive_rule(f)

    @staticmethod
    def slot(where, k):
        kind = KINDS_OF_RULE[where // 3 % len(KINDS_OF_RULE)]
        n = where % 3
        if kind in ("op1", "op2", "opn", "add_op"):
            return ("op", n), f"{k}.{ {'op1': 1, 'op2': 2}.get(kind, 'n') }"
        if kind == "generic":
            return ("generic",), f"{k}.h"
        if kind == "atom":
            return ("atom", n), f"{k}.a"
        if kind == "atoms":
            return ("atoms",), f"{k}.g"
        if kind in ("d0", "d1"):
            return (kind, n), k + 2
        return ("distributive", n), True

    def possible(self, slot):
        return self.may.get(slot, {None})

    def look(self, when, narrow=True):
        """Everything observable is what some possible state of the rules gives."""
        sc = self.sc
        x, y = sc.Symbol("x"), sc.Symbol("y")
        # atoms first: what they give is needed below
        for n, atom in enumerate([x, sc.Integer(5), sc.Function("q")]):
            got = attempt(lambda: self.ev(atom))
            self.settle(("atom", n), ("atoms",), got, f"{atom} {when}", narrow)
        for n, f in enumerate(self.fs):
            for args in ((x,), (x, y)):
                got = attempt(lambda: self.ev(f(*args), {x: "X", y: "Y"}))
                self.settle(("op", n), ("generic",), got, f"{f(*args)} {when}", narrow,
                            len(args))
            for slot, sym in (("d0", x), ("d1", y)):
                got = attempt(lambda: self.d(f(x, y), sym))
                want = {}
                for dist in self.possible(("distributive", n)):
                    for rule in self.possible((slot, n)):
                        if dist:
                            r = f(*[sc.Integer(int(sym is s)) for s in (x, y)])
                        elif rule is None:
                            r = "KeyError"
                        else:
                            r = sc.Integer(rule)
                        want.setdefault(r, []).append((dist, rule))
                if got not in want:
                    fail(f"derivative of {f}(x, y) by {sym} {when}: {short(got)}, by the "
                         f"definitions {short(list(want))}")
                if narrow:
                    self.may["distributive", n] = {d for d, r in want[got]}
                    if len(self.may["distributive", n]) == 1 and not want[got][0][0]:
                        self.may[slot, n] = {r for d, r in want[got]}

    def settle(self, own, fallback, got, what, narrow, nargs=None):
        want = {}
        for a in self.possible(own):
            if a is not None:
                r = a
                if nargs and a[-1] in "12" and int(a[-1]) != nargs:
                    r = "TypeError"
                want.setdefault(r, set()).add((a, None))
                continue
            for b in self.possible(fallback):
                want.setdefault(b or "NoEvaluationRuleError", set()).add((a, b))
        if got not in want:
            fail(f"{what}: {short(got)}, by the definitions {short(list(want))}")
        if narrow and len(want[got]) == 1:
            ((a, b),) = want[got]
            self.may[own] = {a}
            if a is None:
                self.may[fallback] = {b}


def attempt(f):
    try:
        return f()
    except Exception as e:  # noqa
        return type(e).__name__


KINDS_OF_RULE = ["op1", "op2", "opn", "d0", "d1", "distributive", "generic", "atom", "atoms",
                 "add_op"]


def run_rules(case, rec):
    cas = Cas()
    book = Book(cas)
    fired = 0
    for k, (where, at, kind, how) in enumerate(case["rules"]):
        slot, value = Book.slot(where, k)
        old = set(book.possible(slot))
        if how == "whole":
            book.add(where, k)
            book.may[slot] = {value}
        elif how == "cut":
            _, was = Interrupted(at, kind, None).call(lambda: book.add(where, k))
            fired += was
            book.may[slot] = old | {value} if was else {value}
            if was:
                rec.label("cut " + KINDS_OF_RULE[where // 3 % len(KINDS_OF_RULE)])
        else:
            problems = []

            def act():
                book.may[slot] = old | {value}
                try:
                    book.look("in the middle of defining another", False)
                except BaseException as e:  # noqa
                    problems.append(e)

            with cut.moments(at, act) as m:
                book.add(where, k)
            if problems:
                raise problems[0]
            if m.reached:
                fired += 1
                rec.label("look in the middle")
            book.may[slot] = {value}
        book.look(f"after definition {k} ({how})")
    rec.total("definitions cut short or looked at in the middle", fired)
    rec.hit(fired > 0)


def run_definition(case, rec):
    """The last of some definitions, cut at every one of its moments."""
    cas = Cas()
    *before, last = case["rules"]
    k = len(before)
    slot, value = Book.slot(last, k)
    at = 0
    while at < 400:
        at += 1
        book = Book(cas)
        for n, where in enumerate(before):
            book.add(where, n)
            s, v = Book.slot(where, n)
            book.may[s] = {v}
        old = set(book.possible(slot))
        problems = []

        def look():
            book.may[slot] = old | {value}
            try:
                book.look("in the middle of defining another", False)
            except BaseException as e:  # noqa
                problems.append(e)

        if case["look"]:
            with cut.moments(at, look) as m:
                book.add(last, k)
            if problems:
                raise problems[0]
            was = m.reached
        else:
            _, was = Interrupted(at, case["kind"], None).call(lambda: book.add(last, k))
            book.may[slot] = old | {value}
            if was:
                book.look(f"after a definition was interrupted at moment {at}")
        if not was:
            break
        book.add(last, k)
        book.may[slot] = {value}
        book.look(f"defined again after it was interrupted at moment {at}")
    rec.label(("look in " if case["look"] else "cut ")
              + KINDS_OF_RULE[last // 3 % len(KINDS_OF_RULE)])
    rec.total("definitions cut short or looked at in the middle", at - 1)
    rec.hit(at > 2)


def _strategy_definition():
    from hypothesis import strategies as st

    kinds = len(KINDS_OF_RULE)

    @st.composite
    def rules(draw):
        f = draw(st.integers(0, 2))
        out = [3 * draw(st.integers(0, kinds - 1)) + draw(st.sampled_from([f, f, 0, 1, 2]))
               for _ in range(draw(st.integers(0, 3)))]
        out.append(3 * draw(st.integers(0, kinds - 1)) + f)
        return out

    return st.fixed_dictionaries(
        {"rules": rules(), "kind": st.integers(0, 3), "look": st.booleans()})


def _strategy_rules():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "rules": st.lists(
                st.tuples(
                    st.integers(0, 3 * len(KINDS_OF_RULE) - 1),
                    st.one_of(st.integers(1, 30), st.integers(1, 150)),
                    st.integers(0, 3), st.sampled_from(["whole", "cut", "cut", "look"]),
                ).map(list), min_size=2, max_size=10),
        }
    )


# -- values and functions of the user that fail ----------------------------------------------


class Faults:
    """The n-th use of something of the user's fails."""

    left = 0
    error = None
    uses = 0

    @classmethod
    def use(cls):
        cls.uses += 1
        if cls.left:
            cls.left -= 1
            if not cls.left:
                raise cls.error


class Value:
    """A value of the user's own, whose methods may fail."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        Faults.use()
        return self.n % 4

    def __eq__(self, other):
        Faults.use()
        return isinstance(other, Value) and self.n == other.n

    def __repr__(self):
        Faults.use()
        return f"v{self.n}"


def user_ops(cas, V):
    """name -> f(pool, i, j): operations that use values and functions of the user."""
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.sym import PyOp1, PyOpN, star
    from protosym.core.tree import Tr

    sc = cas.sc

    def used(x):
        Faults.use()
        return x

    ev = Evaluator()
    ev.add_atom_generic(lambda t: used(f"a{len(str(t.value))}"))
    ev.add_op_generic(lambda h, args: used(f"<{len(args)}:{','.join(args)}>"[:300]))
    ev.add_opn(sc.Add.rep, lambda args: used("+".join(args)[:300]))
    T = Transformer()
    T.add_op1(sc.sin.rep, lambda a: used(sc.cos.rep)(a))
    T.add_opn(sc.Add.rep, lambda args: used(sc.Mul.rep)(*args))
    sev = sc.Expr.new_evaluator("sev", str)
    w = sc.Expr.new_wild("w")
    sev.evaluator.add_atom_generic(lambda t: used("?"))
    sev.evaluator.add_op_generic(lambda h, args: "?")
    sev[sc.Add(star(w))] = PyOpN(lambda args: used(f"({len(args)})"))(w)
    sev[sc.sin(w)] = PyOp1(lambda a: used("sin" + a)[:300])(w)

    def value(pool, i, j):
        return [sc.Expr(Tr(V(Value(i)))), Tr(V(Value(j))), V(Value(i))]

    return {
        "value": value,
        "sum": lambda pool, i, j: sc.Expr(Tr(V(Value(j)))) + pick(pool, i),
        "text": lambda pool, i, j: [repr(pick(pool, i)), str(pick(pool, j))],
        "tree text": lambda pool, i, j: [repr(pick(pool, i).rep), str(pick(pool, j).rep)],
        "evaluate": lambda pool, i, j: ev(pick(pool, i).rep, {pick(pool, j).rep: "J"}),
        "transform": lambda pool, i, j: T(pick(pool, i).rep),
        "sym evaluate": lambda pool, i, j: sev(pick(pool, i), {pick(pool, j): "J"}),
        "diff": lambda pool, i, j: pick(pool, i).diff(pick(pool, j)),
        "replace": lambda pool, i, j: pick(pool, i).xreplace(
            {pick(pool, j): sc.Expr(Tr(V(Value(i))))}),
        "expand": lambda pool, i, j: pick(pool, i).bin_expand(),
    }


USER_OPS = ["value", "sum", "text", "tree text", "evaluate", "transform", "sym evaluate",
            "diff", "replace", "expand"]
# (KeyError, TypeError, StopIteration and AttributeError may mean something to the interpreter and to the
# weak dictionaries of the standard library)
FAULTS = [ValueError, RuntimeError, Cut, KeyboardInterrupt, MemoryError,
          ZeroDivisionError]


def plain(x):
    """What an operation gave, for comparing by identity."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x if isinstance(x, str) else ("object", id(x))


def gives(f):
    """f, with a failure of its own as a result like any other."""

    def call(*args):
        try:
            return f(*args)
        except Exception as e:  # noqa
            if e is Faults.error:
                raise
            return ["failed", type(e).__name__]

    return call


def run_faults(case, rec):
    from protosym.core.atom import AtomType

    cas = Cas()
    sc = cas.sc
    V = AtomType("Value", Value)
    fired = 0
    Faults.left = 0

    def make():
        from protosym.core.tree import Tr

        vals = [sc.Expr(Tr(V(Value(n)))) for n in range(3)]
        pool = reals(cas, case["prog"])
        return vals + [sc.Add(*vals)] + pool + [pool[-1] * vals[1] + vals[0], sc.sin(vals[2])]

    pool = make()
    ops = user_ops(cas, V)
    held = []
    for op, i, j, nth, kind in case["steps"]:
        f = gives(ops[op])
        want = None
        if nth % 2:  # otherwise the first time is the one that fails
            want = f(pool, i, j)
        error = FAULTS[kind % len(FAULTS)]("fails here")
        UNRAISABLE.clear()
        Faults.error, Faults.left = error, nth // 2 + 1
        try:
            got = f(pool, i, j)
        except BaseException as e:  # noqa
            if e is not error:
                raise
            fired += 1
            rec.label("failed in " + op)
            e.__traceback__ = None
        else:
            if UNRAISABLE:
                rec.label("failed in a finalizer")
            elif not Faults.left:
                fail(f"{op}: {error!r} in something of the user's was swallowed")
            if want is not None and plain(got) != plain(want):
                fail(f"{op}: {short(got)} the second time, {short(want)} the first time")
            want = got
        Faults.left = 0
        again = f(pool, i, j)
        if want is not None and plain(again) != plain(want):
            fail(f"{op} after it had failed: {short(again)}, before {short(want)}")
        held.append(again)
        if plain(f(pool, i, j)) != plain(again):
            fail(f"{op} after it had failed: twice different")
    for e, f in zip(pool, make()):
        if e is not f:
            fail(f"made again after the failures: another object for {short(e)}")
    if fired and not others_can_work(cas):
        fail("after a failure no other thread can make expressions any more")
    # everything again, against fresh values of equal content
    V2 = AtomType("Value", Value)
    if V2(Value(1)) is V(Value(1)):
        fail("another kind of atom gave the same atom")
    rec.total("failures", fired)
    rec.hit(fired > 0)
    cas.bridge.forget()


def _strategy_faults():
    from hypothesis import strategies as st

    step = st.tuples(
        st.sampled_from(USER_OPS), st.integers(0, 8), st.integers(0, 8), st.integers(0, 40),
        st.integers(0, len(FAULTS) - 1)).map(list)
    return st.fixed_dictionaries(
        {"prog": _prog(), "steps": st.lists(step, min_size=1, max_size=8)})


SUBS = [
    Sub(
        "cut",
        _strategy,
        run,
        quick=2500,
        thorough=80000,
        setup=setup,
        rule="1-6 operations on a shared pool, 1-6 times one of them is interrupted by an "
        "exception at a chosen moment (sometimes at 2-8 moments in a row), the making of "
        "the pool too; the interrupted operation and others are done again and must give "
        "what they give in a fresh process; non-trivial = at least one interruption "
        "happened inside protosym",
    ),
    Sub(
        "sweep",
        _strategy_sweep,
        run_sweep,
        quick=2000,
        thorough=50000,
        setup=setup,
        rule="one operation, interrupted at up to 60 moments spread over all of it, each time "
        "on new objects, and done twice more; non-trivial = at least five interruptions",
    ),
    Sub(
        "middle",
        _strategy_nested,
        run_nested,
        quick=2500,
        thorough=80000,
        setup=setup,
        rule="1-5 operations on a shared pool, run with 1-3 others (or the same) in their "
        "middle at chosen moments; all must give what they give in a fresh process; "
        "non-trivial = at least one ran in the middle of another",
    ),
    Sub(
        "stack",
        _strategy_stack,
        run_stack,
        quick=1500,
        thorough=40000,
        setup=setup,
        rule="1-6 operations with room for only 1-40 more calls: the right result or a "
        "RecursionError, and the right result afterwards; non-trivial = at least one ran "
        "out of stack",
    ),
    Sub(
        "rules",
        _strategy_rules,
        run_rules,
        quick=2500,
        thorough=80000,
        setup=setup_plain,
        rule="2-10 definitions of evaluation and differentiation rules, some interrupted or "
        "looked at in their middle: what the evaluator and the differentiator do is always "
        "what they did before or what the new definition says, for each rule; non-trivial = "
        "at least one interruption or look in the middle",
    ),
    Sub(
        "definition",
        _strategy_definition,
        run_definition,
        quick=500,
        thorough=10000,
        setup=setup_plain,
        rule="0-3 definitions and one more, which is interrupted, or looked at, at every one of "
        "its moments in turn (each time with a new evaluator and differentiator), with the "
        "same oracle; non-trivial = at least two moments",
    ),
    Sub(
        "faults",
        _strategy_faults,
        run_faults,
        quick=3000,
        thorough=100000,
        setup=setup_plain,
        rule="1-8 operations in which a value (its hash, equality or display) or a rule "
        "function of the user's fails at its n-th use: the failure comes out, the operation "
        "then gives what it gave before, the same objects are found again, other threads "
        "can work; non-trivial = at least one failure",
    ),
]

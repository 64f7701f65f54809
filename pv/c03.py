"""C03: concurrent construction and use behave as if sequential."""

from __future__ import annotations

import gc

from . import c24
from .base import StepBudgetExceeded, Sub, Violation, fail, short
from .build import pick, reals
from .model import Cas
from .sched import Deadlock, Sched

OPS = ["add", "mul", "sin", "cos", "sub", "addn", "ipow", "call1:f", "call2:g", "inc",
       "apply", "list", "pow"]
USE = [
    "subs", "xreplace", "function", "diff", "differentiator", "evaluator", "transformer",
    "expand", "f64", "printing", "matrix", "sort", "graph", "counts", "operators", "rebuild",
    "ir", "subs", "evaluator",
]
BUILD = ["build", "build", "again", "trees", "drop", "gc", "int", "names"]


class Worker:
    """The work of one thread; results are kept until the thread is judged."""

    def __init__(self, cas, case, steps, kept):
        self.cas = cas
        self.case = case
        self.steps = steps
        self.pool = []
        self.c = c24.Ctx(cas, self.pool)
        self.c.kept = kept
        self.frozen = []
        self.live = []

    def __call__(self):
        for step in self.steps:
            self.frozen.append(self.one(step))
        return self.frozen

    def one(self, step):
        name, i, j, k = step
        sc = self.cas.sc
        c = self.c
        if name == "build" or not self.pool:
            self.pool[:] = reals(self.cas, self.case["prog"])
            if name == "build":
                return ("list", *[("Expr", e) for e in self.pool])
        if name == "again":  # from the parts
            out = []
            for e in self.pool:
                t = e.rep
                if t.children:
                    out.append(t.children[0](*t.children[1:]))
            return ("list", *[("Tree", t) for t in out])
        if name == "trees":
            from protosym.core.tree import Tr

            f = Tr(sc.Function.atom_type("f"))
            t = Tr(sc.Symbol.atom_type("x"))
            for n in range(2 + k % 3):
                t = f(t, Tr(sc.Integer.atom_type(n)))
            return ("Tree", t)
        if name == "names":
            return ("list", *[("Expr", sc.Symbol(f"v{n}") + n) for n in range(k % 4 + 1)])
        if name == "int":
            return ("list", *[("Expr", sc.Integer(n)) for n in range(i, i + j % 5)])
        if name == "drop":
            # drop own references and make the expressions again
            self.pool.clear()
            c.inputs, c.out = [], []
            self.pool[:] = reals(self.cas, self.case["prog"])
            return ("list", *[("Expr", e) for e in self.pool])
        if name == "gc":
            gc.collect()
            return ("str", "gc")
        e, a, b = pick(self.pool, i), pick(self.pool, j), pick(self.pool, k)
        c.inputs = []
        try:
            res = c24.OPERATIONS[name][0](c, e, a, b, k)
        except Violation:
            raise
        except Exception as err:  # noqa
            err.__traceback__ = None
            res = err
        return c24.freeze(c, res)


def objects(x, out):
    if x[0] in ("Expr", "Tree"):
        out.append(x[1])
    elif x[0] in ("list", "tuple"):
        for y in x[1:]:
            objects(y, out)
    elif x[0] == "set":
        out.extend(x[1])


def solo(cas, case):
    """What each thread gets alone, as text; everything made is dropped."""
    out = []
    for steps in case["threads"]:
        w = Worker(cas, case, steps, {})
        out.append([c24.as_text(r) for r in w()])
    return out


WARM = []


def setup():
    """Trace everything once: the first traced run of a function reports less."""
    if WARM:
        return
    WARM.append(1)
    cas = Cas()
    prog = {"atoms": [["I", 2], ["S", "x"], ["S", "y"], ["F", "f"]],
            "cmds": [["add", [0, 1]], ["sin", [0]], ["mul", [0, 1]], ["pow", [0, 6]],
                     ["call1:f", [0]], ["list", [0, 1]], ["cos", [0]]]}
    case = {"prog": prog}
    for _ in range(3):
        steps = [[n, i, 1, k] for n in BUILD + USE for i in (0, 1, 5) for k in (0, 1, 2)]
        Sched([Worker(cas, case, steps, {})], []).run()


def run(case, rec):
    from . import steps as st
    from .engine import HarnessError

    cas = Cas()
    sc = cas.sc
    gc.collect()
    gc.freeze()
    gc.disable()
    try:
        want = solo(cas, case)
        gc.collect()
        kept = {}
        if case["shared"]:
            # shared evaluators, differentiators and compiled substitutions exist
            w = Worker(cas, case, [s for t in case["threads"] for s in t
                                   if s[0] not in BUILD], kept)
            w()
            del w
        workers = [Worker(cas, case, steps, kept) for steps in case["threads"]]
        if case.get("prebuilt"):
            pool = reals(cas, case["prog"])
            for w in workers:
                w.pool[:] = pool
            del pool
        sched = Sched(workers, case["schedule"])
        ended = sched.run()
        if sched.deadlock:
            fail("the threads wait for each other for ever (deadlock)")
        if not ended:
            fail("the threads do not finish")
        for t in sched.threads:
            if isinstance(t.error, StepBudgetExceeded):
                raise t.error
            if isinstance(t.error, Violation):
                raise t.error
            if isinstance(t.error, Deadlock):
                fail("the threads wait for each other for ever (deadlock)")
            if t.error is not None:
                from . import engine

                if engine._touches_repo(t.error):
                    fail(f"thread {t.n}: unexpected {type(t.error).__name__}: "
                         f"{short(str(t.error))}")
                raise HarnessError(f"in thread {t.n}: {t.error!r}")
        if sched.free:
            rec.label("waited outside the control of the scheduler")
        # every thread got what it gets alone
        for n, w in enumerate(workers):
            for m, (res, text) in enumerate(zip(w.frozen, want[n])):
                got = c24.as_text(res)
                if got != text:
                    fail(f"thread {n}, step {m} {case['threads'][n][m]}: got "
                         f"{short(got, 500)}, alone {short(text, 500)}")
        # equal expressions are the same object, whoever made them
        one = {}
        count = 0
        for n, w in enumerate(workers):
            objs = list(w.pool)
            for res in w.frozen:
                objects(res, objs)
            more = [e.rep for e in objs if isinstance(e, sc.Expr)]
            for o in [*objs, *more]:
                tree = o.rep if isinstance(o, sc.Expr) else o
                key = (type(o).__name__, c24.tree_text_of(tree))
                first, m = one.setdefault(key, (o, n))
                count += 1
                if first is not o:
                    fail(f"{short(o)} made by thread {n} and by thread {m} are different "
                         "objects")
        # and the same as one made now
        atoms = {}
        for (kind, _), (o, n) in one.items():
            if kind == "Tree":
                again = type(o)(*o.children) if o.children else type(o).atom(o.value)
                if again is not o:
                    fail(f"re-creating {short(o)} of thread {n} gives another object")
                if not o.children:
                    v = o.value
                    key = (v.atom_type.name, type(v.value), v.value)
                    if atoms.setdefault(key, v) is not v or v.atom_type(v.value) is not v:
                        fail(f"two different atoms for {short(o)}")
            elif sc.Expr(o.rep) is not o:
                fail(f"re-creating {short(o)} of thread {n} gives another object")
        events = [t.events for t in sched.threads]
        rec.maximum("max_instructions_of_a_thread", max(events))
        rec.total("switches", sched.switches)
        for t in case["threads"]:
            for s in t:
                rec.label(s[0])
        used = sched.switches
        if used >= 10:
            rec.label("10 or more switches")
        rec.hit(used >= 2 and count > 4)
        st.count()
    finally:
        gc.enable()


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    small = st.integers(0, 6)
    step = st.tuples(
        st.sampled_from(BUILD + USE), st.integers(0, 3), small, small).map(list)
    build = st.tuples(st.sampled_from(BUILD[:4]), st.just(0), small, small).map(list)
    seg = st.tuples(
        st.integers(0, 2),
        st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(20, 3000)),
    ).map(list)
    thread = st.tuples(build, st.lists(step, max_size=4)).map(lambda t: [t[0], *t[1]])
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"], funs=["f"]),
                max_cmds=7, max_arity=3, max_atoms=4),
            "threads": st.one_of(
                st.lists(thread, min_size=2, max_size=3),
                thread.map(lambda t: [t, t]),
                thread.map(lambda t: [t, t, t])),
            "schedule": st.one_of(
                st.lists(seg, min_size=1, max_size=5),
                st.lists(seg, min_size=5, max_size=40)),
            "shared": st.booleans(),
        }
    )


def _strategy_same():
    """Few operations on one object by all threads, with other values."""
    from hypothesis import strategies as st

    from . import gen

    step = st.tuples(st.sampled_from(KEPT), st.integers(0, 2), st.integers(0, 2),
                     st.integers(0, 2)).map(list)
    seg = st.tuples(st.integers(0, 2), st.one_of(st.integers(1, 12), st.integers(1, 60)))

    def threads(parts):
        steps, n, m, d, third = parts
        other = [[s[0], s[1], s[2], s[3] + 3 * d] for s in steps]
        return [steps * n, other * m, *[other[::-1] * n] * third]

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"], funs=["f"]),
                min_cmds=1, max_cmds=5, max_arity=3, max_atoms=3),
            "threads": st.tuples(
                st.lists(step, min_size=1, max_size=2), st.integers(1, 3), st.integers(1, 3),
                st.integers(1, 2), st.integers(0, 1)).map(threads),
            "schedule": st.lists(seg.map(list), min_size=3, max_size=60),
            "shared": st.just(True),
            "prebuilt": st.just(True),
        }
    )


KEPT = [
    "compiled_matrix", "compiled_matrix", "compiled", "compiled_order", "function", "subs",
    "evaluator", "transformer", "differentiator", "f64", "matrix", "matrix_diff",
    "function_order",
]


def _strategy_shared():
    from hypothesis import strategies as st

    from . import gen

    small = st.integers(0, 8)
    step = st.tuples(
        st.sampled_from(CONTENDED), st.integers(0, 2), small, small).map(list)
    seg = st.tuples(
        st.integers(0, 2),
        st.one_of(st.integers(1, 30), st.integers(1, 120), st.integers(20, 800)),
    ).map(list)

    def threads(parts):
        first, second, n, m, mode, d = parts
        # all the same, the same operations with other arguments, or others as well
        alike = [[s[0], (s[1] + d) % 3, (s[2] + d // 3) % 9, (s[3] + d) % 9] for s in first]
        # the very same functions and matrices, with other numbers
        numbers = [[s[0], s[1], s[2], (s[3] + 3 * d) % 9] for s in first]
        return [first * n, [first, second, alike, alike, numbers, numbers][mode] * m,
                [[], first, first, [], [], alike][mode] * n]

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS, atoms=gen.atom(ints=gen.small_ints, syms=["x", "y"], funs=["f"]),
                min_cmds=2, max_cmds=9, max_arity=3, max_atoms=4),
            "threads": st.tuples(
                st.lists(step, min_size=1, max_size=2),
                st.lists(step, min_size=1, max_size=2),
                st.integers(1, 4), st.integers(1, 4), st.integers(0, 5), st.integers(1, 8),
            ).map(threads).map(lambda ts: [t for t in ts if t]),
            "schedule": st.lists(seg, min_size=3, max_size=60),
            "shared": st.just(True),
            "prebuilt": st.just(True),
        }
    )


CONTENDED = [
    "subs", "subs", "subs", "function", "function", "evaluator", "evaluator_plain",
    "transformer", "differentiator", "diff", "expand", "printing", "f64", "xreplace",
    "matrix_diff", "matrix_ir", "ir", "counts", "sort", "graph", "split", "tree_text",
    "diff_function", "diff_function", "diff_higher", "differentiator", "f64_tree", "f64_ints",
    "function_order", "ir_order", "matrix_ir_order", "matrix", "head_args", "operators",
    "compiled", "compiled_matrix", "compiled_matrix",
]
SUBS = [
    Sub(
        "schedules",
        _strategy,
        run,
        quick=5500,
        thorough=100000,
        setup=setup,
        attempts=4,
        rule="2-3 threads that build and use the same expressions, switched after "
        "generated numbers of bytecode instructions inside protosym; results compared "
        "with those of each thread alone and with each other; non-trivial = at least two "
        "switches between unfinished threads",
        budget=20_000_000,
    ),
    Sub(
        "shared",
        _strategy_shared,
        run,
        quick=4000,
        thorough=100000,
        setup=setup,
        attempts=4,
        rule="2-3 threads that repeatedly use the same compiled substitution, function, "
        "evaluator, differentiator or expression, switched at a fine grain; non-trivial "
        "as above",
        budget=20_000_000,
    ),
    Sub(
        "same",
        _strategy_same,
        run,
        quick=1500,
        thorough=40000,
        setup=setup,
        attempts=4,
        rule="2-3 threads that use the very same compiled function, compiled matrix, "
        "evaluator, differentiator or substitution with different values, switched at a fine "
        "grain; non-trivial as above",
        budget=20_000_000,
    ),
]

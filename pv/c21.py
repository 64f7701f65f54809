"""C21: work scales with graph size, not with depth or tree size."""

from __future__ import annotations

import sys
import time

from . import ir, steps
from .base import StepBudgetExceeded, Sub, ensure, fail
from .build import apply_real, apply_term, atom_real, atom_term, pick
from .c05 import check_order
from .model import Cas
from .num import NumEval, agrees, tight

P = 2**61 - 1
SYMS = ["x", "y", "z"]
POLY = ["add", "mul", "sub", "neg", "sin", "cos", "addn", "muln", "square", "ipow", "inc",
        "scale"]
FREE = [*POLY, "call1:f", "call2:g", "calln:f", "apply", "pow", "list"]
TASKS = [
    "sort", "sort", "subs", "subs", "xreplace", "function", "evaluate", "evaluate",
    "transform", "counts", "expand", "expand", "eval_f64", "diff", "diff", "diff2", "ir",
    "matrix", "matrix ir", "symeval", "symdiff", "compare",
]
NUMERIC = ("eval_f64", "ir", "matrix ir")
POLYNOMIAL = ("diff", "diff2", "matrix", "symdiff")


def _strategy():
    from hypothesis import strategies as st

    def motif(ops, lo, hi):
        return st.lists(
            st.tuples(
                st.sampled_from(ops),
                st.lists(
                    st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 14)),
                    min_size=1, max_size=4),
                st.integers(0, 5),
            ).map(list),
            min_size=lo, max_size=hi,
        )

    return st.sampled_from(TASKS).flatmap(
        lambda task: st.fixed_dictionaries(
            {
                "task": st.just(task),
                "motif": motif(
                    POLY if task in NUMERIC + POLYNOMIAL else FREE, 1, 5),
                "n": st.one_of(st.integers(120, 400), st.integers(120, 800)),
                "ints": st.lists(st.integers(-2, 5), min_size=1, max_size=2),
                "wide": st.one_of(st.just(0), st.just(0), st.integers(200, 1500)),
                "widehead": st.sampled_from(["Add", "Add", "Mul", "f"]),
                "pick": st.lists(st.integers(0, 10**6), min_size=3, max_size=5),
            }
        )
    )


def pools(cas, case):
    """Terms and expressions of the atoms followed by n times the motif."""
    atoms = [["I", k] for k in case["ints"]] + [["S", s] for s in SYMS]
    tp = [atom_term(cas, a) for a in atoms]
    rp = [atom_real(cas, a) for a in atoms]
    motif = list(case["motif"])
    if case["task"] in NUMERIC:
        motif.append(["sin", [0], 1])
    heads = {}
    for _ in range(case["n"]):
        for op, idx, free in motif:
            idx = list(idx)
            if free:
                idx[0] = 0  # continue the chain
            if op == "apply":
                # the result so far as an argument: heads stay shallow
                key = idx[-1] % len(atoms)
                if key not in heads:
                    heads[key] = (tp[key], rp[key])
                ht, hr = heads[key]
                a, b = pick(tp, idx[0]), pick(rp, idx[0])
                tp.append(cas.node(ht, a))
                rp.append(hr(b))
                continue
            t = apply_term(cas, op, idx, tp)
            tp.append(t)
            rp.append(apply_real(cas, op, idx, rp))
    w = case["wide"]
    if w:
        head = case["widehead"]
        if case["task"] in POLYNOMIAL + NUMERIC:
            head = "Add"
        ts, rs = tp[-w:], rp[-w:]
        sc = cas.sc
        tp.append(cas.node(cas.fn(head), *ts))
        rp.append(sc.Function(head)(*rs))
    return tp, rp


def graph_cost(cas, *ts):
    st = cas.store
    seen = set()
    for t in ts:
        seen |= st.reach(t, heads=True)
    return sum(1 + len(st.kids[s]) for s in seen)


class Meter:
    """Runs operations under a work limit and a low recursion limit."""

    # executed steps (calls and loop iterations in protosym) allowed for every
    # subexpression and argument of the graphs involved; see DESIGN.md
    FACTOR = 40
    BASE = 6000

    def __init__(self, rec):
        self.rec = rec

    def __call__(self, what, size, call, extra=None):
        limit = self.FACTOR * (size + 1) + self.BASE
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + 150)
        try:
            res, n = steps.measure(limit if extra is None else limit * 50, call)
        except StepBudgetExceeded:
            fail(f"{what}: more than {limit} steps for a graph of size {size} "
                 "(nodes and edges)")
        except RecursionError:
            fail(f"{what}: RecursionError on a deeply nested expression")
        finally:
            sys.setrecursionlimit(old)
        if extra is not None:
            # the size of the result counts too, known only now
            size += extra(res)
            limit = self.FACTOR * (size + 1) + self.BASE
            if n > limit:
                fail(f"{what}: {n} steps, more than {limit}, for graphs of size {size} "
                     "(nodes and edges)")
        self.rec.maximum(f"max_steps_per_1000_size: {what}",
                         round(1000 * max(0, n - 300) / size))
        return res


# -- exact arithmetic modulo P, with sin and cos as arbitrary functions ----------


def fun(name, v):
    k = sum(map(ord, name)) * 2654435761 + 12345
    return (v * v % P * k + v * 7 + k * k) % P


def ev_mod(cas, t, point):
    """Values modulo P (unknown heads are arbitrary functions), or None."""
    st = cas.store
    memo = {}
    for s in sorted(st.reach(t)):
        if st.is_atom(s):
            memo[s] = st.value[s] % P if cas.is_int(s) else point[s]
            continue
        h, *ks = st.kids[s]
        memo[s] = rule_mod(cas.store, h, [memo[k] for k in ks])
    return memo


def rule_mod(st, h, a):
    if st.value[h] == "Add":
        return sum(a) % P
    if st.value[h] == "Mul":
        r = 1
        for v in a:
            r = r * v % P
        return r
    r = sum(map(ord, str(st.value[h])))
    for i, v in enumerate(a):
        r = (r * 31 + fun(str(st.value[h]), v + i)) % P
    return r


class Jets:
    """Taylor coefficients modulo P to order 2; powers have integer exponents."""

    def __init__(self, cas, point, sym):
        self.cas = cas
        self.point = point
        self.sym = sym
        self.memo = {}

    def exact(self, s):
        st, cas = self.cas.store, self.cas
        if cas.is_int(s):
            return st.value[s]
        ks = st.kids[s]
        if ks and ks[0] in (cas.Add, cas.Mul) and len(ks) < 5:
            vs = [self.exact_shallow(k) for k in ks[1:]]
            if None in vs:
                return None
            if ks[0] == cas.Add:
                return sum(vs)
            r = 1
            for v in vs:
                r *= v
            return r
        return None

    def exact_shallow(self, s):
        st, cas = self.cas.store, self.cas
        if cas.is_int(s):
            return st.value[s]
        ks = st.kids[s]
        if ks and ks[0] in (cas.Add, cas.Mul) and all(cas.is_int(k) for k in ks[1:]):
            vs = [st.value[k] for k in ks[1:]]
            if ks[0] == cas.Add:
                return sum(vs)
            r = 1
            for v in vs:
                r *= v
            return r
        return None

    def __call__(self, t):
        st, cas, memo = self.cas.store, self.cas, self.memo
        for s in sorted(st.reach(t)):
            if s not in memo:
                memo[s] = self.one(s, st, cas, memo)
        return memo[t]

    def one(self, s, st, cas, memo):
        if st.is_atom(s):
            if cas.is_int(s):
                return (st.value[s] % P, 0, 0)
            return (self.point[s], 1 if s == self.sym else 0, 0)
        h, *ks = st.kids[s]
        a = [memo[k] for k in ks]
        if h == cas.Pow:
            n = self.exact(ks[1])
            if n is None or a[0] is None:
                return None
            v, d, e = a[0]
            if n == 0:
                return (1, 0, 0)
            if v == 0:
                return None
            p0 = pow(v, n, P)
            i1 = pow(v, -1, P)
            p1 = n * p0 * i1 % P  # n v^(n-1)
            p2 = n * (n - 1) // 2 * p0 * i1 * i1 % P
            return (p0, p1 * d % P, (p1 * e + p2 * d * d) % P)
        if any(v is None for v in a):
            return None
        if h == cas.Add:
            return tuple(sum(c) % P for c in zip(*a))
        if h == cas.Mul:
            r = a[0]
            for b in a[1:]:
                r = (r[0] * b[0] % P, (r[0] * b[1] + r[1] * b[0]) % P,
                     (r[0] * b[2] + r[1] * b[1] + r[2] * b[0]) % P)
            return r
        if h in (cas.sin, cas.cos):
            v, d, e = a[0]
            S, C = fun("sin", v), fun("cos", v)
            if h == cas.cos:
                S, C = C, -S
            half = (P + 1) // 2
            return (S % P, C * d % P, (C * e - S * d * d % P * half) % P)
        raise AssertionError(h)


def check_derivative(cas, e, d, sym, point, order, what, jets=None):
    """d is the order-th derivative of e, as identity of formal expressions."""
    if jets is None:
        jets = Jets(cas, point, sym)
    j = jets(e)
    if j is None:
        return False
    got = jets(d)
    if got is None:
        return False
    want = j[1] if order == 1 else 2 * j[2] % P
    ensure(got[0] == want, "%s: the value of the derivative is wrong", what)
    return True


def table(case, t, inside, zero):
    """Entries of a matrix: t, zeros (None) and many of its subexpressions."""
    pk = case["pick"]
    nr, nc = [(2, 2), (1, 90), (80, 1), (9, 10), (3, 50)][pk[0] // 3 % 5]
    flat = []
    for n in range(nr * nc):
        if n in (0, nr * nc - 1):
            flat.append(t)
        elif (n * 7 + pk[1]) % 11 == 0:
            flat.append(None)  # a zero
        elif pk[2] % 2:
            flat.append(inside[-1 - (n * (1 + pk[2] % 5)) % len(inside)])
        else:
            flat.append(inside[(n * pk[1] + pk[2]) % len(inside)])
    flat = [None if s == zero else s for s in flat]
    return [flat[i * nc: (i + 1) * nc] for i in range(nr)]


def real_rows(cas, entries):
    return [[0 if s is None else cas.expr(s) for s in row] for row in entries]


def run(case, rec):
    cas = Cas()
    st = cas.store
    sc = cas.sc
    tp, rp = pools(cas, case)
    t, e = tp[-1], rp[-1]
    size = graph_cost(cas, t)
    depth = st.depth(t)
    task = case["task"]
    pk = case["pick"]
    do = Meter(rec)
    point = {cas.sym(s): 1234567 + 99991 * i * i for i, s in enumerate(SYMS)}
    inside = sorted(st.reach(t))
    rec.label("task " + task)
    big_tree = False
    if st.tree_size(t) > 10**12:
        rec.label("tree size over 10^12")
        big_tree = True
    if depth > 1000:
        rec.label("depth over 1000")
    rec.hit(depth > 300 or big_tree)
    rec.maximum("max_depth", depth)
    rec.maximum("max_graph_size", size)

    if task == "sort":
        from protosym.core.tree import forward_graph, topological_sort, topological_split

        for heads in (False, True):
            order = do("topological_sort", size,
                       lambda h=heads: topological_sort(e.rep, heads=h))
            terms = [cas.bridge.read(s) for s in order]
            check_order(cas, terms, st.reach(t, heads=heads), heads, (), "topological_sort")
        ex = {inside[i % len(inside)] for i in pk[1:]}
        rex = {cas.bridge.build(s) for s in ex}
        order = do("topological_sort", size,
                   lambda: topological_sort(e.rep, exclude=rex))
        check_order(cas, [cas.bridge.read(s) for s in order],
                    st.reach(t, exclude=ex), False, ex, "topological_sort with exclude")
        atoms, heads_, nodes = do("topological_split", size,
                                  lambda: topological_split(e.rep))
        reach = st.reach(t)
        ensure({cas.bridge.read(a) for a in atoms} == {s for s in reach if st.is_atom(s)}
               and len(set(atoms)) == len(atoms), "topological_split: wrong atoms")
        check_order(cas, [cas.bridge.read(a) for a in [*atoms, *nodes]], reach, False, (),
                    "topological_split")
        g = do("forward_graph", size, lambda: forward_graph(e.rep))
        stack = [cas.bridge.read(a) for a in g.atoms]
        for h, idx in g.operations:
            stack.append(cas.node(cas.bridge.read(h), *[stack[i] for i in idx]))
        ensure(stack[-1] == t and len(set(stack)) == len(stack)
               and set(stack) == reach, "forward_graph does not replay to the expression")

    elif task == "compare":
        # the same nest over other leaves, and one with its parts in another order
        other = {**case, "ints": [k + 1 for k in case["ints"]]}
        t2, e2 = [p[-1] for p in pools(cas, other)]
        cost = len(st.kids[t]) + len(st.kids[t2]) + 10
        for a, b, same in ((e, e2, t == t2), (e, e, True), (e.rep, e2.rep, t == t2),
                           (e, rp[-2], t == tp[-2]), (e.rep, rp[-2].rep, t == tp[-2]),
                           (e, e.rep, False)):
            got = do("comparison", cost, lambda: (
                a == b, b == a, not a != b, b in [a], a in (b,), a in {b}, {a: 1}.get(b) == 1,
                [a, e] == [b, e], len({a, b}) == 1))
            ensure(all(g is same for g in got), "comparisons of two deep expressions give "
                   "%s", got)
        for tree, term in ((e, t), (e2, t2)):
            again = do("call", cost, lambda: tree.head(*tree.args))
            ensure(again is tree, "the call of the head with the args is another object")
            got = do("call", cost, lambda: (tree.head, *tree.args))
            ensure([cas.read(g) for g in got] == list(st.kids[term]), "head and args differ")
            got = do("operators", cost, lambda: [
                tree + tree, tree - 1, -tree, tree / tree, 2**tree, sc.List(tree, e, e2),
                sc.Matrix([[tree, e], [0, e2]])[1, 1]])
            ensure(got[-1] is e2 and got[0].args == (tree, tree), "operators on deep "
                   "expressions")

    elif task in ("subs", "xreplace", "function"):
        targets = []
        for i in pk[1:]:
            # atoms, early and late subexpressions
            s = inside[i % min(len(inside), 8)] if i % 2 else inside[i % len(inside)]
            if s not in targets:
                targets.append(s)
        new = [pick(tp, pk[0] + 3 * i) for i in range(len(targets))]
        want = st.subst(t, dict(zip(targets, new)))
        rt = [cas.expr(s) for s in targets]
        rn = [cas.expr(s) for s in new]
        whole = size + graph_cost(cas, *new)
        if task == "subs":
            from protosym.core.tree import SubsFunc

            f = do("SubsFunc", size, lambda: SubsFunc(e.rep, [a.rep for a in rt]))
            got = do("SubsFunc call", whole, lambda: f(*[a.rep for a in rn]))
            cas.same(cas.Expr(got), want, "substitution in a deep expression")
            again = do("SubsFunc call", whole, lambda: f(*[a.rep for a in rt]))
            ensure(again is e.rep, "substituting the parts by themselves changed it")
        elif task == "xreplace":
            got = do("xreplace", whole, lambda: e.xreplace(dict(zip(rt, rn))))
            cas.same(got, want, "xreplace in a deep expression")
        else:
            keep = [i for i, s in enumerate(targets) if st.kind[s] == "Symbol"]
            rt = [rt[i] for i in keep]
            rn = [rn[i] for i in keep]
            want = st.subst(t, {targets[i]: new[i] for i in keep})
            f = do("as_function", size, lambda: e.as_function(*rt))
            got = do("call of a function", whole, lambda: f(*rn))
            cas.same(got, want, "function of a deep expression")
        if len(st.reach(want) - st.reach(t)) > 200:
            rec.label("substitution rebuilds much")

    elif task in ("evaluate", "transform"):
        from protosym.core.evaluate import Evaluator, Transformer

        ref = ev_mod(cas, t, point)
        if task == "evaluate":
            ev = Evaluator()
            calls = [0]
            read = cas.bridge.read

            def gen_op(h, a):
                calls[0] += 1
                return rule_mod(st, read(h), a)

            def gen_atom(a):
                s = read(a)
                return st.value[s] % P if cas.is_int(s) else point[s]

            ev.add_op_generic(gen_op)
            ev.add_atom_generic(gen_atom)
            ev.add_op1(sc.sin.rep, lambda v: gen_op(sc.sin.rep, [v]))
            ev.add_opn(sc.Add.rep, lambda a: gen_op(sc.Add.rep, a))
            vals = {cas.bridge.build(s): v for s, v in point.items()} if pk[0] % 2 else None
            got = do("Evaluator", size, lambda: ev(e.rep, vals))
            ensure(got == ref[t], "evaluation gave %s, expected %s", got, ref[t])
            n = sum(1 for s in inside if not st.is_atom(s))
            ensure(calls[0] == n, "%s rule calls for %s distinct compounds", calls[0], n)
        else:
            tr = Transformer()
            F, G = sc.Function("f"), sc.Function("other")
            tr.add_opn(F.rep, lambda a: G.rep(*a))
            tr.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a))
            new = {}
            for s in inside:
                if st.is_atom(s):
                    new[s] = s
                    continue
                h, *ks = st.kids[s]
                h = {cas.fn("f"): cas.fn("other"), cas.sin: cas.cos}.get(h, h)
                new[s] = cas.node(h, *[new[k] for k in ks])
            got = do("Transformer", size, lambda: tr(e.rep))
            cas.same(cas.Expr(got), new[t], "transformation of a deep expression")

    elif task == "symeval":
        from protosym.core.sym import AtomRule, HeadOp, HeadRule, PyFunc1, PyOpN, star

        ev = sc.Expr.new_evaluator("mod", int)
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        read = cas.bridge.read
        ev[sc.Integer[a]] = PyFunc1(lambda v: v % P)(a)
        ev[sc.Symbol[a]] = PyFunc1(lambda v: point[cas.sym(v)])(a)
        ev[sc.Add(star(a))] = PyOpN(lambda v: sum(v) % P)(a)
        ev[HeadRule(a, b)] = HeadOp(lambda h, v: rule_mod(st, read(h), v))(a, b)
        assert AtomRule is not None
        got = do("SymEvaluator", size, lambda: ev(e))
        want = ev_mod(cas, t, point)[t]
        ensure(got == want, "evaluation gave %s, expected %s", got, want)

    elif task == "counts":
        g = do("count_ops_graph", size, lambda: e.count_ops_graph())
        want = len(inside)
        tr = do("count_ops_tree", size, lambda: e.count_ops_tree())
        ensure(g == want, "count_ops_graph gave %s, expected %s", g, want)
        ensure(tr == st.tree_size(t), "count_ops_tree gave %s, expected %s", tr,
               st.tree_size(t))

    elif task == "expand":
        want = st.bin_expand(t, cas.assoc)
        whole = size + graph_cost(cas, want)
        got = do("bin_expand", whole, lambda: e.bin_expand())
        cas.same(got, want, "bin_expand of a deep expression")
        if want != t:
            rec.label("expansion changes the expression")

    elif task in NUMERIC:
        vals = [0.25, -0.5, 0.75]
        terms = {cas.sym(s): v for s, v in zip(SYMS, vals)}
        seq = task != "eval_f64"
        base = st.bin_expand(t, cas.assoc) if seq else t
        r = NumEval(cas, terms, sequential=seq, ulps=4)(base)
        if task == "eval_f64":
            if r is not None:
                got = do("eval_f64", size,
                         lambda: e.eval_f64({cas.expr(s): v for s, v in terms.items()}))
                ensure(agrees(got, r), "eval_f64 gave %s, expected %s within %s", got,
                       float(r[0]), float(r[1]))
        elif task == "ir":
            whole = size + graph_cost(cas, base)
            syms = [sc.Symbol(s) for s in SYMS]
            text = do("to_llvm_ir", whole, lambda: e.to_llvm_ir(syms))
            ensure(len(text) < 200 * whole + 5000, "the IR has %s characters", len(text))
            if pk[0] % 3 == 0 and r is not None:
                keep = []
                got = ir.scalar_function(text, 3, keep)(*vals)
                ensure(agrees(got, r), "the IR computes %s, expected %s within %s", got,
                       float(r[0]), float(r[1]))
                rec.label("IR compiled and run")
        else:
            entries = table(case, t, inside, cas.int(0))
            M = sc.Matrix(real_rows(cas, entries))
            syms = [sc.Symbol(s) for s in SYMS]
            whole = size + graph_cost(cas, base)
            text = do("Matrix.to_llvm_ir", whole, lambda: M.to_llvm_ir(syms))
            ensure(len(text) < 200 * whole + 5000, "the IR has %s characters", len(text))
            if pk[0] % 3 == 0 and r is not None:
                keep = []
                flat = [s for row in entries for s in row]
                got = ir.array_function(text, 3, len(flat), keep)(*vals)
                ev = NumEval(cas, terms, sequential=True, ulps=4)
                for g, s in zip(got, flat):
                    rs = (0, 0) if s is None else ev(st.bin_expand(s, cas.assoc))
                    if rs is not None:
                        ensure(agrees(g, rs), "the IR computes %s, expected %s within %s",
                               g, float(rs[0]), float(rs[1]))
                rec.label("IR compiled and run")
        if r is not None:
            rec.label("value judged")
            if tight(r):
                rec.label("tight bound")
        else:
            rec.label("value out of range, not judged")

    elif task in ("diff", "diff2", "symdiff"):
        sym = cas.sym(SYMS[pk[0] % 3])
        order = 2 if task == "diff2" else 1
        read = {}

        def extra(d):
            read["d"] = cas.read(d)
            s = graph_cost(cas, read["d"])
            if order == 2:
                read["d1"] = cas.read(e.diff(cas.expr(sym)))
                s += graph_cost(cas, read["d1"])
            return s

        if task == "symdiff":
            from protosym.core.sym import SymDifferentiator

            D = SymDifferentiator(sc.Expr, zero=sc.Integer(0), one=sc.Integer(1), add=sc.Add,
                                  mul=sc.Mul)
            a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
            D[sc.sin(a), a] = sc.cos(a)
            D[sc.cos(a), a] = -sc.sin(a)
            D[a**b, a] = b * a ** (b - 1)
            do("SymDifferentiator", size, lambda: D(e, cas.expr(sym)), extra)
        elif order == 1:
            do("diff", size, lambda: e.diff(cas.expr(sym)), extra)
        else:
            do("diff twice", size, lambda: e.diff(cas.expr(sym), 2), extra)
        judged = check_derivative(cas, t, read["d"], sym, point, order,
                                  f"derivative ({order}) of a deep expression")
        if judged:
            rec.label("value judged")
        if cas.store.is_atom(read["d"]):
            rec.label("derivative is constant")

    elif task == "matrix":
        entries = table(case, t, inside, cas.int(0))
        sym = cas.sym(SYMS[pk[0] % 3])
        rows = real_rows(cas, entries)
        flat = [(i, j, s) for i, row in enumerate(entries) for j, s in enumerate(row)]
        whole = size + len(flat)
        M = do("Matrix", whole, lambda: sc.Matrix(rows))
        N = do("Matrix addition", whole, lambda: M + M)
        for i, j, s in flat:
            want = cas.int(0) if s is None else cas.node(cas.Add, s, s)
            cas.same(N[i, j], want, "entry of a matrix sum")
        listed = do("Matrix.tolist", whole, lambda: M.tolist())
        ensure(all(listed[i][j] is M[i, j] for i, j, _ in flat), "tolist differs")

        def mextra(D):
            return graph_cost(cas, *[cas.read(x) for row in D.tolist() for x in row])

        D = do("Matrix.diff", whole, lambda: M.diff(cas.expr(sym)), mextra)
        jets = Jets(cas, point, sym)
        for i, j, s in flat:
            if s is None:
                ensure(D[i, j] is sc.Integer(0), "derivative of a zero entry is not zero")
            elif check_derivative(cas, s, cas.read(D[i, j]), sym, point, 1,
                                  f"entry {i},{j} of the derivative of a matrix", jets):
                rec.label("value judged")
        if len(flat) > 40:
            rec.label("many entries sharing one graph")


# -- work done inside the interpreter: processor time of growing inputs ----------


def _strategy_cpu():
    from hypothesis import strategies as st

    return st.fixed_dictionaries(
        {
            "task": st.sampled_from(sorted(set(TASKS) - {"function", "diff2"})),
            "chain": st.sampled_from(["unary", "left", "right", "tower", "nary", "mixed", "wide", "vast",
                                     "keys", "keys"]),
        }
    )


def chain(sc, kind, n, task):
    x, y = sc.Symbol("x"), sc.Symbol("y")
    e = x
    smooth = task in NUMERIC + POLYNOMIAL
    f = sc.sin if smooth else sc.Function("f")
    if kind == "wide":
        return sc.Add(x, *[f(x * i) if i % 2 else f(sc.Integer(i)) for i in range(n // 2)])
    if kind == "keys":
        return sc.Add(*[f(sc.Symbol(f"k{i}")) for i in range(n)], x)
    if kind == "vast":
        return sc.Add(x, *map(sc.Integer, range(6 * n)), y)
    for i in range(n):
        if kind == "unary":
            e = f(e)
        elif kind == "left":
            e = e + i if i % 2 else f(e)
        elif kind == "right":
            e = y * e if i % 2 else f(e)
        elif kind == "tower":
            e = f(e) * e if i % 2 else e + f(e)
        elif kind == "nary":
            e = sc.Add(x, e, i, f(e))
        else:
            e = sc.Add(e, sc.Integer(i % 7)) if i % 3 else f(sc.Mul(e, x))
    return e


def cpu_call(sc, task, e):
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.sym import SymDifferentiator
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort

    x, y = sc.Symbol("x"), sc.Symbol("y")
    if task == "sort":
        return lambda: forward_graph(e.rep)
    if task == "compare":
        other = e.xreplace({x: y}) if e.xreplace({x: y}) is not e else y
        return lambda: ([o == p for o in (e, other) for p in (e.args[-1], other, e)],
                        [sc.List(*o.args) == p for o in (e, other) for p in (e, other)])
    if e.args[-1] is x and len(e.args) > SMALL // 2 and task in ("subs", "xreplace", "sort"):
        # very many replaced (or excluded) parts at once, present and absent
        keys = [a.args[0] for a in e.args[:-1]]
        if keys and keys[0].rep is not x.rep and not keys[0].args:
            keys[::3] = e.args[:-1:3]
            keys[1::7] = [sc.Symbol(f"absent{i}") for i in range(len(keys[1::7]))]
            if task == "subs":
                reps, new = [k.rep for k in keys], [k.rep for k in keys[::-1]]
                return lambda: SubsFunc(e.rep, reps)(*new)
            if task == "sort":
                ex = {k.rep for k in keys}
                return lambda: topological_sort(e.rep, exclude=ex)
            reps = dict(zip(keys, keys[::-1]))
            return lambda: e.xreplace(reps)
    if task == "subs":
        return lambda: SubsFunc(e.rep, [x.rep])(y.rep)
    if task == "xreplace":
        return lambda: e.xreplace({x: y})
    if task in ("evaluate", "symeval"):
        ev = Evaluator()
        ev.add_op_generic(lambda h, a: 0.5)
        ev.add_atom_generic(lambda a: 0.5)
        return lambda: ev(e.rep)
    if task == "transform":
        tr = Transformer()
        tr.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a))
        return lambda: tr(e.rep)
    if task == "counts":
        return lambda: e.count_ops_graph()
    if task == "expand":
        return lambda: e.bin_expand()
    if task == "eval_f64":
        return lambda: e.eval_f64({x: 1e-300, y: 1e-300})
    if task == "diff":
        return lambda: e.diff(x)
    if task == "symdiff":
        D = SymDifferentiator(sc.Expr, zero=sc.Integer(0), one=sc.Integer(1), add=sc.Add,
                              mul=sc.Mul)
        a = sc.Expr.new_wild("a")
        D[sc.sin(a), a] = sc.cos(a)
        return lambda: D(e, x)
    if task == "ir":
        return lambda: e.to_llvm_ir([x, y])
    M = sc.Matrix([[e, 0], [0, e]])
    if task == "matrix ir":
        return lambda: M.to_llvm_ir([x, y])
    return lambda: (M + M).diff(x)


def cpu_time(sc, task, kind, n, repeat):
    """Least processor time of the task on a chain of n commands."""
    import gc

    best = None
    for _ in range(repeat):
        e = chain(sc, kind, n, task)
        call = cpu_call(sc, task, e)
        gc.collect()
        gc.disable()
        try:
            t0 = time.thread_time()
            res = call()
            t1 = time.thread_time()
        finally:
            gc.enable()
        del res, e, call
        best = t1 - t0 if best is None else min(best, t1 - t0)
    return best


SMALL, LARGE = 1500, 24000


def run_cpu(case, rec):
    import protosym.simplecas as sc

    task, kind = case["task"], case["chain"]
    if task == "eval_f64" and kind == "tower":
        kind = "left"
    if kind == "keys" and task not in ("subs", "xreplace", "sort"):
        task = ("subs", "xreplace", "sort")[len(task) % 3]
    rec.label("task " + task, "chain " + kind)
    rec.hit()
    # linear work: a ratio of 16 (more with cache misses); quadratic: up to 256
    ratios = []
    for _ in range(4):
        small = cpu_time(sc, task, kind, SMALL, 3)
        large = cpu_time(sc, task, kind, LARGE, 1)
        ratios.append(large / max(small, 1e-4))
        if ratios[-1] < 70:
            break
    else:
        fail(f"{task} on a {kind} chain: {LARGE // SMALL} times the size takes "
             f"{min(ratios):.0f} times the processor time (4 measurements)")
    rec.maximum("max_time_ratio_for_16_times_the_size", round(min(ratios), 1))


# -- conversions of shared expressions (their depth is limited by SymPy itself) -----

SHARED = ["call2:g", "call2:f", "calln:f", "sin"]
INERT = [*SHARED, "add", "addn", "muln", "pow"]  # SymPy rewrites these unless told not to


def _strategy_shared():
    from hypothesis import strategies as st

    i = st.sampled_from([0, 0, 0, 1, 1, 2])
    return st.booleans().flatmap(lambda rt: st.fixed_dictionaries(
        {
            "roundtrip": st.just(rt),
            "motif": st.lists(
                st.tuples(st.sampled_from(SHARED if rt else INERT), st.lists(i, min_size=2, max_size=4))
                .map(list), min_size=1, max_size=3),
            "n": st.integers(8, 24),
            "matrix": st.booleans(),
            "pick": st.lists(st.integers(0, 4), min_size=2, max_size=3),
        }
    ))


def inert_sympy(cas, t):
    """The SymPy object of a term, built without evaluation."""
    import sympy

    st = cas.store
    memo = {}
    with sympy.evaluate(False):
        for s in sorted(st.reach(t)):
            ks = st.kids[s]
            if not ks:
                v = st.value[s]
                memo[s] = sympy.Integer(v) if cas.is_int(s) else sympy.Symbol(v)
                continue
            name = st.value[ks[0]]
            args = [memo[k] for k in ks[1:]]
            memo[s] = {
                "Add": lambda: sympy.Add(*args, evaluate=False),
                "Mul": lambda: sympy.Mul(*args, evaluate=False),
                "pow": lambda: sympy.Pow(*args, evaluate=False),
                "sin": lambda: sympy.sin(*args, evaluate=False),
                "cos": lambda: sympy.cos(*args, evaluate=False),
            }.get(name, lambda: sympy.Function(name)(*args))()
    return memo[t]


def run_shared(case, rec):
    cas = Cas()
    sc, st = cas.sc, cas.store
    tp = [cas.sym("x"), cas.int(2), cas.sym("y")]
    rp = [sc.Symbol("x"), sc.Integer(2), sc.Symbol("y")]
    for _ in range(case["n"]):
        for op, idx in case["motif"]:
            tp.append(apply_term(cas, op, idx, tp))
            rp.append(apply_real(cas, op, idx, rp))
    meter = Meter(rec)
    t, e = tp[-1], rp[-1]
    if st.depth(t) > 45:
        return  # SymPy is recursive
    size = graph_cost(cas, t)
    if case["roundtrip"]:
        s = meter("to_sympy", size, e.to_sympy)
    else:
        s = inert_sympy(cas, t)
    back = meter("from_sympy", size, lambda: sc.Expr.from_sympy(s))
    cas.same(back, t, "converting a shared expression to SymPy and back")
    if case["matrix"] and case["roundtrip"]:
        ts = [pick(tp, i) for i in case["pick"]]
        M = sc.Matrix([[pick(rp, i) for i in case["pick"]]])
        size = graph_cost(cas, *ts)
        S = meter("Matrix.to_sympy", size, M.to_sympy)
        N = meter("Matrix.from_sympy", size, lambda: sc.Matrix.from_sympy(S))
        for k, t_ in enumerate(ts):
            cas.same(N[0, k], t_, "an entry converted to SymPy and back")
    rec.hit(st.tree_size(t) > 5000 * size)


SUBS = [
    Sub(
        "deep",
        _strategy,
        run,
        quick=900,
        thorough=24000,
        rule="a random motif of 1-5 commands repeated 120-800 times (chains up to "
        "thousands of levels, shared towers), optionally under a sum or product of "
        "hundreds of arguments; one operation, with the recursion limit 150 frames "
        "above the caller and a work limit proportional to the graph; non-trivial = "
        "depth over 300 or tree size over 10^12",
        budget=40_000_000,
    ),
    Sub(
        "conversions", _strategy_shared, run_shared, quick=400, thorough=8000,
        rule="a random motif of 1-3 calls, sines (and sums, products, powers) repeated 8-24 times with "
        "shared operands, to SymPy and back, alone and in a matrix, under the same work "
        "limit; non-trivial = the tree size is over 5000 times the size of the graph",
        budget=40_000_000,
    ),
    Sub(
        "cpu",
        _strategy_cpu,
        run_cpu,
        quick=140,
        thorough=400,
        rule="processor time of an operation on a chain of 24000 commands against one of "
        "1500 (work inside built-in functions that steps do not show); all cases are "
        "non-trivial",
        budget=400_000_000,
    ),
]

"""C29: operations compose: every result is as good an input as any other."""

from __future__ import annotations

import re
from types import SimpleNamespace

from .base import Sub, ensure, fail, short
from .build import apply_real, apply_term, atom_real, atom_term, pick
from .c19 import CTX, close, explosive, term_value
from .model import Cas
from .num import NumEval, agrees, describe, tight

SYMS = ["x", "y", "z"]
BUILD = ["add", "mul", "sub", "neg", "sin", "cos", "ipow", "square", "addn", "muln", "inc",
         "scale", "div", "mid:Add", "mid:Mul"]
STEPS = [
    "diff", "diff", "diff2", "owndiff", "expand", "subs", "subs", "function", "reuse",
    "transform", "sympy", "sympy", "text", "part", "inner", "matrix", "matrix", "matadd",
    "matdiff", "matdiff", "matsympy", "matlist", "entry", "entry", "entry", "forget",
]
ENDS = ["eval", "eval", "mp", "compile", "matcompile", "counts", "show"]
MAXTREE = 4000


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    # mostly one of the newest results, together with anything
    idx = st.tuples(
        st.one_of(st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 24)),
        st.lists(st.one_of(st.integers(0, 5), st.integers(0, 24)), max_size=3),
    ).map(lambda t: [t[0], *t[1]])
    ops = STEPS + STEPS + BUILD + ENDS + ["again"] * 16
    step = st.tuples(st.sampled_from(ops), idx).map(list)
    return st.fixed_dictionaries({
        "prog": gen.program(BUILD, atoms=gen.atom(ints=gen.small_ints, syms=SYMS),
                            min_cmds=2, max_cmds=6, max_atoms=3),
        "steps": st.one_of(st.lists(step, min_size=3, max_size=7),
                           st.lists(step, min_size=5, max_size=14)),
        "point": st.lists(st.integers(-3000, 3000), min_size=3, max_size=3),
    })


START = {
    "atoms": [["S", "z"], ["I", 2], ["S", "x"]],
    "cmds": [["addn", [0, 2, 1]], ["sin", [1]], ["muln", [0, 1, 2]], ["square", [2]],
             ["addn", [0, 1, 3]]],
}


def _strategy_chains():
    """Few steps, each on the result of the one before."""
    from hypothesis import strategies as st

    ops = [s for s in dict.fromkeys(STEPS) if s not in ("matadd", "forget")]
    mats = [s for s in ops if s.startswith("mat") and s != "matrix"]
    step = st.tuples(
        st.sampled_from(ops + mats + ["matadd", "addn", "muln", "again", "again", "again"]),
        st.tuples(st.just(0), st.integers(0, 4), st.integers(0, 7)).map(list)).map(list)
    return st.fixed_dictionaries({
        "prog": st.just(START),
        "steps": st.lists(step, min_size=2, max_size=5),
        "point": st.sampled_from([[700, -1300, 2100], [-400, 900, 1600]]),
    })


# -- the model: what every pool entry means ---------------------------------------


class Model:
    """Terms that mean what the pipeline has promised so far, by textbook rules."""

    def __init__(self, cas):
        self.cas = cas
        self.st = cas.store

    def diff(self, t, v):
        cas, st = self.cas, self.st
        zero, one = cas.int(0), cas.int(1)
        d = {}
        for s in sorted(st.reach(t)):
            if st.is_atom(s):
                d[s] = one if s == v else zero
                continue
            h, *ks = st.kids[s]
            terms = []
            for i, k in enumerate(ks):
                if d[k] == zero:
                    continue
                if h == cas.Add:
                    f = None
                elif h == cas.Mul:
                    f = cas.node(cas.Mul, one, *ks[:i], *ks[i + 1:])
                elif h == cas.sin:
                    f = cas.node(cas.cos, k)
                elif h == cas.cos:
                    f = cas.node(cas.Mul, cas.int(-1), cas.node(cas.sin, k))
                elif h == cas.Pow and i == 0:
                    # the exponents are numbers, however they are written
                    p = cas.node(cas.Add, ks[1], cas.int(-1))
                    f = cas.node(cas.Mul, ks[1], cas.node(cas.Pow, k, p))
                else:
                    raise LookupError("no rule")
                terms.append(d[k] if f is None else cas.node(cas.Mul, d[k], f))
            d[s] = cas.node(cas.Add, *terms) if terms else zero
        return d[t]


class Item:
    """A real expression with its term and a term of the same meaning."""

    __slots__ = ("e", "t", "m")

    def __init__(self, e, t, m):
        self.e, self.t, self.m = e, t, m


class Table:
    """A real matrix with, for every place, the term there and its meaning."""

    __slots__ = ("M", "rows", "means")

    def __init__(self, M, rows, means):
        self.M, self.rows, self.means = M, rows, means


class Run:
    def __init__(self, case, rec):
        self.cas = cas = Cas()
        self.sc = cas.sc
        self.st = cas.store
        self.rec = rec
        self.model = Model(cas)
        self.done = []
        self.vals = {
            s: CTX.mpf(v) / 1000 + CTX.mpf(123) / 10**6 for s, v in zip(SYMS, case["point"])
        }
        self.floats = {s: v / 1000 + 0.000123 for s, v in zip(SYMS, case["point"])}
        self.memo = {}
        self.pool = []
        self.tables = []
        for a in case["prog"]["atoms"]:
            t = atom_term(cas, a)
            self.pool.append(Item(atom_real(cas, a), t, t))
        for s in SYMS[:2]:
            t = cas.sym(s)
            self.pool.append(Item(self.sc.Symbol(s), t, t))

    # -- pieces ------------------------------------------------------------

    def value(self, t):
        return term_value(self.cas, t, self.vals, self.memo)

    def judge(self, what, t, m):
        """Does the term t have the meaning of the term m?"""
        a, b = self.value(t), self.value(m)
        if a is None or b is None:
            self.rec.label("point not judged")
            return
        self.rec.label("meaning compared")
        if not close(a, b):
            fail(f"after {self.path()}: {what} gave {self.cas.show(t)}, of value "
                 f"{CTX.nstr(a, 15)} where it should be {CTX.nstr(b, 15)} "
                 f"at {self.floats}")

    def path(self):
        return " > ".join(self.done[-8:])

    def ok(self, t):
        return self.st.tree_size(t) <= MAXTREE

    def push(self, what, e, m, exact=None, changed=True):
        cas = self.cas
        t = cas.read(e, f"{what} after {self.path()}")
        if exact is not None:
            cas.same(e, exact, f"{what} after {self.path()}")
        if not self.ok(t) or not self.ok(m):
            self.rec.label("too large to keep")
            return
        self.judge(what, t, m)
        self.pool.append(Item(e, t, m))
        self.done.append(what)
        if changed and len(self.done) >= 3 and self.st.graph_size(t) >= 4:
            self.rec.hit()

    def push_table(self, what, M, means, exact=None):
        sc = self.sc
        ensure(type(M) is sc.Matrix, "%s gave %s", what, short(M))
        shape = (len(means), len(means[0]))
        ensure(M.shape == shape, "%s has the shape %s instead of %s", what, M.shape, shape)
        rows = []
        for i in range(shape[0]):
            row = []
            for j in range(shape[1]):
                t = self.cas.read(M[i, j], f"entry {i}, {j} of {what} after {self.path()}")
                if exact is not None and t != exact[i][j]:
                    fail(f"after {self.path()}: entry {i}, {j} of {what} is "
                         f"{self.cas.show(t)} instead of {self.cas.show(exact[i][j])}")
                if not self.ok(t) or not self.ok(means[i][j]):
                    self.rec.label("too large to keep")
                    return
                self.judge(f"entry {i}, {j} of {what}", t, means[i][j])
                row.append(t)
            rows.append(row)
        self.tables.append(Table(M, rows, means))
        self.done.append(what)
        if len(self.done) >= 3:
            self.rec.hit()

    # -- steps -------------------------------------------------------------

    def step(self, op, idx):
        if op in BUILD:
            T = [p.t for p in self.pool]
            m = apply_term(self.cas, op, idx, [p.m for p in self.pool])
            e = apply_real(self.cas, op, idx, [p.e for p in self.pool])
            self.push(op, e, m, apply_term(self.cas, op, idx, T))
            return
        p = pick(self.pool, idx[0])
        if op.startswith("mat") and op != "matrix" or op == "entry":
            if self.tables:
                getattr(self, "do_" + op)(pick(self.tables, idx[0]), idx)
            return
        getattr(self, "do_" + op)(p, idx)

    def sym(self, k, p=None):
        """A symbol, of the expression p where it has any."""
        names = SYMS
        if p is not None and k % 5:
            st = self.st
            here = [s for s in SYMS if self.cas.sym(s) in st.reach(p.t)]
            names = here or SYMS
        s = names[k % len(names)]
        return self.sc.Symbol(s), self.cas.sym(s)

    def do_diff(self, p, idx, times=1, by=None):
        e, v = self.sym(idx[-1], p)
        m = p.m
        try:
            for _ in range(times):
                m = self.model.diff(m, v)
                if not self.ok(m):
                    return
        except LookupError:
            return
        d = by(p.e, e) if by is not None else p.e.diff(e, times) if times > 1 else p.e.diff(e)
        self.push(f"diff({self.st.value[v]}, {times})", d, m)

    def do_diff2(self, p, idx):
        self.do_diff(p, idx, 2)

    def do_owndiff(self, p, idx):
        from protosym.core.sym import SymDifferentiator

        sc = self.sc
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        own = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.Integer(0),
                                one=sc.Integer(1))
        own[sc.sin(a), a] = sc.cos(a)
        own[sc.cos(a), a] = -sc.sin(a)
        own[a**b, a] = b * a ** (b + (-1))
        self.do_diff(p, idx, 1, own)

    def do_expand(self, p, idx):
        self.push("bin_expand", p.e.bin_expand(), p.m,
                  self.st.bin_expand(p.t, self.cas.assoc))

    def pairs(self, idx, p):
        """Some symbols and what to put in their places."""
        n = 1 + (idx[-1] // 2) % 2 + (idx[-1] % 8 == 7)
        out = []
        for k in range(n):
            e, v = self.sym(idx[k % len(idx)] + k, p)
            q = pick(self.pool, idx[-1 - k % len(idx)] + k)
            if all(v != w for _, w, _ in out):
                out.append((e, v, q))
        if len(out) > 1 and idx[0] % 3 == 0:
            # the symbols for each other
            others = [SimpleNamespace(e=e, t=v, m=v) for e, v, _ in out]
            out = [(e, v, q) for (e, v, _), q in zip(out, others[1:] + others[:1])]
        return out

    def put(self, p, pairs):
        exact = self.st.subst(p.t, {v: q.t for _, v, q in pairs})
        m = self.st.subst(p.m, {v: q.m for _, v, q in pairs})
        return exact, m

    def do_subs(self, p, idx):
        pairs = self.pairs(idx, p)
        exact, m = self.put(p, pairs)
        if self.ok(exact) and self.ok(m):
            self.push("xreplace", p.e.xreplace({e: q.e for e, _, q in pairs}), m, exact)

    def do_function(self, p, idx):
        pairs = self.pairs(idx, p)
        exact, m = self.put(p, pairs)
        if self.ok(exact) and self.ok(m):
            f = p.e.as_function(*[e for e, _, _ in pairs])
            self.push("as_function", f(*[q.e for _, _, q in pairs]), m, exact)

    def do_reuse(self, p, idx):
        """One prepared function, applied to the entries of the pool and itself."""
        e, v = self.sym(idx[-1], p)
        f = p.e.as_function(e)
        t, m, r = p.t, p.m, p.e
        for k in range(1 + idx[-1] % 3):
            q = pick(self.pool, idx[k % len(idx)])
            self.st.subst(p.t, {v: q.t})
            self.cas.same(f(q.e), self.st.subst(p.t, {v: q.t}), "call of a prepared function")
            t, m = self.st.subst(p.t, {v: t}), self.st.subst(p.m, {v: m})
            if not self.ok(t) or not self.ok(m):
                return
            r = f(r)
            self.push("as_function again", r, m, t)

    def do_transform(self, p, idx):
        from protosym.core.evaluate import Transformer

        pairs = self.pairs(idx, p)
        exact, m = self.put(p, pairs)
        if self.ok(exact) and self.ok(m):
            r = Transformer()(p.e.rep, {e.rep: q.e.rep for e, _, q in pairs})
            self.push("transformer", self.sc.Expr(r), m, exact)

    def sympify(self, t):
        return self.st.tree_size(t) <= 150 and not explosive(self.cas, t, 300)

    def do_sympy(self, p, idx):
        if not self.sympify(p.t):
            return
        s = p.e.to_sympy()
        how = idx[-1] % 4
        m = p.m
        if how == 1 and self.st.tree_size(p.t) <= 30:
            s = s.expand()
        elif how == 2:
            import sympy as sp

            try:
                m = self.model.diff(m, self.sym(idx[0])[1])
            except LookupError:
                return
            s = s.diff(sp.Symbol(SYMS[idx[0] % 3]))
        elif how == 3:
            import sympy as sp

            name = SYMS[idx[0] % 3]
            m = self.st.subst(m, {self.cas.sym(name): self.cas.int(2)})
            s = s.subs(sp.Symbol(name), 2)
        try:
            e = self.sc.Expr.from_sympy(s)
        except NotImplementedError:
            self.rec.label("SymPy made something that is not supported")
            return
        self.push(["sympy and back", "expanded by sympy", "differentiated by sympy",
                   "2 put in by sympy"][how], e, m)

    def do_text(self, p, idx):
        """The printed form, read as Python."""
        if self.st.tree_size(p.t) > 400:
            return
        sc = self.sc
        text = re.sub(r"(?<![\w.])(\d+)", r"I(\1)", str(p.e))
        names = {"I": sc.Integer, "sin": sc.sin, "cos": sc.cos}
        names.update((s, sc.Symbol(s)) for s in SYMS)
        try:
            e = eval(text, {"__builtins__": {}}, names)  # noqa: S307
        except Exception as err:
            fail(f"after {self.path()}: the printed form {str(p.e)!r} is not Python: {err!r}")
        self.push("printed and read", e, p.m)

    def do_part(self, p, idx):
        """A part of the expression, found through head and args."""
        e, t = p.e, p.t
        for k in idx:
            ks = self.st.kids[t]
            if len(ks) < 2:
                break
            j = k % (len(ks) - 1)
            ensure(len(e.args) == len(ks) - 1, "args of %s after %s", short(e), self.path())
            self.cas.same(e.head, ks[0], f"head after {self.path()}")
            e, t = e.args[j], ks[1 + j]
        self.push("part", e, t, t, changed=False)

    def do_inner(self, p, idx):
        """A part replaced by another of the same meaning."""
        subs = sorted(self.st.reach(p.t))
        t = subs[idx[-1] % len(subs)]
        if self.st.is_atom(t):
            return
        e = self.cas.expr(t)
        if idx[0] % 2:
            r = self.st.bin_expand(t, self.cas.assoc)
            new = e.bin_expand()
        else:
            r = self.cas.node(self.cas.Add, t, self.cas.int(0))
            new = e + 0
        self.push("part replaced", p.e.xreplace({e: new}), p.m, self.st.subst(p.t, {t: r}))

    # -- matrices ----------------------------------------------------------

    def do_matrix(self, p, idx):
        n, m = 1 + idx[0] % 3, 1 + idx[-1] % 3
        its = [pick(self.pool, idx[k % len(idx)] + k) for k in range(n * m)]
        rows = [its[i * m:(i + 1) * m] for i in range(n)]
        self.push_table("Matrix", self.sc.Matrix([[q.e for q in r] for r in rows]),
                        [[q.m for q in r] for r in rows], [[q.t for q in r] for r in rows])

    def do_matadd(self, A, idx):
        same = [B for B in self.tables if B.M.shape == A.M.shape]
        B = pick(same, idx[-1])
        means = [[self.cas.node(self.cas.Add, m, n) for m, n in zip(r, s)]
                 for r, s in zip(A.means, B.means)]
        self.push_table("sum of matrices", A.M + B.M, means)

    def do_matdiff(self, A, idx):
        e, v = self.sym(idx[-1])
        try:
            means = [[self.model.diff(m, v) for m in r] for r in A.means]
        except LookupError:
            return
        self.push_table("derivative of a matrix", A.M.diff(e), means)

    def do_matsympy(self, A, idx):
        if not all(self.sympify(t) for r in A.rows for t in r):
            return
        s = A.M.to_sympy()
        means = A.means
        if idx[-1] % 3 == 1:
            s = s.T
            means = [list(c) for c in zip(*means)]
        try:
            M = self.sc.Matrix.from_sympy(s)
        except NotImplementedError:
            self.rec.label("SymPy made something that is not supported")
            return
        self.push_table("matrix to sympy and back", M, means)

    def do_matlist(self, A, idx):
        rows = A.M.tolist()
        if idx[-1] % 2:
            self.push_table("tolist, transposed", self.sc.Matrix([list(c) for c in zip(*rows)]),
                            [list(c) for c in zip(*A.means)], [list(c) for c in zip(*A.rows)])
        else:
            self.push_table("tolist", self.sc.Matrix(rows), A.means, A.rows)

    def do_entry(self, A, idx):
        n, m = A.M.shape
        i, j = idx[0] % n, idx[-1] % m
        self.push("entry", A.M[i, j], A.means[i][j], A.rows[i][j])

    # -- ends --------------------------------------------------------------

    def do_eval(self, p, idx):
        values = {self.cas.sym(s): v for s, v in self.floats.items()}
        ref = NumEval(self.cas, values)(p.t)
        if ref is None:
            return
        g = p.e.eval_f64({self.sc.Symbol(s): v for s, v in self.floats.items()})
        if not agrees(g, ref):
            fail(f"after {self.path()}: eval_f64 of {self.cas.show(p.t)} at {self.floats} "
                 f"gave {describe(g, ref)}")
        self.meant(g, ref, p, "eval_f64")

    def meant(self, g, ref, p, what):
        """The number found is also the number meant."""
        v = self.value(p.m)
        if v is None or CTX.im(v) or not tight(ref):
            return
        self.rec.label(what + " at the end")
        if abs(CTX.mpf(g) - v) > ref[1] + abs(v) * CTX.mpf(10) ** -10 + CTX.mpf(10) ** -10:
            # the points differ by the rounding of the values of symbols
            w = self.value(p.t)
            if w is not None and abs(w - v) > CTX.mpf(10) ** -30 * (1 + abs(v)):
                fail(f"after {self.path()}: {what} gave {g!r} for {self.cas.show(p.t)}, "
                     f"which should mean {CTX.nstr(v, 15)}")

    def do_mp(self, p, idx):
        """A user's evaluator with many digits."""
        from protosym.core.sym import PyFunc1, PyOp1, PyOp2, PyOpN, star

        sc = self.sc
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        want = self.value(p.t)
        if want is None or CTX.im(want):
            return
        ev = sc.Expr.new_evaluator("mp", object)
        ev[sc.Integer[a]] = PyFunc1(CTX.mpf)(a)
        ev[sc.Add(star(a))] = PyOpN(lambda v: sum(v, CTX.mpf(0)))(a)
        ev[sc.Mul(star(a))] = PyOpN(CTX.fprod)(a)
        ev[sc.sin(a)] = PyOp1(CTX.sin)(a)
        ev[sc.cos(a)] = PyOp1(CTX.cos)(a)
        ev[a**b] = PyOp2(lambda x, y: x ** int(y) if y == int(y) else x**y)(a, b)
        got = ev(p.e, {sc.Symbol(s): v for s, v in self.vals.items()})
        if not close(got, want):
            fail(f"after {self.path()}: a user's evaluator gave {CTX.nstr(got, 15)} for "
                 f"{self.cas.show(p.t)}, of value {CTX.nstr(want, 15)}")
        self.rec.label("own evaluator at the end")

    def do_compile(self, p, idx):
        args = [SYMS[(k + idx[-1]) % 3] for k in range(3)]
        values = {self.cas.sym(s): v for s, v in self.floats.items()}
        ref = NumEval(self.cas, values, True, 8)(p.t)
        f = self.sc.lambdify([self.sc.Symbol(s) for s in args], p.e)
        g = f(*[self.floats[s] for s in args])
        if ref is None:
            return
        if not agrees(g, ref):
            fail(f"after {self.path()}: the compiled function of {args} for "
                 f"{self.cas.show(p.t)} at {self.floats} gave {describe(g, ref)}")
        self.meant(g, ref, p, "compiled")

    def do_matcompile(self, A, idx):
        args = [SYMS[(k + idx[-1]) % 3] for k in range(3)]
        values = {self.cas.sym(s): v for s, v in self.floats.items()}
        f = self.sc.lambdify([self.sc.Symbol(s) for s in args], A.M)
        g = f(*[self.floats[s] for s in args])
        ensure(g.shape == A.M.shape, "the array has the shape %s", g.shape)
        ev = NumEval(self.cas, values, True, 8)
        for i, r in enumerate(A.rows):
            for j, t in enumerate(r):
                ref = ev(t)
                if ref is None:
                    continue
                v = float(g[i, j])
                if not agrees(v, ref):
                    fail(f"after {self.path()}: entry {i}, {j} of the compiled matrix, for "
                         f"{self.cas.show(t)} at {self.floats}, is {describe(v, ref)}")
                self.meant(v, ref, Item(None, t, A.means[i][j]), "compiled matrix")

    def do_counts(self, p, idx):
        got = (p.e.count_ops_graph(), p.e.count_ops_tree())
        want = (self.st.graph_size(p.t), self.st.tree_size(p.t))
        ensure(got == want, "after %s: counts are %s instead of %s", self.path(), got, want)

    def do_show(self, p, idx):
        if self.st.tree_size(p.t) <= 1500:
            a, b = str(p.e), p.e.eval_latex()
            ensure(type(str.__str__(a)) is str and a == p.e.eval_repr() == repr(p.e),
                   "after %s: printed forms differ", self.path())
            ensure(b == self.cas.expr(p.t).eval_latex(), "LaTeX differs")

    def do_forget(self, p, idx):
        """Most of what was made is released."""
        import gc

        keep = 1 + idx[0] % 3
        self.pool[:] = self.pool[-keep:] + [self.pool[0]]
        del self.tables[:-1]
        self.cas.bridge.forget()
        if idx[-1] % 4 == 0:
            gc.collect(1)


def run(case, rec):
    r = Run(case, rec)
    for op, idx in case["prog"]["cmds"]:
        r.step(op, idx)
    r.done.clear()
    ops = []
    for op, idx in case["steps"]:
        if op == "again":
            if not ops:
                continue
            op = pick(ops, idx[-1])
        ops.append(op)
        r.step(op, idx)
        rec.label(op if op not in BUILD else "build")
    # whatever came out is fit for every end
    p = r.pool[-1]
    for end in ("eval", "mp", "counts", "show"):
        r.step(end, [0])
    if len(r.done) % 4 == 0:
        r.do_compile(p, [0])
    if r.tables and len(r.done) % 3 == 0:
        r.do_matcompile(r.tables[-1], [0])


SUBS = [
    Sub(
        "pipelines",
        _strategy,
        run,
        quick=9000,
        thorough=150000,
        rule="pipelines of up to 14 steps: building, derivatives (simplecas's and an own "
        "differentiator), expansion, substitution, prepared functions applied to their own "
        "results, transformers, SymPy and back (also expanded, differentiated and substituted "
        "there), printing and reading, parts, replaced parts, matrices and their entries, "
        "release of everything else; every result keeps the meaning given by the textbook, and "
        "ends in eval_f64, an own evaluator of many digits, compiled functions, counts; "
        "non-trivial = a result of four or more parts after three or more steps",
    ),
    Sub(
        "chains",
        _strategy_chains,
        run,
        quick=10000,
        thorough=80000,
        rule="two to five steps as above, each on the newest result, from one expression with "
        "sums and products of three operands; non-trivial = a result of four or more parts "
        "after three or more steps",
    ),
]

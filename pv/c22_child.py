"""One process of the C22 check: python -m pv.c22_child

Reads cases as lines of JSON and answers each with one line: the outputs of
the program of the case, computed in a fork of this process after some noise.
"""

from __future__ import annotations

import json
import os
import random
import sys
import traceback

KEEP = []


def noise(cas, spec, prog):
    """Unrelated (and related) allocations before the program runs."""
    seed, amount, mode = spec
    rnd = random.Random(seed)
    sc = cas.sc
    names = ["x", "y", "z", "t", "u", "v", "f", "g", "sin", "Add"]
    junk = []
    for _ in range(amount):
        k = rnd.randrange(6)
        if k == 0:
            junk.append(object())
        elif k == 1:
            junk.append(sc.Symbol(rnd.choice(names) + str(rnd.randrange(50))))
        elif k == 2:
            junk.append(sc.Integer(rnd.randrange(-1000, 1000)))
        elif k == 3 and junk:
            a = rnd.choice(junk)
            if isinstance(a, sc.Expr):
                junk.append(a + rnd.randrange(5))
        elif k == 4:
            junk.append(bytearray(rnd.randrange(1, 400)))
        else:
            junk.append(sc.Function(rnd.choice(names))(sc.Symbol(rnd.choice(names))))
    # make the parts of the program beforehand, in another order
    if mode % 4:
        from .build import terms

        pool = terms(cas, prog)
        todo = sorted({s for t in pool for s in cas.store.reach(t, heads=True)})
        if mode % 4 == 1:
            todo = [s for s in todo if cas.store.is_atom(s)]
        rnd.shuffle(todo)
        for s in todo[: rnd.randrange(len(todo)) + 1]:
            junk.append(bytearray(rnd.randrange(1, 200)))
            KEEP.append(cas.bridge.build(s))
            KEEP.append(cas.expr(s))
    if mode % 3 == 0:
        KEEP.extend(junk)
    elif mode % 3 == 1:
        KEEP.extend(a for a in junk if rnd.randrange(2))
    if mode % 5 == 0:
        for e in [a for a in KEEP if isinstance(a, sc.Expr)][-20:]:
            try:
                str(e)
                e.xreplace({sc.Symbol("x"): sc.Symbol("y")})
                e.diff(sc.Symbol("x"))
            except Exception:  # noqa: only noise
                pass


def tr(t):
    return str(t)


def outputs(cas, case):
    """[[what, text], ...]"""
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.tree import (
        SubsFunc,
        forward_graph,
        topological_sort,
        topological_split,
    )

    from .build import pick, reals

    sc = cas.sc
    out = []
    pool = reals(cas, case["prog"])

    def put(what, call):
        try:
            res = call()
        except Exception as e:  # noqa: the kind of failure must be the same too
            res = f"{type(e).__name__}: {e}"
        out.append([what, res if isinstance(res, str) else repr(res)])

    syms = [sc.Symbol(s) for s in ("x", "y", "z")]

    def compiles(p):
        try:
            return bool(p.to_llvm_ir(syms))
        except Exception:  # noqa
            return False

    for step in case["steps"]:
        op, i, j, k = step
        e = pick(pool, i)
        a, b = pick(pool, j), pick(pool, k)
        t = e.rep
        if op == "print":
            put("repr", lambda: repr(e))
            put("str", lambda: str(e))
            put("str of the tree", lambda: str(t))
            put("repr of the tree", lambda: repr(t))
            put("latex", lambda: e._repr_latex_())
            put("eval_latex", lambda: e.eval_latex())
            put("head and args", lambda: repr((e.head, e.args)) if t.children else "")
        elif op == "sort":
            for h in (False, True):
                put("topological_sort", lambda: [
                    tr(s) for s in topological_sort(t, heads=h)])
                put("topological_sort exclude", lambda: [
                    tr(s) for s in topological_sort(t, heads=h, exclude={a.rep, b.rep})])
        elif op == "split":
            def split():
                x, h, n = topological_split(t)
                return [[tr(s) for s in x], sorted(tr(s) for s in h), [tr(s) for s in n]]
            put("topological_split", split)
        elif op == "graph":
            def graph():
                g = forward_graph(t)
                return [[tr(s) for s in g.atoms], sorted(tr(s) for s in g.heads),
                        [[tr(h), x] for h, x in g.operations]]
            put("forward_graph", graph)
        elif op == "subs":
            def subs():
                f = SubsFunc(t, [a.rep, b.rep] if a is not b else [a.rep])
                r = [pick(pool, k + 1).rep, pick(pool, j + 2).rep][: f.nargs]
                return [tr(f(*r)), tr(f(*r[::-1]))]
            put("SubsFunc", subs)
        elif op == "xreplace":
            put("xreplace", lambda: e.xreplace({a: b, b: pick(pool, k + 1)}))
        elif op == "function":
            put("as_function", lambda: e.as_function(*syms[: 1 + j % 3])(
                *[pick(pool, k + n) for n in range(1 + j % 3)]))
        elif op == "diff":
            put("diff", lambda: e.diff(syms[j % 3], 1 + (k % 5 == 0)))
        elif op == "expand":
            put("bin_expand", lambda: e.bin_expand())
            put("bin_expand tree", lambda: tr(e.bin_expand().rep))
        elif op == "count":
            put("count_ops_tree", lambda: e.count_ops_tree())
            put("count_ops_graph", lambda: e.count_ops_graph())
        elif op == "f64":
            vals = [0.3 + j, -1.7 * k, 0.1 * (j - k)]
            put("eval_f64", lambda: e.eval_f64(dict(zip(syms, vals))).hex())
        elif op == "trace":
            def trace():
                log = []
                ev = Evaluator()

                def operation(h, args):
                    log.append(f"{h}{args}")
                    return len(log)

                def atom(s):
                    log.append(str(s))
                    return len(log)

                ev.add_op_generic(operation)
                ev.add_atom_generic(atom)
                return [ev(t, {a.rep: "value"}), log]
            put("order of rule calls", trace)
        elif op == "transform":
            def transform():
                log = []
                T = Transformer()

                def swap(args):
                    log.append(len(args))
                    return sc.Mul.rep(*args)

                T.add_opn(sc.Add.rep, swap)
                T.add_op1(sc.sin.rep, sc.cos.rep)
                return [tr(T(t)), log]
            put("Transformer", transform)
        elif op == "customdiff":
            def customdiff():
                from protosym.core.sym import SymDifferentiator

                d = SymDifferentiator(sc.Expr, zero=sc.Integer(0), one=sc.Integer(1),
                                      add=sc.Add, mul=sc.Mul)
                w, v = sc.Expr.new_wild("w"), sc.Expr.new_wild("v")
                f = sc.Function("f")
                d[sc.sin(w), w] = f(w)
                d[w**v, w] = v * w
                d[w**v, v] = f(v, w)
                d[f(w), w] = sc.cos(w)
                d[f(w, v), w] = f(v)
                d[f(w, v), v] = f(f(v), w)
                d.add_distributive_rule(sc.List)
                d.add_distributive_rule(sc.Function("g"))
                return [d(e, syms[j % 3]), d(e, syms[k % 3], 2)]
            put("custom differentiation", customdiff)
        elif op == "ir":
            n = 1 + j % 3
            put("to_llvm_ir", lambda: e.to_llvm_ir((syms * 2)[k % 3:][:n]
                                                   if k % 4 == 0 else syms))
        elif op in ("matrix", "matrixir"):
            def rows(n):
                return [[pick(pool, i + n), 0, pick(pool, j + n)],
                        [pick(pool, k + n), pick(pool, i), pick(pool, j)]]
            def large(n):
                ps = [p for p in pool if compiles(p)] if op == "matrixir" else pool
                ps = ps or syms
                return [[pick(ps, i + n + r * 3 + c) * [*syms, r, c - 7][(r + c * k) % 5]
                         if (r * c + j) % 6 else 0 for c in range(6)] for r in range(5)]
            if k % 3 == 2:
                rows = large
            M = sc.Matrix(rows(0))
            if op == "matrix":
                put("Matrix", lambda: repr(M))
                put("Matrix sum", lambda: repr((M + sc.Matrix(rows(1))).tolist()))
                put("Matrix.diff", lambda: repr(M.diff(syms[k % 3]).tolist()))
            else:
                put("Matrix.to_llvm_ir", lambda: M.to_llvm_ir(syms))
        elif op == "lambdify":
            vals = [0.3 + j, -1.7 * k, 0.1 * (j - k)]
            put("lambdify", lambda: sc.lambdify(syms, e)(*vals).hex())
            put("lambdify of a matrix", lambda: [
                v.hex() for v in sc.lambdify(
                    syms, sc.Matrix([[e, a]]))(*vals).flatten().tolist()])
        else:
            raise ValueError(op)
    return out


def answer(line):
    from . import steps
    from .base import StepBudgetExceeded
    from .model import Cas

    index, case = json.loads(line)
    try:
        cas = Cas()
        noise(cas, case["noise"][index], case["prog"])
        steps.begin(3_000_000)
        try:
            res = {"out": outputs(cas, case)}
        except StepBudgetExceeded:
            res = {"out": [["budget", "step budget exceeded"]]}
        finally:
            steps.end()
    except BaseException:  # noqa
        res = {"error": traceback.format_exc()[-2000:]}
    return json.dumps(res)


def main():
    from . import boot, steps

    sys.setrecursionlimit(1000)
    boot.boot()
    import protosym.simplecas  # noqa

    try:
        import llvmlite.binding  # noqa
        import numpy  # noqa
    except ImportError:
        pass
    steps.install()
    os.write(1, b"ready\n")
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            data = answer(line).encode() + b"\n"
            while data:
                data = data[os.write(1, data):]
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            os.write(1, (json.dumps({"error": f"child ended with {status}"}) + "\n").encode())


if __name__ == "__main__":
    main()

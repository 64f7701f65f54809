"""Interpret programs: the model term and the real Expr, side by side."""

from __future__ import annotations


def pick(pool, i):
    return pool[len(pool) - 1 - (i % len(pool))]


WIDTHS = [5, 16, 33, 6, 8, 9, 65, 12, 17, 24, 40, 7, 64, 80, 101, 130]
MIDDLE = [5, 6, 7, 8, 9, 10, 12]


def wide_args(op, idx, pool):
    """Operands of a very wide call: entries of the pool and small integers.

    The number of operands comes from the last index; a None stands for the
    integer given with it.
    """
    table = MIDDLE if op.startswith("mid") else WIDTHS
    n = table[idx[-1] % len(table)]
    m = len(idx)
    out = []
    for k in range(n):
        if (idx[0] + k) % 3 == 2 and n > 5:
            out.append((None, k // 3 - 2))
        else:
            out.append((pick(pool, idx[k % m] + k // m), 0))
    return out


BIG = [
    129, 201, 257, 300, 150, 513, 400, 1001, 250, 1025, 200, 255, 256, 333, 500, 511, 512, 600,
    700, 800, 999, 1000, 1023, 1024, 1100, 1300, 1500, 2000, 2047, 2048, 2049, 2500,
]


def big(idx):
    """A large number, the smaller ones more often."""
    return BIG[(idx[-1] + 5 * idx[0]) % len(BIG)]


def huge_args(name, idx, pool):
    """Operands of a call of hundreds or thousands: as above, but for products units."""
    m = len(idx)
    out = []
    for k in range(big(idx)):
        if (idx[0] + k) % 3 == 2:
            out.append((None, (-1) ** (k // 3) if name == "Mul" else k // 3 - 2))
        else:
            out.append((pick(pool, idx[k % m] + k // m), 0))
    return out


def depth_of(idx):
    return WIDTHS[idx[-1] % len(WIDTHS)]


def atom_term(cas, a):
    k, v = a
    if k in cas.own:
        return cas.own_atom(k, v)
    if k == "W":
        return cas.store.atom("Wild", v)
    return {"I": cas.int, "S": cas.sym, "F": cas.fn}[k](v)


def apply_term(cas, op, idx, pool):
    """The documented meaning of op, on terms."""
    a = pick(pool, idx[0])
    b = pick(pool, idx[1 % len(idx)])
    node = cas.node
    if op == "add":
        return node(cas.Add, a, b)
    if op == "mul":
        return node(cas.Mul, a, b)
    if op == "pow":
        return node(cas.Pow, a, b)
    if op == "sub":
        return node(cas.Add, a, node(cas.Mul, cas.int(-1), b))
    if op == "div":
        return node(cas.Mul, a, node(cas.Pow, b, cas.int(-1)))
    if op == "neg":
        return node(cas.Mul, cas.int(-1), a)
    if op == "pos":
        return a
    if op == "sin":
        return node(cas.sin, a)
    if op == "cos":
        return node(cas.cos, a)
    args = [pick(pool, i) for i in idx]
    if op == "addn":
        return node(cas.Add, *args)
    if op == "muln":
        return node(cas.Mul, *args)
    if op == "list":
        return node(cas.List, *args)
    if op == "list0":
        return node(cas.List)
    if op == "ipow":  # small literal exponent
        return node(cas.Pow, a, cas.int(idx[-1] % 7 - 3))
    if op == "square":
        return node(cas.Pow, a, cas.int(2))
    if op == "inc":
        return node(cas.Add, a, cas.int(idx[-1] % 5 - 2))
    if op == "scale":
        return node(cas.Mul, cas.int(idx[-1] % 7 - 3), a)
    if op.startswith("call0:"):
        return node(cas.fn(op[6:]))
    if op.startswith("call1:"):
        return node(cas.fn(op[6:]), a)
    if op.startswith("call2:"):
        return node(cas.fn(op[6:]), a, b)
    if op.startswith("calln:"):
        return node(cas.fn(op[6:]), *args)
    if op == "apply":  # any expression as head
        return node(*args) if len(args) > 1 else node(a, a)
    if op == "symcall":
        return node(a)
    if op.startswith("headsym:"):  # a symbol as head
        return node(cas.sym(op[8:]), *args)
    if op.startswith("headown:"):  # a function of another kind as head
        return node(cas.own_atom("G", op[8:]), *args)
    kind, _, name = op.partition(":")
    if kind in ("wide", "mid"):
        ops = [cas.int(i) if t is None else t for t, i in wide_args(op, idx, pool)]
        return node(cas.fn(name), *ops)
    if op == "huge:=":  # applied to itself, many times
        return node(*[a] * big(idx))
    if kind == "huge":
        ops = [cas.int(i) if t is None else t for t, i in huge_args(name, idx, pool)]
        return node(cas.fn(name), *ops)
    if kind == "row":  # a long chain of one operator
        head = cas.fn(name)
        for t, i in huge_args(name, idx, pool):
            a = node(head, a, cas.int(i) if t is None else t)
        return a
    if kind in ("deep", "tower"):
        head = cas.fn(name)
        for k in range(depth_of(idx) if kind == "deep" else big(idx)):
            if name == "pow":
                a = node(head, a, b) if (k + idx[0]) % 3 else node(head, b, a)
            else:
                a = node(head, a)
        return a
    raise ValueError(op)


def apply_real(cas, op, idx, pool):
    """The same through the public interface (operators and calls)."""
    sc = cas.sc
    a = pick(pool, idx[0])
    b = pick(pool, idx[1 % len(idx)])
    if op == "add":
        return a + b
    if op == "mul":
        return a * b
    if op == "pow":
        return a**b
    if op == "sub":
        return a - b
    if op == "div":
        return a / b
    if op == "neg":
        return -a
    if op == "pos":
        return +a
    if op == "sin":
        return sc.sin(a)
    if op == "cos":
        return sc.cos(a)
    args = [pick(pool, i) for i in idx]
    if op == "addn":
        return sc.Add(*args)
    if op == "muln":
        return sc.Mul(*args)
    if op == "list":
        return sc.List(*args)
    if op == "list0":
        return sc.List()
    if op == "ipow":
        return a ** (idx[-1] % 7 - 3)
    if op == "square":
        return a**2
    if op == "inc":
        return a + (idx[-1] % 5 - 2)
    if op == "scale":
        return (idx[-1] % 7 - 3) * a
    if op.startswith("call0:"):
        return sc.Function(op[6:])()
    if op.startswith("call1:"):
        return sc.Function(op[6:])(a)
    if op.startswith("call2:"):
        return sc.Function(op[6:])(a, b)
    if op.startswith("calln:"):
        return sc.Function(op[6:])(*args)
    if op == "apply":
        return args[0](*args[1:]) if len(args) > 1 else a(a)
    if op == "symcall":
        return a()
    if op.startswith("headsym:"):
        return sc.Symbol(op[8:])(*args)
    if op.startswith("headown:"):
        return cas.own["G"](op[8:])(*args)
    kind, _, name = op.partition(":")
    if kind in ("wide", "mid"):
        ops = [sc.Integer(i) if t is None else t for t, i in wide_args(op, idx, pool)]
        return sc.Function(name)(*ops)
    if op == "huge:=":
        return a(*[a] * (big(idx) - 1))
    if kind == "huge":
        ops = [sc.Integer(i) if t is None else t for t, i in huge_args(name, idx, pool)]
        return sc.Function(name)(*ops)
    if kind == "row":
        for t, i in huge_args(name, idx, pool):
            o = i if t is None else t
            a = a + o if name == "Add" else a * o
        return a
    if kind in ("deep", "tower"):
        head = sc.Function(name)
        for k in range(depth_of(idx) if kind == "deep" else big(idx)):
            if name == "pow":
                a = head(a, b) if (k + idx[0]) % 3 else head(b, a)
            else:
                a = head(a)
        return a
    raise ValueError(op)


def atom_real(cas, a):
    k, v = a
    sc = cas.sc
    if k in cas.own:
        return cas.own[k](v)
    if k == "W":
        return sc.Expr.new_wild(v)
    return {"I": sc.Integer, "S": sc.Symbol, "F": sc.Function}[k](v)


def terms(cas, prog):
    """The pool of terms of a program."""
    pool = [atom_term(cas, a) for a in prog["atoms"]]
    for op, idx in prog["cmds"]:
        pool.append(apply_term(cas, op, idx, pool))
    return pool


def reals(cas, prog):
    """The pool of real expressions of a program, via the public interface."""
    pool = [atom_real(cas, a) for a in prog["atoms"]]
    for op, idx in prog["cmds"]:
        pool.append(apply_real(cas, op, idx, pool))
    return pool

"""C14: printed forms read back as the expression printed."""

from __future__ import annotations

import datetime
import re
import sys
from decimal import Decimal
from fractions import Fraction

from . import places
from .base import Sub, ensure, fail, short
from .build import atom_term, pick, reals, terms
from .model import Bridge, Cas, Store

OPS = [
    "add", "mul", "pow", "pow", "neg", "sub", "div", "sin", "cos", "addn", "muln", "ipow",
    "ipow", "call:", "call:", "call:", "list", "list0", "pow", "neg", "wide:Add", "wide:Mul",
    "wide:f", "wide:List", "deep:f", "deep:pow",
]
BIG = 30000
RESERVED = {"sin", "cos", "pow", "Add", "Mul", "List"}

TOKEN = re.compile(r"\s*(?:(\*\*)|([-+*(),])|(\d+)|([^\W\d]\w*))")


class Unreadable(Exception):
    pass


def tokens(text):
    out = []
    i = 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if m is None:
            raise Unreadable(f"cannot read {text[i:i + 20]!r}")
        if m.group(3):
            out.append(("int", m.group(3)))
        elif m.group(4):
            out.append(("name", m.group(4)))
        else:
            out.append(("op", m.group(1) or m.group(2)))
        i = m.end()
    out.append(("end", ""))
    return out


class Reader:
    """Python operator syntax: + - * ** calls brackets integers names."""

    def __init__(self, text, cas, bare=()):
        self.toks = tokens(text)
        self.i = 0
        self.cas = cas
        self.bare = dict(bare)  # names that stand for something else than a symbol

    def peek(self, *ops):
        kind, v = self.toks[self.i]
        return kind == "op" and v in ops

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def need(self, op):
        if not self.peek(op):
            raise Unreadable(f"expected {op!r} but found {self.toks[self.i][1]!r}")
        self.i += 1

    def read(self):
        t = self.sum()
        if self.toks[self.i][0] != "end":
            raise Unreadable(f"unexpected {self.toks[self.i][1]!r}")
        return t

    def sum(self):
        cas = self.cas
        t = self.product()
        while self.peek("+", "-"):
            _, op = self.next()
            r = self.product()
            if op == "-":
                r = cas.node(cas.Mul, cas.int(-1), r)
            t = cas.node(cas.Add, t, r)
        return t

    def product(self):
        cas = self.cas
        t = self.unary()
        while self.peek("*"):
            self.next()
            t = cas.node(cas.Mul, t, self.unary())
        return t

    def unary(self):
        cas = self.cas
        if self.peek("-"):
            self.next()
            kind, _ = self.toks[self.i]
            plain = self.toks[self.i + 1] != ("op", "**") if kind == "int" else False
            t = self.unary()
            if kind == "int" and plain and cas.is_int(t) and cas.store.value[t] > 0:
                return cas.int(-cas.store.value[t])
            return cas.node(cas.Mul, cas.int(-1), t)
        return self.power()

    def power(self):
        cas = self.cas
        t = self.primary()
        if self.peek("**"):
            self.next()
            return cas.node(cas.Pow, t, self.unary())
        return t

    def primary(self):
        cas = self.cas
        kind, v = self.next()
        if kind == "int":
            return cas.int(int(v))
        if kind == "name":
            if self.peek("("):
                self.next()
                args = []
                if not self.peek(")"):
                    args.append(self.sum())
                    while self.peek(","):
                        self.next()
                        args.append(self.sum())
                self.need(")")
                return cas.node(cas.fn(v), *args)
            return self.bare[v] if v in self.bare else cas.sym(v)
        if (kind, v) == ("op", "("):
            t = self.sum()
            self.need(")")
            return t
        raise Unreadable(f"unexpected {v!r}")


def names():
    from hypothesis import strategies as st

    plain = st.sampled_from(["x", "y", "z", "x1", "_t", "alpha", "e1", "E", "I", "theta_0",
                             "xx", "xy", "sin", "Add", "f", "é", "Ω"])
    rnd = st.text("abcxyz_019XΩ", min_size=1, max_size=6).filter(str.isidentifier)
    return st.one_of(plain, plain, rnd)


def fnames():
    from hypothesis import strategies as st

    plain = st.sampled_from(["f", "g", "h", "F1", "_g", "x", "log", "Pow", "matrix", "sinc"])
    rnd = st.text("fghxyz_019F", min_size=1, max_size=6).filter(
        lambda s: s.isidentifier() and s not in RESERVED)
    return st.one_of(plain, plain, rnd)


def expressions(ops=OPS, max_cmds=12, bare="FTW"):
    from hypothesis import strategies as st

    from . import gen

    ints = st.one_of(st.integers(-3, 3), gen.any_ints)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(ops, atoms=gen.atom(ints=ints, syms=names()),
                                max_cmds=max_cmds),
            "funs": st.lists(fnames(), min_size=1, max_size=3),
            "arity": st.integers(0, 5),
            "bare": st.one_of(st.just([]), st.just([]), st.lists(
                st.tuples(st.sampled_from(bare), st.sampled_from(
                    ["sin", "cos", "pow", "Add", "Mul", "List", "f", "g", "F1", "a", "qq"])
                ).map(list), max_size=2, unique_by=lambda a: a[1])),
        }
    )


def large_expressions(bare="FTW"):
    from hypothesis import strategies as st

    from . import gen

    long = st.tuples(st.sampled_from(["x", "a1_", "abcdefghij", "\u03a9"]), st.integers(9, 120),
                     names()).map(lambda t: t[0] * t[1] + t[2])
    ints = st.one_of(gen.small_ints, st.tuples(
        st.integers(1, 9), st.integers(30, 2000), st.integers(-9, 9)).map(
            lambda t: t[0] * 10 ** t[1] + t[2] - (t[0] % 2) * 10 ** (t[1] + 1)))
    return st.fixed_dictionaries(
        {
            "prog": gen.large(
                ["Add", "Mul", "f", "List"], towers=("sin", "f", "pow"),
                rest=["add", "mul", "pow", "ipow", "neg", "sub", "sin", "call:"],
                atoms=gen.atom(ints=ints, syms=st.one_of(names(), long))),
            "funs": st.lists(st.one_of(fnames(), long.filter(
                lambda s: s not in RESERVED)), min_size=1, max_size=3),
            "arity": st.integers(0, 5),
            "bare": st.just([]),
            "large": st.just(True),
        }
    )


class deep_reader:
    """The readers are recursive."""

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(40000)

    def __exit__(self, *exc):
        sys.setrecursionlimit(self.old)


def fits(st, t, case, rec):
    """Small enough to print."""
    size = st.tree_size(t)
    if size <= 3000 and st.depth(t) <= 120:
        return True
    if size <= 12000 and case.get("large"):
        return True
    rec.label("skipped: too large to print")
    return False


def bare_atoms(case, cas):
    """Functions, wildcards and atoms of an own kind among the atoms, by name."""
    syms = {v for k, v in case["prog"]["atoms"] if k == "S"}
    atoms = [a for a in case.get("bare", ()) if a[1] not in syms]
    return atoms, {v: atom_term(cas, [k, v]) for k, v in atoms}


def concrete(case, extra=()):
    """The program with names filled in for the calls."""
    cmds = []
    for op, idx in case["prog"]["cmds"]:
        if op == "call:":
            name = pick(case["funs"], sum(idx))
            op = "call0:" if (idx[-1] + case["arity"]) % 7 == 0 else "calln:"
            op += name
        cmds.append([op, idx])
    return {"atoms": [*case["prog"]["atoms"], *extra], "cmds": cmds}


def _strategy():
    return expressions()


def run(case, rec):
    cas = Cas()
    st = cas.store
    extra, bare = bare_atoms(case, cas)
    prog = concrete(case, extra)
    T, R = terms(cas, prog), reals(cas, prog)
    texts = {}
    for t, e in dict(zip(T, R)).items():
        if not fits(st, t, case, rec):
            continue
        text = repr(e)
        ensure(str(e) == text and e.eval_repr() == text and f"{e}" == text,
               "str, repr and eval_repr of %s differ", cas.show(t))
        if type(text) is not str:
            # a str subclass is fine as long as it is a str
            ensure(isinstance(text, str), "repr is %s", short(text))
        try:
            with deep_reader():
                got = Reader(text, cas, bare).read()
        except Unreadable as err:
            fail(f"printed form of {cas.show(t)} is unreadable: {text!r}: {err}")
        want = st.bin_expand(t, cas.assoc)
        if got != want:
            fail(f"{cas.show(t)} prints as {text!r}, which reads as {cas.show(got)}")
        other = texts.setdefault(text, want)
        ensure(other == want, "different expressions print as %s", text)
        if st.graph_size(t) >= 4:
            rec.hit()
            if any(b in st.reach(t) for b in bare.values()):
                rec.label("with a bare function or other atom")
        for s in st.reach(t):
            ks = st.kids[s]
            if ks and ks[0] == cas.Pow:
                rec.label("base: " + kind_of(cas, ks[1]), "exponent: " + kind_of(cas, ks[2]))
            elif ks and ks[0] in cas.assoc:
                rec.label(*("operand: " + kind_of(cas, k) for k in ks[1:]))


def kind_of(cas, t):
    st = cas.store
    if not st.kids[t]:
        return ("negative integer" if cas.is_int(t) and st.value[t] < 0 else
                "integer" if cas.is_int(t) else "symbol")
    return {cas.Pow: "power", cas.Add: "sum", cas.Mul: "product"}.get(st.kids[t][0], "call")


# -- core trees: call syntax and raw representations ----------------------------


#: values of further types whose raw forms evaluate back to them
VALUES = {
    "fraction": lambda i, j: Fraction(i, j),
    "decimal": lambda i, j: Decimal(i) / (10 ** j) if i else Decimal(1) / 4,
    "complex": lambda i, j: complex(i, j),
    "bool": lambda i, j: i > 0,
    "none": lambda i, j: None,
    "ellipsis": lambda i, j: ...,
    "bytes": lambda i, j: bytes([j, 39, 92]) * (i % 3),
    "tuple": lambda i, j: (i, str(j), (Fraction(i, j),) * (i % 3)),
    "frozenset": lambda i, j: frozenset([i, Fraction(1, 7)][:j % 3]),
    "range": lambda i, j: range(i, i + j),
    "date": lambda i, j: datetime.date(2000 + i, j, j + 3),
    "delta": lambda i, j: datetime.timedelta(i, j),
    "text": lambda i, j: "%d/%d" % (i, j),
    "kind": lambda i, j: "Integer(%d)" % i,
}


def value_of(v):
    return VALUES[v[0]](v[1], v[2]) if isinstance(v, list) else v


def _strategy_core():
    from hypothesis import strategies as st

    from . import gen

    val = st.one_of(
        st.integers(-5, 5), gen.any_ints,
        st.text(max_size=6), st.text("ab'\"\\\n{}(), \u00e9\u2028\x00", max_size=6),
        st.floats(allow_nan=False, allow_infinity=False).filter(lambda v: v != 0),
        st.tuples(st.sampled_from(sorted(VALUES)), st.integers(-9, 9), st.integers(1, 9))
        .map(list),
    )
    kind = st.sampled_from(["Integer", "Symbol", "Function", "Real", "Thing", "K1"])
    atom = st.tuples(kind, val).map(list)
    return st.fixed_dictionaries(
        {
            "atoms": st.lists(atom, min_size=1, max_size=5),
            "shape": st.lists(
                st.lists(st.one_of(st.integers(0, 3), st.integers(0, 15)), min_size=1,
                         max_size=4),
                max_size=10),
            "names": st.lists(names(), min_size=1, max_size=5),
        }
    )


def run_core(case, rec):
    from protosym.core.atom import Atom, AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import Tr, Tree

    store = Store()
    kinds = {k: AtomType(k, object) for k in
             ["Integer", "Symbol", "Function", "Real", "Thing", "K1"]}
    br = Bridge(store, kinds)
    pool = [store.atom(k, value_of(v)) for k, v in case["atoms"]]
    for idx in case["shape"]:
        pool.append(store.node(*[pick(pool, i) for i in idx]))
    space = {"Tree": Tree, "Tr": Tr, "Sym": Sym, "Fraction": Fraction, "Decimal": Decimal,
             "datetime": datetime, **kinds}
    for t in pool:
        if store.tree_size(t) > 400 or store.depth(t) > 40:
            continue
        tree = br.build(t)
        text = repr(tree)
        try:
            back = eval(text, dict(space))  # noqa: S307
        except (SyntaxError, NameError, TypeError, ValueError) as err:
            fail(f"raw form {text!r} does not evaluate: {err}")
        ensure(back is tree, "raw form %s evaluates to another object", text)
        s = Sym(tree)
        back = eval(repr(s), dict(space))  # noqa: S307
        ensure(back is s, "raw form %s of a Sym evaluates to another object", repr(s))
        if store.is_atom(t):
            a = tree.value
            ensure(isinstance(a, Atom) and eval(repr(a), dict(space)) is a,
                   "raw form %s of an atom evaluates to another object", repr(a))
            ensure(str(a) == str(a.value) and str(tree) == str(a.value),
                   "str of the atom %s", repr(a))
        else:
            rec.hit(store.depth(t) >= 3)

    # the call syntax of str() over identifier-named atoms
    ids = [store.atom("Symbol", n) for n in case["names"]]
    pool = list(ids)
    for idx in case["shape"]:
        pool.append(store.node(*[pick(pool, i) for i in idx]))
    for t in pool:
        if store.tree_size(t) > 400 or store.depth(t) > 40:
            continue
        tree = br.build(t)
        text = str(tree)
        ensure(str(Sym(tree)) == text, "str of a Sym differs from that of its tree")
        got = read_calls(text, store)
        if got != t:
            fail(f"str of {store.show(t)} is {text!r}")


def read_calls(text, store):
    toks = tokens(text)
    pos = 0

    def expr():
        nonlocal pos
        kind, v = toks[pos]
        if kind != "name":
            raise_unreadable(text)
        pos += 1
        t = store.atom("Symbol", v)
        while toks[pos] == ("op", "("):
            pos += 1
            args = []
            if toks[pos] != ("op", ")"):
                args.append(expr())
                while toks[pos] == ("op", ","):
                    pos += 1
                    args.append(expr())
            if toks[pos] != ("op", ")"):
                raise_unreadable(text)
            pos += 1
            t = store.node(t, *args)
        return t

    t = expr()
    if toks[pos][0] != "end":
        raise_unreadable(text)
    return t


def raise_unreadable(text):
    fail(f"unreadable str: {text!r}")


SUBS = [
    Sub(
        "pretty", _strategy, run, quick=9000, thorough=200000,
        rule="random shared expressions (powers of powers, negative bases, nested sums, "
        "calls of any arity, identifier names of many kinds), every subexpression of the "
        "program printed and read by an independent parser of Python operator syntax; "
        "non-trivial = an expression of at least 4 parts",
    ),
    Sub(
        "large", large_expressions, run, quick=240, thorough=6000,
        rule="calls, sums and products of 129 to 2500 operands, chains and towers of as many, "
        "names of up to 1200 letters, integers of up to 2000 digits; non-trivial as above",
    ),
    Sub(
        "raw", _strategy_core, run_core, quick=4000, thorough=80000,
        rule="random core trees (any tree as head) over atoms of 6 kinds with int, float, "
        "arbitrary text and values of 14 further types; non-trivial = nesting of at least 3",
    ),
    places.sub("printing", "tree_text"),
]

"""C15: LaTeX forms are well formed and read back unambiguously."""

from __future__ import annotations

import re

from . import c14
from . import places
from .base import Sub, ensure, fail, short
from .build import reals, terms
from .c14 import Reader, Unreadable, bare_atoms, concrete, kind_of
from .model import Cas

TOKEN = re.compile(r"\s*(?:\\(times|cdot|sin|cos|left|right)(?![A-Za-z])|([-+*(),^{}])|(\d+)|"
                   r"([^\W\d]\w*))")


class LatexReader(Reader):
    def __init__(self, text, cas, bare=()):
        self.bare = dict(bare)
        self.toks = []
        self.i = 0
        self.cas = cas
        i = 0
        depth = []
        pairs = {")": "(", "}": "{"}
        while i < len(text.rstrip()):
            m = TOKEN.match(text, i)
            if m is None:
                raise Unreadable(f"cannot read {text[i:i + 20]!r}")
            cmd, op, num, name = m.groups()
            if cmd in ("times", "cdot"):
                self.toks.append(("op", "*"))
            elif cmd in ("left", "right"):
                pass
            elif cmd:
                self.toks.append(("name", "\\" + cmd))
            elif op:
                if op in "({":
                    depth.append(op)
                elif op in ")}":
                    if not depth or depth.pop() != pairs[op]:
                        raise Unreadable(f"unbalanced {op!r} at {i}")
                self.toks.append(("op", op))
            elif num:
                self.toks.append(("int", num))
            else:
                self.toks.append(("name", name))
            i = m.end()
        if depth:
            raise Unreadable("unbalanced groups")
        self.toks.append(("end", ""))

    def unary(self):
        cas = self.cas
        if self.peek("-"):
            self.next()
            kind, _ = self.toks[self.i]
            plain = kind == "int" and self.toks[self.i + 1] != ("op", "^")
            t = self.unary()
            if plain and cas.is_int(t) and cas.store.value[t] > 0:
                return cas.int(-cas.store.value[t])
            return cas.node(cas.Mul, cas.int(-1), t)
        return self.power()

    def power(self):
        cas = self.cas
        t = self.primary()
        if self.peek("^"):
            self.next()
            self.need("{")
            e = self.sum()
            self.need("}")
            if self.peek("^"):
                raise Unreadable("double superscript")
            t = cas.node(cas.Pow, t, e)
        return t

    def primary(self):
        kind, v = self.toks[self.i]
        if kind == "name" and v.startswith("\\"):
            self.next()
            self.need("(")
            arg = self.sum()
            self.need(")")
            return self.cas.node(self.cas.fn(v[1:]), arg)
        if (kind, v) == ("op", "{"):
            self.next()
            t = self.sum()
            self.need("}")
            return t
        return super().primary()


def _strategy():
    return c14.expressions(bare="F")


def run(case, rec):
    cas = Cas()
    st = cas.store
    extra, bare = bare_atoms(case, cas)
    prog = concrete(case, extra)
    T, R = terms(cas, prog), reals(cas, prog)
    texts = {}
    for t, e in dict(zip(T, R)).items():
        if not c14.fits(st, t, case, rec):
            continue
        text = e.eval_latex()
        ensure(isinstance(text, str), "LaTeX is %s", short(text))
        ensure(e._repr_latex_() == "$" + text + "$", "_repr_latex_ of %s is %s instead of %s",
               cas.show(t), e._repr_latex_(), text)
        try:
            with c14.deep_reader():
                got = LatexReader(text, cas, bare).read()
        except Unreadable as err:
            fail(f"LaTeX of {cas.show(t)} is unreadable: {text!r}: {err}")
        want = st.bin_expand(t, cas.assoc)
        if got != want:
            fail(f"LaTeX of {cas.show(t)} is {text!r}, which reads as {cas.show(got)}")
        other = texts.setdefault(text, want)
        ensure(other == want, "different expressions have the LaTeX form %s", text)
        if st.graph_size(t) >= 4:
            rec.hit()
        for s in st.reach(t):
            ks = st.kids[s]
            if ks and ks[0] == cas.Pow:
                rec.label("base: " + kind_of(cas, ks[1]), "exponent: " + kind_of(cas, ks[2]))


SUBS = [
    Sub(
        "latex", _strategy, run, quick=9000, thorough=200000,
        rule="random shared expressions (powers of powers, negative bases, calls raised to "
        "powers, identifier names of many kinds), every subexpression of the program "
        "converted and read by an independent LaTeX parser; non-trivial = an expression "
        "of at least 4 parts",
    ),
    Sub(
        "large", c14.large_expressions, run, quick=240, thorough=6000,
        rule="calls, sums and products of 129 to 2500 operands, chains and towers of as many, "
        "names of up to 1200 letters, integers of up to 2000 digits; non-trivial as above",
    ),
    places.sub("printing"),
]

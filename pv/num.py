"""Numeric oracle: exact values with rigorous bounds on rounding errors.

Every term gets (v, e): the exact real value v of the expression (computed
with 300 bits, so its own error is negligible and is absorbed by the slack
factors) and a bound e on the absolute error that a double precision
evaluation of that tree can make, or None where the value is not real, lies at
or too near a singularity, or leaves the comfortable range of doubles.
"""

from __future__ import annotations

import mpmath
from mpmath import mpf

CTX = mpmath.mp.clone()
CTX.prec = 300
U = CTX.mpf(2) ** -53
TINY = CTX.mpf(2) ** -1000
BIG = CTX.mpf(10) ** 280
SMALL = CTX.mpf(10) ** -280
ZERO = CTX.mpf(0)
ONE = CTX.mpf(1)
SLACK = ONE + CTX.mpf(2) ** -20


def _in_range(v):
    return v == 0 or SMALL < abs(v) < BIG


def int_value(n):
    v = CTX.mpf(n)
    if not _in_range(v):
        return None
    if abs(n) <= 2**53 or int(float(n)) == n:
        return v, ZERO
    return v, U * abs(v)


def add(args, sequential):
    if sequential:
        v, e = args[0]
        for w, f in args[1:]:
            s = v + w
            e = e + f + (U * (abs(s) + e + f) if not (v == 0 == e or w == 0 == f) else 0)
            v = s
    else:
        v = CTX.fsum([a for a, _ in args])  # exact, then rounded once
        e0 = sum((f for _, f in args), ZERO)
        e = e0 + U * (abs(v) + e0)
    if not _in_range(v) or e > BIG:
        return None
    return v, e * SLACK


def mul(args):
    v, hi = ONE, ONE
    up, down = ONE, ONE
    exact_zero = False
    for a, f in args:
        v *= a
        m = abs(a) + f
        hi *= m
        if a == 0 and f == 0:
            exact_zero = True
        elif m > 1:
            up *= m
        else:
            down *= m
            if abs(a) > 2 * f:
                down *= CTX.mpf(1) / 2
    if up > BIG or (down < SMALL and not exact_zero):
        return None
    if exact_zero:
        return ZERO, ZERO
    e = hi - abs(v) + hi * ((ONE + U) ** len(args) - 1) + TINY
    if len(args) == 1:
        e = args[0][1]
    return v, e * SLACK


def power(base, exp, ulps=4, compiled=False):
    b, eb = base
    p, ep = exp
    extra = ZERO
    if ep == 0 and p == int(p) and abs(p) < 10**6:
        n = int(p)
        if abs(b) <= eb or b == 0:
            if n <= 0:
                return None
            if b == 0 and eb == 0:
                return ZERO, ZERO
            m = (abs(b) + eb) ** n
            if m > BIG:
                return None
            return b**n, (2 * m + TINY) * SLACK
        if n == 0:
            return ONE, ZERO
        if abs(b) < 4 * eb:
            return None
        v = b**n
        if not SMALL < abs(v) < BIG:
            return None
        lo, hi = (abs(b) - eb) ** n, (abs(b) + eb) ** n
        dev = max(abs(lo - abs(v)), abs(hi - abs(v)))
    else:
        if b == 0 and eb == 0:
            if p - ep > 0:
                return ZERO, ZERO
            return None
        if b < 4 * eb or b <= 0:
            return None
        lg = CTX.log(b)
        if abs(p) * abs(lg) > 640 or ep * abs(lg) > 3 or abs(p) > BIG:
            return None
        v = b**p
        dev = ZERO
        if compiled:
            # LLVM turns (2**n)**x into exp2(n*x), which rounds n*x
            extra = 2 * (abs(p) + ep) * abs(lg) * U
        if eb or ep:
            for bb in (b - eb, b + eb):
                for pp in (p - ep, p + ep):
                    dev = max(dev, abs(bb**pp - v))
    e = dev + (ulps * U + extra) * (abs(v) + dev) + TINY
    if e > BIG:
        return None
    return v, e * SLACK


def unreal(base, exp):
    """Has base**exp certainly no finite real value?"""
    b, eb = base
    p, ep = exp
    if b == 0 == eb:
        return p + ep < 0
    if b + eb >= 0:
        return False
    return ep * SLACK < abs(p - CTX.nint(p))


def trig(f, arg, ulps=4):
    a, ea = arg
    v = f(a)
    dev = min(ea, CTX.mpf(2))
    e = dev + ulps * U * (abs(v) + dev)
    if a != 0 or ea:
        e += TINY
    return v, e * SLACK


class NumEval:
    """(v, e) for terms; memoised over calls on the same assignment."""

    def __init__(self, cas, values, sequential=False, ulps=4):
        self.cas = cas
        self.st = cas.store
        self.values = values  # {symbol term: float}
        self.seq = sequential
        self.ulps = ulps
        self.memo = {}

    def __call__(self, t):
        memo, st, cas = self.memo, self.st, self.cas
        if t in memo:
            return memo[t]
        for s in sorted(st.reach(t)):
            if s not in memo:
                memo[s] = self._one(s, cas, st, memo)
        return memo[t]

    def _one(self, s, cas, st, memo):
        if st.is_atom(s):
            if s in self.values:
                return CTX.mpf(self.values[s]), ZERO
            if st.kind[s] == "Integer":
                return int_value(st.value[s])
            return None
        h, *kids = st.kids[s]
        args = [memo[k] for k in kids]
        if any(a is None for a in args):
            return None
        if h == cas.Add and args:
            return add(args, self.seq)
        if h == cas.Mul and args:
            return mul(args)
        if h == cas.Pow and len(args) == 2:
            return power(args[0], args[1], self.ulps, self.seq)
        if h == cas.sin and len(args) == 1:
            return trig(CTX.sin, args[0], self.ulps)
        if h == cas.cos and len(args) == 1:
            return trig(CTX.cos, args[0], self.ulps)
        return None


def agrees(got, ref):
    """Is the double got within the bound of ref = (v, e)?"""
    if not isinstance(got, float) or got != got or got in (float("inf"), float("-inf")):
        return False
    v, e = ref
    return abs(CTX.mpf(got) - v) <= e


def tight(ref):
    v, e = ref
    return e <= abs(v) * CTX.mpf(10) ** -6 or (v == 0 and e == 0)


def describe(got, ref):
    v, e = ref
    return (f"{got!r}, exact value {CTX.nstr(v, 20)}, "
            f"error allowed {CTX.nstr(e, 3)}")


__all__ = ["NumEval", "agrees", "tight", "describe", "mpf"]

"""Truncated Taylor series in high precision: the oracle for derivatives.

A jet is a list [c0, ..., cn] of Taylor coefficients with respect to one
variable at a point.  The value of the k-th derivative is k! * ck.  None means
"no real value, or too near a singularity to judge".
"""

from __future__ import annotations

import mpmath

CTX = mpmath.mp.clone()
CTX.prec = 450
BIG = CTX.mpf(10) ** 12
NEAR = CTX.mpf(10) ** -6
TOL = CTX.mpf(10) ** -60


def const(c, n):
    return [CTX.mpf(c)] + [CTX.mpf(0)] * n


def var(c, n):
    j = const(c, n)
    if n:
        j[1] = CTX.mpf(1)
    return j


def add(*js):
    return [sum(cs, CTX.mpf(0)) for cs in zip(*js)]


def scale(k, a):
    return [k * c for c in a]


def mul2(a, b):
    n = len(a)
    return [sum((a[i] * b[k - i] for i in range(k + 1)), CTX.mpf(0)) for k in range(n)]


def mul(*js):
    r = js[0]
    for j in js[1:]:
        r = mul2(r, j)
    return r


def powc(a, p):
    """a**p for a constant p."""
    n = len(a)
    b0 = a[0]
    isint = p == int(p) and abs(p) < 10**6
    if isint and 0 <= p <= 64:
        r = const(1, n - 1)
        for _ in range(int(p)):
            r = mul2(r, a)
        if abs(b0) < NEAR and any(a) and p <= n:
            return None  # derivatives meet 0**0 or 0**-1 along the way
        return r
    if abs(b0) < NEAR or (b0 < 0 and not isint):
        return None
    if abs(p) * abs(CTX.log(abs(b0))) > 60:
        return None
    c = [b0 ** int(p) if isint else b0**p]
    for k in range(1, n):
        s = sum(((p * j - (k - j)) * a[j] * c[k - j] for j in range(1, k + 1)), CTX.mpf(0))
        c.append(s / (k * b0))
    return c


def sincos(a):
    n = len(a)
    s, c = [CTX.sin(a[0])], [CTX.cos(a[0])]
    for k in range(1, n):
        s.append(sum((j * a[j] * c[k - j] for j in range(1, k + 1)), CTX.mpf(0)) / k)
        c.append(-sum((j * a[j] * s[k - j] for j in range(1, k + 1)), CTX.mpf(0)) / k)
    return s, c


def exp(a):
    if a[0] > 25:
        return None
    e = [CTX.exp(a[0])]
    for k in range(1, len(a)):
        e.append(sum((j * a[j] * e[k - j] for j in range(1, k + 1)), CTX.mpf(0)) / k)
    return e


def log(a):
    if a[0] < NEAR:
        return None
    r = [CTX.log(a[0])]
    for k in range(1, len(a)):
        s = sum((j * r[j] * a[k - j] for j in range(1, k)), CTX.mpf(0))
        r.append((k * a[k] - s) / (k * a[0]))
    return r


def div(a, b):
    i = powc(b, -1)
    return None if i is None else mul2(a, i)


def tan(a):
    s, c = sincos(a)
    return div(s, c)


def power(a, b):
    """a**b; jets."""
    if not any(b[1:]):
        return powc(a, b[0])
    lg = log(a)
    return None if lg is None else exp(mul2(b, lg))


def ok(j):
    return j is not None and all(abs(c) < BIG for c in j)


class JetEval:
    """Jets of terms with respect to one symbol at a point.

    table: {head term: function(list of jets) -> jet or None}
    """

    def __init__(self, store, table, ints, values, wrt, order):
        self.st = store
        self.table = table
        self.ints = ints  # kind name of integers
        self.values = values
        self.wrt = wrt
        self.n = order
        self.memo = {}

    def __call__(self, t):
        st, memo, n = self.st, self.memo, self.n
        for s in sorted(st.reach(t)):
            if s in memo:
                continue
            j = None
            if st.is_atom(s):
                if s == self.wrt:
                    j = var(self.values[s], n)
                elif s in self.values:
                    j = const(self.values[s], n)
                elif st.kind[s] == self.ints:
                    j = const(st.value[s], n)
            else:
                h, *kids = st.kids[s]
                args = [memo[k] for k in kids]
                f = self.table.get(h)
                if f is not None and all(a is not None for a in args):
                    j = f(*args)
            memo[s] = j if ok(j) else None
        return memo[t]


def basic_table(cas):
    return {
        cas.Add: lambda *a: add(*a),
        cas.Mul: lambda *a: mul(*a),
        cas.Pow: power,
        cas.sin: lambda a: sincos(a)[0],
        cas.cos: lambda a: sincos(a)[1],
    }


def point(k):
    """A number of the case (an int) as a coordinate."""
    return CTX.mpf(k) / 1000 + CTX.mpf(317) / 1000000


def close(got, want):
    return abs(got - want) <= TOL * (1 + abs(want))

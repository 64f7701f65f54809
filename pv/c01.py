"""C01: equal expressions are one object throughout any history."""

from __future__ import annotations

import copy
import datetime
import decimal
import gc
import weakref

from .base import Sub, ensure, fail, short

VALUES = [
    ["int", 0], ["int", 1], ["int", -1], ["int", -2], ["int", 2**61 - 1],
    ["int", 2**61], ["int", -(2**61)], ["int", 10**30], ["int", 257], ["int", 100000],
    ["str", "x"], ["str", "y"], ["str", ""], ["str", "\u00e9"], ["str", "e\u0301"],
    ["str", "1"], ["str", "Star"], ["bytes", "x"], ["bytes", ""],
    ["tuple", []], ["tuple", [1, 2]], ["tuple", [2, 1]], ["tuple", [[1], 2]],
    ["fs", []], ["fs", [1, 2, 3]], ["none", 0],
    # near misses of each other: long, large, or different only at one end
    ["str", "long" * 60 + "a"], ["str", "long" * 60 + "b"], ["str", "a" + "long" * 60],
    ["str", "b" + "long" * 60], ["str", "X"], ["str", " x"], ["str", "x "], ["str", "x\x00"],
    ["int", 2**64], ["int", 2**64 + 1], ["int", 2**32], ["int", 2**53 + 1], ["int", 2**53],
    ["int", 10**400], ["int", 10**400 + 1], ["tuple", [1, 2, 3, 4, 5, 6, 7, 8, 9]],
    ["tuple", [9, 8, 7, 6, 5, 4, 3, 2, 1]], ["fs", [1, 2]],
    # equal values which are not shown alike, next to unequal ones which are
    ["dec", "1.5"], ["dec", "1.50"], ["dec", "15E-1"], ["dec", "1.51"],
    ["range", [0, 3, 2]], ["range", [0, 4, 2]], ["range", [0, 5, 2]],
    ["fs", [0, 8]], ["fs", [8, 0]], ["when", 0], ["when", 1], ["when", 7],
    ["like", [1, "a"]], ["like", [1, "b"]], ["like", [2, "a"]], ["like", [3, "a"]],
]
SHOWN = next(i for i, v in enumerate(VALUES) if v[0] == "dec")
LIMIT = 12000


class Like:
    """A value of which only the number counts, not the name it is shown by."""

    def __init__(self, n, name):
        self.n, self.name = n, name

    def __eq__(self, other):
        return isinstance(other, Like) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.name


def decode(v):
    k, a = v
    if k == "dec":
        return decimal.Decimal(a)
    if k == "range":
        return range(*a)
    if k == "when":  # the same moment in different places
        return datetime.datetime(
            2020, 1, 1, 12 + a % 7,
            tzinfo=datetime.timezone(datetime.timedelta(hours=a % 7)))\
            + datetime.timedelta(days=a // 7)
    if k == "like":
        return Like(*a)
    if k == "bytes":
        return a.encode()
    if k == "tuple":
        return tuple(tuple(b) if isinstance(b, list) else b for b in a)
    if k == "fs":
        return frozenset(a)
    if k == "none":
        return None
    if k == "str":
        return "".join(list(a))  # a new string object
    return a


def _strategy():
    from hypothesis import strategies as st

    small = st.integers(0, 11)
    idx = st.one_of(st.integers(0, 3), small)
    # half the time, equal structures get built again and again
    cmd = st.one_of(
        st.tuples(st.just("atom"), st.integers(0, 3), st.integers(0, len(VALUES) - 1),
                  st.integers(0, 1)),
        st.tuples(st.just("atom"), st.integers(0, 2), st.integers(0, 3), st.integers(0, 1)),
        st.tuples(st.just("atom"), st.integers(0, 1), st.integers(SHOWN, len(VALUES) - 1),
                  st.integers(0, 1)),
        st.tuples(st.just("tr"), idx, st.integers(0, 1)),
        st.tuples(st.just("tree"), st.lists(idx, min_size=1, max_size=4), st.integers(0, 2)),
        st.tuples(st.just("tree"), st.lists(idx, min_size=1, max_size=2), st.integers(0, 2)),
        st.tuples(st.just("rebuild"), idx, st.integers(0, 2)),
        st.tuples(st.just("rebuild"), idx, st.integers(0, 2)),
        st.tuples(st.just("wide"), st.lists(idx, min_size=1, max_size=4),
                  st.integers(0, 11), st.integers(0, 2)),
        st.tuples(st.just("variant"), idx, st.integers(0, 4), st.integers(0, 70), idx,
                  st.integers(0, 2)),
        st.tuples(st.just("variant"), idx, st.integers(0, 4), st.integers(0, 3), idx,
                  st.integers(0, 2)),
        st.tuples(st.just("wrap"), st.integers(0, 3), idx),
        st.tuples(st.just("symatom"), st.integers(0, 3), st.integers(0, 5)),
        st.tuples(st.just("head"), idx),
        st.tuples(st.just("args"), idx, small),
        st.tuples(st.just("copy"), idx, st.integers(0, 3)),
        st.tuples(st.just("drop"), idx),
        st.tuples(st.just("drop"), idx),
        st.tuples(st.just("dropmany"), st.integers(0, 5)),
        st.tuples(st.just("cycle"), idx),
        st.tuples(st.just("collect")),
        st.tuples(st.just("watch"), idx, st.integers(0, 2)),
        st.tuples(st.just("newkind"), st.integers(0, 3)),
        st.tuples(st.just("cas"), st.integers(0, 5), idx, idx),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "kinds": st.lists(st.integers(0, 2), min_size=2, max_size=4),
            "cmds": st.one_of(
                st.lists(cmd, min_size=3, max_size=15),
                st.lists(cmd, min_size=15, max_size=50),
            ),
        }
    )


class World:
    """Live slots; every slot is (object, expected key)."""

    def __init__(self, kindspec):
        from protosym.core.atom import Atom, AtomType
        from protosym.core.sym import Sym
        from protosym.core.tree import Tr, Tree
        from protosym.simplecas import Expr

        self.Atom, self.AtomType, self.Tree, self.Tr = Atom, AtomType, Tree, Tr
        self.Sym, self.Expr = Sym, Expr

        class A(Sym):
            pass

        class B(A):
            pass

        class A2(Sym):
            pass

        A2.__name__ = "A"
        self.classes = [A, B, A2, Expr]
        self.ntok = 0
        self.kinds = []  # [AtomType, token]
        self.symtypes = []
        self.tok = {}
        for k in kindspec:
            self.kinds.append(self.new_kind(k))
        for n in range(4):
            cls = self.classes[n]
            name = "S" if n % 2 else "K0"
            s = cls.new_atom(name, str)
            self.ntok += 1
            self.tok[id(s.atom_type)] = self.ntok
            self.symtypes.append((s, self.ntok, n))
        import protosym.simplecas as sc
        from protosym.core.sym import Wild

        self.sc = sc
        for t in (sc.Integer, sc.Symbol, sc.Function):
            self.ntok += 1
            self.tok[id(t.atom_type)] = self.ntok
        self.ntok += 1
        self.tok[id(Wild)] = self.ntok
        self.slots = []

    def new_kind(self, k):
        name, typ = [("K0", object), ("K0", object), ("K1", object)][k]
        a = self.AtomType(name, typ)
        self.ntok += 1
        self.tok[id(a)] = self.ntok
        return [a, self.ntok]

    # keys: ("A", token, type name, value), ("T", key of atom), ("N", keys of children),
    # ("S", class index, key of tree)
    def key_of(self, obj, memo):
        """Structure of a live object, read from scratch (iterative)."""
        todo = [obj]
        while todo:
            o = todo[-1]
            if id(o) in memo:
                todo.pop()
                continue
            if isinstance(o, self.Atom):
                tok = self.tok.get(id(o.atom_type))
                ensure(tok is not None, "atom %s has an unknown kind", short(o))
                memo[id(o)] = (o, ("A", tok, type(o.value).__name__, o.value))
                todo.pop()
            elif isinstance(o, self.Tree):
                ks = o.children
                ensure(isinstance(ks, tuple), "children is %s", short(ks))
                if not ks:
                    v = o.value
                    ensure(isinstance(v, self.Atom), "atomic tree holds %s", short(v))
                    if id(v) not in memo:
                        todo.append(v)
                        continue
                    memo[id(o)] = (o, ("T", memo[id(v)][1]))
                    todo.pop()
                else:
                    for c in ks:
                        ensure(isinstance(c, self.Tree), "child is %s", short(c))
                    miss = [c for c in ks if id(c) not in memo]
                    if miss:
                        todo.extend(miss)
                        continue
                    memo[id(o)] = (o, ("N",) + tuple(memo[id(c)][1] for c in ks))
                    todo.pop()
            elif isinstance(o, self.Sym):
                n = [i for i, c in enumerate(self.classes) if type(o) is c]
                ensure(n, "object of unexpected class %s", type(o))
                t = o.rep
                ensure(isinstance(t, self.Tree), "rep is %s", short(t))
                if id(t) not in memo:
                    todo.append(t)
                    continue
                memo[id(o)] = (o, ("S", n[0], memo[id(t)][1]))
                todo.pop()
            else:
                fail(f"neither atom, tree nor expression: {short(o)}")
        return memo[id(obj)][1]

    def check(self, full):
        memo = {}
        for obj, key in self.slots:
            got = self.key_of(obj, memo)
            if got != key:
                fail(f"object exposes {short(got)}, was built from {short(key)}")
        by_key = {}
        for obj, key in memo.values():
            other = by_key.setdefault(key, obj)
            if other is not obj:
                fail(f"two live objects with the same structure {short(key)}")
        if full:
            objs = [o for o, _ in memo.values()]
            for i, a in enumerate(objs):
                ensure(a == a and not (a != a), "object differs from itself")
                for b in objs[:i]:
                    if type(a) is type(b):
                        if a == b or not (a != b):
                            fail(
                                f"different objects compare equal: {short(memo[id(a)][1])}"
                                f" and {short(memo[id(b)][1])}"
                            )
                    elif a == b:
                        fail("objects of different classes compare equal")
            ensure(len(set(objs)) == len(objs), "hash set merges different objects")


def run(case, rec):
    # keep collections cheap: only what this case creates is looked at
    gc.collect(1)
    gc.freeze()
    try:
        history(case, rec)
    finally:
        gc.collect()


def history(case, rec):
    w = World(case["kinds"])
    slots = w.slots
    dropped = set()

    def pick(i, want=None):
        cand = [s for s in slots if want is None or isinstance(s[0], want)]
        return cand[len(cand) - 1 - (i % len(cand))] if cand else None

    def put(obj, key, cls):
        if type(obj) is not cls:
            fail(f"constructed {short(obj)} instead of a {cls.__name__}")
        if any(k == key for _, k in slots):
            rec.label("constructed again while alive")
            rec.hit()
        elif key in dropped:
            rec.label("constructed again after being dropped")
            rec.hit()
        slots.append((obj, key))
        del slots[:-24]

    def rebuild(key, how):
        """Construct the object of a key from its parts, bottom-up."""
        if key[0] == "A":
            kind = [k for k in w.kinds if k[1] == key[1]]
            if not kind:
                for s, tok, n in w.symtypes:
                    if tok == key[1]:
                        return s.atom_type(key[3])
                for t in (w.sc.Integer, w.sc.Symbol, w.sc.Function):
                    if w.tok[id(t.atom_type)] == key[1]:
                        return t.atom_type(key[3])
                return None
            v = key[3]
            return kind[0][0](v) if how else w.Atom(kind[0][0], v)
        if key[0] == "T":
            a = rebuild(key[1], how)
            return None if a is None else (w.Tr(a) if how else w.Tree.atom(a))
        if key[0] == "N":
            cs = [rebuild(k, how) for k in key[1:]]
            if any(c is None for c in cs):
                return None
            return cs[0](*cs[1:]) if how == 1 else w.Tree(*cs)
        t = rebuild(key[2], how)
        return None if t is None else w.classes[key[1]](t)

    watches = []  # weak references of the program
    reborn = []  # what their callbacks made

    def watch(s, how):
        """Rebuild the object at the moment it is released."""
        if s is None:
            watches.clear()
            return
        key, cls = s[1], type(s[0])

        def callback(_):
            try:
                made = rebuild(key, how)
                reborn.append((made, key, cls, None))
            except Exception as e:  # noqa
                reborn.append((None, key, cls, f"{type(e).__name__}: {e}"))

        watches.append(weakref.ref(s[0], callback))

    def settle():
        """Take over what callbacks made: it is the one object of its structure."""
        while reborn:
            made, key, cls, err = reborn.pop()
            if err:
                fail(f"rebuilding {short(key)} when it was released failed: {err}")
            if made is None:
                continue
            again = rebuild(key, 1)
            if again is None:
                continue  # of a kind that is no more
            dropped.add(key)
            put(made, key, cls)
            if again is not made:
                fail(f"{short(made)} was rebuilt from a weak reference callback and is alive, "
                     "but building it again gave another object")
            rec.label("rebuilt when released")

    try:
        commands(case, rec, w, slots, dropped, pick, put, rebuild, watch, settle)
    finally:
        watches.clear()


def commands(case, rec, w, slots, dropped, pick, put, rebuild, watch, settle):
    for cmd in case["cmds"]:
        op = cmd[0]
        if op in ("tree", "wide", "variant") and pick(0, w.Tree) is None:
            # something to combine
            for kind, tok in w.kinds[:2]:
                v = len(slots)
                put(w.Tr(kind(v)), ("T", ("A", tok, "int", v)), w.Tree)
        if op == "variant" and not any(s[1][0] == "N" for s in slots):
            ss = [pick(0, w.Tree), pick(1, w.Tree)]
            put(w.Tree(ss[0][0], ss[1][0]), ("N", ss[0][1], ss[1][1]), w.Tree)
        if op == "atom":
            kind, tok = w.kinds[cmd[1] % len(w.kinds)]
            v = decode(VALUES[cmd[2]])
            obj = kind(v) if cmd[3] else w.Atom(kind, v)
            put(obj, ("A", tok, type(v).__name__, v), w.Atom)
        elif op == "tr":
            s = pick(cmd[1], w.Atom)
            if s:
                obj = w.Tr(s[0]) if cmd[2] else w.Tree.atom(s[0])
                put(obj, ("T", s[1]), w.Tree)
        elif op == "tree":
            ss = [pick(i, w.Tree) for i in cmd[1]]
            if ss[0]:
                objs = [s[0] for s in ss]
                obj = objs[0](*objs[1:]) if cmd[2] == 1 else w.Tree(*objs)
                key = ("N",) + tuple(s[1] for s in ss)
                if len(repr(key)) < LIMIT:
                    put(obj, key, w.Tree)
        elif op == "wide":
            from .build import WIDTHS

            ss = [pick(i, w.Tree) for i in cmd[1]]
            if ss[0]:
                n = WIDTHS[cmd[2]]
                ss = [pick(cmd[1][k % len(ss)] + k // len(ss), w.Tree) for k in range(n)]
                objs = [s[0] for s in ss]
                obj = objs[0](*objs[1:]) if cmd[3] == 1 else w.Tree(*objs)
                key = ("N",) + tuple(s[1] for s in ss)
                if len(repr(key)) < LIMIT:
                    put(obj, key, w.Tree)
                    rec.label("at least 16 children" if n >= 16 else "5 to 15 children")
        elif op == "variant":
            # the same children but for one small difference
            cand = [s for s in slots if s[1][0] == "N"]
            if cand:
                s = cand[len(cand) - 1 - cmd[1] % len(cand)]
                other = pick(cmd[4], w.Tree)
                objs, keys = list(s[0].children), list(s[1][1:])
                i = cmd[3] % len(objs)
                if cmd[2] == 0:
                    j = (i + 1) % len(objs)
                    objs[i], objs[j], keys[i], keys[j] = objs[j], objs[i], keys[j], keys[i]
                elif cmd[2] == 1:
                    objs[i], keys[i] = other[0], other[1]
                elif cmd[2] == 2 and len(objs) > 1:
                    del objs[i], keys[i]
                elif cmd[2] == 3:
                    objs.insert(i, objs[i])
                    keys.insert(i, keys[i])
                else:
                    objs.reverse()
                    keys.reverse()
                obj = objs[0](*objs[1:]) if cmd[5] == 1 else w.Tree(*objs)
                key = ("N",) + tuple(keys)
                if len(repr(key)) < LIMIT:
                    put(obj, key, w.Tree)
                    rec.label("variant of a live tree")
        elif op == "rebuild":
            s = pick(cmd[1])
            if s:
                obj = rebuild(s[1], cmd[2])
                if obj is not None:
                    put(obj, s[1], type(s[0]))
        elif op == "wrap":
            s = pick(cmd[2], w.Tree)
            if s:
                cls = w.classes[cmd[1]]
                put(cls(s[0]), ("S", cmd[1], s[1]), cls)
        elif op == "symatom":
            st_, tok, n = w.symtypes[cmd[1]]
            v = decode(VALUES[10 + cmd[2]])
            put(st_(v), ("S", n, ("T", ("A", tok, "str", v))), w.classes[n])
        elif op == "copy":
            # a copy is the very same object, if it can be had at all
            s = pick(cmd[1], w.Tree if cmd[2] == 0 else None)
            if s:
                obj = None
                try:
                    if cmd[2] < 2:
                        obj = copy.copy(s[0])
                    elif cmd[2] == 2:
                        # the kinds of atoms are identified by identity
                        memo = {id(k[0]): k[0] for k in w.kinds}
                        for t in w.symtypes:
                            memo[id(t[0].atom_type)] = t[0].atom_type
                        obj = copy.deepcopy(s[0], memo)
                        memo = None
                except Exception:  # noqa: not supported
                    rec.label("copy refused")
                if obj is not None:
                    put(obj, s[1], type(s[0]))
                    rec.label("copied")
        elif op in ("head", "args"):
            s = pick(cmd[1], w.Sym)
            if s and s[1][2][0] == "N":
                kids = s[1][2][1:]
                if op == "head":
                    put(s[0].head, ("S", s[1][1], kids[0]), type(s[0]))
                else:
                    args = s[0].args
                    ensure(
                        isinstance(args, tuple) and len(args) == len(kids) - 1,
                        "args of an expression with %s arguments is %s",
                        len(kids) - 1, short(args),
                    )
                    if args:
                        k = cmd[2] % len(args)
                        put(args[k], ("S", s[1][1], kids[1 + k]), type(s[0]))
        elif op == "drop":
            if slots:
                s = slots.pop(len(slots) - 1 - (cmd[1] % len(slots)))
                dropped.add(s[1])
        elif op == "watch":
            s = pick(cmd[1])
            if s:
                watch(s, cmd[2])
        elif op == "dropmany":
            for s in slots[cmd[1]:]:
                dropped.add(s[1])
            del slots[cmd[1]:]
        elif op == "cycle":
            # an object referenced only by cyclic garbage until a collection
            if slots:
                s = slots.pop(len(slots) - 1 - (cmd[1] % len(slots)))
                dropped.add(s[1])
                loop = [s[0]]
                loop.append(loop)
                del loop
        elif op == "collect":
            s = None
            gc.collect()
            rec.label("collected")
        elif op == "newkind":
            # replace a kind by a new one, dropping everything that used it
            watch(None, 0)
            n = cmd[1] % len(w.kinds)
            tok = w.kinds[n][1]
            text = f"('A', {tok},"
            slots[:] = [s for s in slots if text not in repr(s[1])]
            s = None
            old = w.kinds[n][0]
            del w.tok[id(old)]
            name = old.name
            w.kinds[n] = None
            del old
            gc.collect()
            w.kinds[n] = w.new_kind(0 if name == "K0" else 2)
            rec.label("kind replaced")
        elif op == "cas":
            sc = w.sc
            itok = w.tok[id(sc.Integer.atom_type)]
            stok = w.tok[id(sc.Symbol.atom_type)]
            ftok = w.tok[id(sc.Function.atom_type)]
            ikey = lambda n: ("T", ("A", itok, "int", n))  # noqa
            fkey = lambda n: ("T", ("A", ftok, "str", n))  # noqa
            skey = ("T", ("A", stok, "str", "q"))
            k = cmd[2] - 3
            if cmd[1] == 0:
                put(sc.Integer(k), ("S", 3, ikey(k)), w.Expr)
            elif cmd[1] == 1:
                put(sc.expressify(k), ("S", 3, ikey(k)), w.Expr)
            elif cmd[1] == 2:
                put(sc.Symbol("q"), ("S", 3, skey), w.Expr)
            elif cmd[1] == 3:
                put(sc.Symbol("q") + k, ("S", 3, ("N", fkey("Add"), skey, ikey(k))), w.Expr)
            elif cmd[1] == 4:
                put(sc.sin(sc.Symbol("q")), ("S", 3, ("N", fkey("sin"), skey)), w.Expr)
            else:
                s = pick(cmd[3], w.Expr)
                if s and len(repr(s[1])) < 2000:
                    put(sc.Function("f")(s[0], k),
                        ("S", 3, ("N", fkey("f"), s[1][2], ikey(k))), w.Expr)
        s = ss = objs = obj = loop = other = cand = None
        settle()
        w.check(full=False)
    w.check(full=True)


# -- crowds: many thousands of living objects -------------------------------------


SIZES = [3000, 5000, 9000, 17000, 33000, 70000, 4097, 6000, 8193, 12000, 16385, 25000, 45000]
SHAPES = ["atoms", "trees", "pairs", "chain", "wraps", "calls", "row"]


def _crowd_strategy():
    from hypothesis import strategies as st

    step = st.one_of(
        st.tuples(st.just("again"), st.integers(0, 12), st.integers(0, 12)),
        st.tuples(st.just("drop"), st.integers(0, 12), st.integers(0, 12)),
        st.tuples(st.just("more"), st.integers(0, 6), st.integers(0, 12)),
        st.tuples(st.just("collect"), st.just(0), st.just(0)),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "shape": st.sampled_from(SHAPES),
            "kind": st.integers(0, 3),
            "size": st.integers(0, len(SIZES) - 1),
            "a": st.integers(1, 50),
            "steps": st.lists(step, max_size=5),
        }
    )


def value_of(kind, k):
    if kind == 0:
        return k
    if kind == 1:
        return f"v{k}"
    if kind == 2:
        return (k, k % 7)
    return k // 16 + k % 16 * (2**61 - 1)  # sixteen integers of one hash each


class Crowd:
    """The k-th object of a crowd and what it must be made of."""

    def __init__(self, shape, kind, a):
        import protosym.simplecas as sc
        from protosym.core.atom import AtomType
        from protosym.core.sym import Sym
        from protosym.core.tree import Tr, Tree

        class Other(Sym):
            pass

        self.sc, self.Tr, self.Tree, self.Other = sc, Tr, Tree, Other
        self.shape, self.kind, self.a = shape, kind, a
        self.type = AtomType("C", object)
        self.head = Tr(self.type("head"))
        self.last = self.head

    def make(self, k, objs):
        """objs: those made before, by number."""
        shape = self.shape
        if shape == "atoms":
            return self.type(value_of(self.kind, k))
        if shape in ("trees", "wraps"):
            t = self.Tr(self.type(value_of(self.kind, k)))
            return t if shape == "trees" else self.Other(t)
        if shape == "pairs":
            # all pairs of the first few
            n = 270 + self.a
            if k < n:
                return self.Tr(self.type(value_of(self.kind, k)))
            i, j = divmod(k - n, n)
            if i < n:
                return self.Tree(self.head, objs[i], objs[j])
            i -= n
            return self.Tree(self.head, objs[i % n], objs[j], objs[(i + j) % n])
        if shape == "chain":
            if k == 0:
                return self.Tree(self.head, self.head)
            return self.Tree(objs[k - 1], self.head) if k % 2 else self.Tree(
                self.head, objs[k - 1])
        if shape == "calls":
            sc = self.sc
            if k == 0:
                return sc.Symbol("crowd")
            if k % 3 == 1:
                return sc.Integer(k)
            if k % 3 == 2:
                return sc.sin(objs[k - 1])
            return objs[k - 1] + objs[0]
        if shape == "row":
            if k < 40 + self.a:
                return self.Tr(self.type(value_of(self.kind, k)))
            n = 40 + self.a
            return self.Tree(*[objs[(k * 7 + i * (1 + k // n)) % n] for i in range(6)],
                             objs[k - n])
        raise ValueError(shape)

    def check(self, k, obj, objs):
        """obj has the structure it was made from, of these very objects."""
        shape = self.shape
        if shape == "atoms":
            ok = obj.value == value_of(self.kind, k) and obj.atom_type is self.type
        elif shape in ("trees", "wraps"):
            t = obj if shape == "trees" else obj.rep
            ok = not t.children and t.value.value == value_of(self.kind, k)
        elif shape == "chain":
            prev = objs[k - 1] if k else self.head
            want = (prev, self.head) if k % 2 else (self.head, prev)
            ok = len(obj.children) == 2 and all(p is q for p, q in zip(obj.children, want))
        elif shape == "calls":
            if k == 0:
                ok = True
            elif k % 3 == 1:
                ok = not obj.args and obj.rep.value.value == k
            else:
                want = [objs[k - 1]] if k % 3 == 2 else [objs[k - 1], objs[0]]
                ok = len(obj.args) == len(want) and all(
                    p is q for p, q in zip(obj.args, want))
        else:
            if not obj.children:
                ok = obj.value.value == value_of(self.kind, k)
            elif shape == "pairs":
                n = 270 + self.a
                i, j = divmod(k - n, n)
                want = (self.head, objs[i], objs[j]) if i < n else (
                    self.head, objs[(i - n) % n], objs[j], objs[(i - n + j) % n])
                ok = len(want) == len(obj.children) and all(
                    p is q for p, q in zip(obj.children, want))
            else:
                n = 40 + self.a
                ok = len(obj.children) == 7 and obj.children[6] is objs[k - n]
        ensure(ok, "object %s of a crowd of %s %s is %s", k, len(objs), shape, short(obj))


def crowd(case, rec):
    c = Crowd(case["shape"], case["kind"], case["a"])
    size = SIZES[case["size"]]
    if case["shape"] == "chain":
        size = min(size, 9000)
    # a chain or a sum needs its predecessors: those that nothing needs can go
    free = case["shape"] in ("atoms", "trees", "wraps")
    objs = {}
    for k in range(size):
        objs[k] = c.make(k, objs)

    def again(ks, what):
        for k in ks:
            obj = c.make(k, objs)
            if obj is not objs.get(k, obj):
                fail(f"of {len(objs)} living {case['shape']}, number {k} was built {what} "
                     f"and is another object: {short(obj)}, before {short(objs[k])}")

    def whole():
        ids = {id(o) for o in objs.values()}
        ensure(len(ids) == len(objs), "%s different structures are %s objects",
               len(objs), len(ids))
        for k, o in objs.items():
            c.check(k, o, objs)

    again(range(size), "again at once")
    for op, i, j in case["steps"]:
        if op == "again":
            again([k for k in range(i, size, 1 + j) if k in objs], "again")
        elif op == "drop":
            if free:
                for k in [k for k in objs if (k + i) % (2 + j) == 0]:
                    del objs[k]
            else:
                cut = len(objs) * (20 - j) // 20
                base = 200 if case["shape"] != "chain" else 1
                for k in range(max(cut, base), len(objs)):
                    del objs[k]
            rec.label("dropped some")
        elif op == "collect":
            gc.collect()
        else:
            # those dropped are made once more
            for k in range(size):
                if k not in objs:
                    objs[k] = c.make(k, objs)
    again(sorted(objs), "again in the end")
    whole()
    rec.label(case["shape"])
    rec.maximum("max_living", len(objs))
    rec.hit(size >= 4000)

SUBS = [
    Sub(
        "history",
        _strategy,
        run,
        quick=6000,
        thorough=200000,
        rule="histories of up to 50 create/combine/rebuild/wrap/drop/cyclic-garbage/"
        "collect/replace-kind commands over atoms, trees and expressions of 4 classes; "
        "after every command all live objects are re-read and compared; non-trivial = "
        "some structure was constructed again (while alive or after having been dropped)",
    ),
    Sub(
        "crowd",
        _crowd_strategy,
        crowd,
        quick=160,
        thorough=2000,
        budget=30_000_000,
        rule="3000 to 70000 living atoms, trees, nests or expressions, all of which are made "
        "again (part of them after others were dropped) and must be the same objects of the "
        "same parts; non-trivial = at least 4000 of them",
    ),
]

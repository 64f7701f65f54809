"""Reference model: a strict hash-consed term store, with iterative functions.

Terms are small integers.  A term is an atom (kind, type of value, value) or a
compound: a non-empty tuple of terms (the head first).  Children always have
smaller numbers than their parents, so every function below is a loop.
Nothing here uses protosym except build()/read().
"""

from __future__ import annotations

from .base import ensure, fail, short


class Store:
    def __init__(self):
        self.kind = []  # kind of atom or None
        self.value = []  # value of atom or None
        self.kids = []  # tuple of children, () for atoms
        self._memo = {}

    def __len__(self):
        return len(self.kids)

    def atom(self, kind, value):
        key = ("a", kind, type(value).__name__, value)
        t = self._memo.get(key)
        if t is None:
            t = len(self.kids)
            self.kind.append(kind)
            self.value.append(value)
            self.kids.append(())
            self._memo[key] = t
        return t

    def node(self, *kids):
        t = self._memo.get(kids)
        if t is None:
            if not kids:
                raise ValueError("a compound needs children")
            t = len(self.kids)
            self.kind.append(None)
            self.value.append(None)
            self.kids.append(kids)
            self._memo[kids] = t
        return t

    def is_atom(self, t):
        return not self.kids[t]

    # -- traversal ------------------------------------------------------

    def reach(self, t, heads=False, exclude=()):
        """Set of distinct subterms of t (t included), not entering exclude."""
        out = set()
        if t in exclude:
            return out
        todo = [t]
        out.add(t)
        kids = self.kids
        while todo:
            s = todo.pop()
            ks = kids[s]
            for c in ks if heads else ks[1:]:
                if c not in out and c not in exclude:
                    out.add(c)
                    todo.append(c)
        return out

    def contains(self, t, s, heads=False):
        return s in self.reach(t, heads)

    def graph_size(self, t):
        return len(self.reach(t))

    def tree_size(self, t):
        size = {}
        for s in sorted(self.reach(t)):
            size[s] = 1 + sum(size[c] for c in self.kids[s][1:])
        return size[t]

    def depth(self, t):
        d = {}
        for s in sorted(self.reach(t, heads=True)):
            d[s] = 1 + max((d[c] for c in self.kids[s]), default=0)
        return d[t]

    # -- transformations ------------------------------------------------

    def subst(self, t, mapping):
        """Replace outermost occurrences (heads included) simultaneously."""
        if t in mapping:
            return mapping[t]
        new = {}
        order = sorted(self.reach(t, heads=True, exclude=mapping))
        for s in order:
            if self.is_atom(s):
                new[s] = s
            else:
                new[s] = self.node(
                    *[mapping[c] if c in mapping else new[c] for c in self.kids[s]]
                )
        return new[t]

    def bin_expand(self, t, assoc):
        """Left-associate n-ary applications of the heads in assoc."""
        new = {}
        for s in sorted(self.reach(t)):
            ks = self.kids[s]
            if not ks:
                new[s] = s
                continue
            args = [new[c] for c in ks[1:]]
            if ks[0] in assoc and args:
                r = args[0]
                for a in args[1:]:
                    r = self.node(ks[0], r, a)
                new[s] = r
            else:
                new[s] = self.node(ks[0], *args)
        return new[t]

    # -- display (for messages only) -------------------------------------

    def show(self, t, limit=300):
        out = []
        n = 0
        todo = [t]
        while todo:
            s = todo.pop()
            if isinstance(s, str):
                out.append(s)
                n += len(s)
            elif self.is_atom(s):
                text = f"{self.value[s]}" if isinstance(self.value[s], str) else repr(
                    self.value[s])
                out.append(str(short(text, 40)))
                n += len(out[-1])
            else:
                ks = self.kids[s]
                todo.append(")")
                args = ks[1:limit]
                for i, c in enumerate(reversed(args)):
                    todo.append(c)
                    if i < len(args) - 1:
                        todo.append(", ")
                todo.append("(")
                todo.append(ks[0])
            if n > limit:
                out.append("...")
                break
        return "".join(out)


class Bridge:
    """Correspondence between terms of a Store and real protosym objects.

    kinds: {kind name: AtomType object}
    """

    def __init__(self, store, kinds):
        from protosym.core.atom import Atom
        from protosym.core.tree import Tr, Tree

        self.Atom, self.Tree, self.Tr = Atom, Tree, Tr
        self.store = store
        self.kinds = dict(kinds)
        self._kind_of = {id(v): k for k, v in self.kinds.items()}
        self._real = {}  # term -> Tree, keeps them alive
        self._term = {}  # Tree -> term

    def add_kind(self, name, atom_type):
        self.kinds[name] = atom_type
        self._kind_of[id(atom_type)] = name

    def build(self, t):
        """The real Tree of term t, built bottom-up from scratch."""
        real = self._real
        if t in real:
            return real[t]
        st = self.store
        todo = [t]
        while todo:
            s = todo[-1]
            if s in real:
                todo.pop()
                continue
            ks = st.kids[s]
            if not ks:
                real[s] = self.Tr(self.kinds[st.kind[s]](st.value[s]))
                todo.pop()
                continue
            missing = [c for c in ks if c not in real]
            if missing:
                todo.extend(missing)
                continue
            real[s] = self.Tree(*[real[c] for c in ks])
            todo.pop()
        return real[t]

    def forget(self):
        self._real.clear()
        self._term.clear()

    def read_atom(self, tree):
        v = tree.value
        ensure(isinstance(v, self.Atom), "value of an atomic tree is %s", short(v))
        kind = self._kind_of.get(id(v.atom_type))
        ensure(kind is not None, "atom of unknown kind: %s", short(v))
        return self.store.atom(kind, v.value)

    def read(self, tree):
        """The term of a real Tree (iterative, checks the types it meets)."""
        memo = self._term
        if not isinstance(tree, self.Tree):
            fail(f"expected a Tree, got {short(tree)}")
        todo = [tree]
        st = self.store
        while todo:
            s = todo[-1]
            if s in memo:
                todo.pop()
                continue
            ks = s.children
            if not isinstance(ks, tuple):
                fail(f"children of a tree is {short(ks)}")
            if not ks:
                memo[s] = self.read_atom(s)
                todo.pop()
                continue
            ready = True
            for c in ks:
                if not isinstance(c, self.Tree):
                    fail(f"child of a tree is {short(c)}")
                if c not in memo:
                    todo.append(c)
                    ready = False
            if ready:
                memo[s] = st.node(*[memo[c] for c in ks])
                todo.pop()
        return memo[tree]

    def same(self, tree, t, what):
        """tree is exactly the term t, and is the one object for it."""
        got = self.read(tree)
        if callable(what):
            if got == t and self.build(t) is tree:
                return
            what = what()
        if got != t:
            fail(
                f"{what}: got {self.store.show(got)}, expected {self.store.show(t)}"
            )
        if self.build(t) is not tree:
            fail(f"{what}: equal to, but not the same object as, a rebuilt one")


# -- the simplecas vocabulary --------------------------------------------

RESERVED = {"pow", "sin", "cos", "Add", "Mul", "List"}


class Cas:
    """A Bridge for simplecas expressions, with the usual heads as terms."""

    def __init__(self):
        import protosym.simplecas as sc
        from protosym.core.sym import Wild

        self.sc = sc
        self.Expr = sc.Expr
        st = self.store = Store()
        self.bridge = Bridge(
            st,
            {
                "Integer": sc.Integer.atom_type,
                "Symbol": sc.Symbol.atom_type,
                "Function": sc.Function.atom_type,
                "Wild": Wild,
            },
        )
        # a user's own kinds of atom, with the names of simplecas's
        self.own = {
            "J": sc.Expr.new_atom("Integer", int),
            "T": sc.Expr.new_atom("Symbol", str),
            "G": sc.Expr.new_atom("Function", str),
            "R": sc.Expr.new_atom("Float", float),
        }
        for k, v in self.own.items():
            self.bridge.add_kind("own " + k, v.atom_type)
        self.Add, self.Mul, self.Pow = self.fn("Add"), self.fn("Mul"), self.fn("pow")
        self.sin, self.cos, self.List = self.fn("sin"), self.fn("cos"), self.fn("List")
        self.assoc = (self.Add, self.Mul)

    def int(self, n):
        return self.store.atom("Integer", n)

    def sym(self, s):
        return self.store.atom("Symbol", s)

    def fn(self, s):
        return self.store.atom("Function", s)

    def own_atom(self, k, v):
        return self.store.atom("own " + k, v)

    def node(self, *kids):
        return self.store.node(*kids)

    def is_int(self, t):
        return self.store.kind[t] == "Integer"

    def expr(self, t):
        return self.Expr(self.bridge.build(t))

    def read(self, e, what="result"):
        if type(e) is not self.Expr:
            fail(f"{what}: expected an Expr, got {short(e)}")
        return self.bridge.read(e.rep)

    def same(self, e, t, what):
        if callable(what):
            if (type(e) is self.Expr and self.bridge.read(e.rep) == t
                    and self.Expr(self.bridge.build(t)) is e):
                return
            what = what()
        if type(e) is not self.Expr:
            fail(f"{what}: expected an Expr, got {short(e)}")
        self.bridge.same(e.rep, t, what)
        if self.Expr(self.bridge.build(t)) is not e:
            fail(f"{what}: equal to, but not the same object as, a rebuilt one")

    def show(self, t, limit=300):
        return self.store.show(t, limit)

"""Basic types shared by the checks: violations, recorders, sub-checks."""

from __future__ import annotations

import hashlib
import json


class Violation(Exception):
    """The code under test contradicts the property.

    ``finding`` optionally names the class of violation so that one listed in
    known_findings.txt can be told apart from any other one.
    """

    def __init__(self, message, finding=None):
        super().__init__(message)
        self.message = str(message)[:4000]
        self.finding = finding


class StepBudgetExceeded(BaseException):
    """Raised inside protosym code when a case takes absurdly many steps.

    Not an Exception, so that code under test (or a rule of the harness) that
    catches Exception cannot swallow it.
    """


def fail(message, finding=None):
    raise Violation(message, finding)


def ensure(cond, message="", *args):
    if not cond:
        if args:
            message = message % args
        raise Violation(message)


def _show_tree(tree, limit):
    """Bounded display of a Tree (its own repr can be exponentially long)."""
    out = []
    n = 0
    todo = [tree]
    while todo:
        t = todo.pop()
        if isinstance(t, str):
            s = t
        elif getattr(t, "children", None):
            ks = t.children
            todo.append(")")
            for i in range(len(ks) - 1, -1, -1):
                todo.append(ks[i])
                if i:
                    todo.append(", ")
            s = "Tree("
        else:
            s = f"Tr({getattr(t, 'value', '?')!r})"
        out.append(s)
        n += len(s)
        if n > limit:
            break
    return "".join(out)


class short:  # noqa: N801
    """Display of anything: lazy, bounded, and never failing."""

    __slots__ = ("obj", "n")

    def __init__(self, obj, n=300):
        self.obj = obj
        self.n = n

    def _text(self, obj, depth=0):
        if isinstance(obj, str):
            return obj if depth == 0 else repr(obj)
        if isinstance(obj, (list, tuple)) and depth < 3:
            inner = ", ".join(self._text(o, depth + 1) for o in obj[:20])
            return f"[{inner}]" if isinstance(obj, list) else f"({inner})"
        if isinstance(obj, dict) and depth < 3:
            items = list(obj.items())[:20]
            return "{" + ", ".join(
                f"{self._text(k, depth + 1)}: {self._text(v, depth + 1)}"
                for k, v in items) + "}"
        name = type(obj).__name__
        if hasattr(obj, "rep") and hasattr(obj.rep, "children"):
            return f"{name}({_show_tree(obj.rep, self.n)})"
        if hasattr(obj, "children"):
            return _show_tree(obj, self.n)
        if name == "Matrix":
            return f"Matrix{getattr(obj, 'shape', '?')}"
        return repr(obj)

    def __str__(self):
        try:
            s = self._text(self.obj)
        except Exception as e:  # noqa
            s = f"<unprintable {type(self.obj).__name__}: {type(e).__name__}>"
        return s if len(s) <= self.n else s[: self.n - 20] + f"...[{len(s)} chars]"

    __repr__ = __str__


def case_key(case):
    data = json.dumps(case, sort_keys=True, ensure_ascii=True)
    return hashlib.sha1(data.encode()).hexdigest()[:16]


class Rec:
    """Collects what one case (and over time the whole run) exercised."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.case_labels = set()
        self.known = {}
        self.notes = {}

    def start(self):
        self.nontrivial = False
        self.case_labels = set()

    def label(self, *names):
        self.case_labels.update(names)

    def hit(self, cond=True):
        """Mark the case as non-trivial by the rule of the sub-check."""
        if cond:
            self.nontrivial = True

    def maximum(self, name, value):
        if value > self.notes.get(name, 0):
            self.notes[name] = value

    def total(self, name, value=1):
        self.notes[name] = self.notes.get(name, 0) + value

    def finish(self):
        for name in self.case_labels:
            self.labels[name] = self.labels.get(name, 0) + 1


class Sub:
    """One generated sub-check of a property.

    strategy: callable returning a Hypothesis strategy of JSON-able cases
    run:      run(case, rec) -> None, raises Violation
    quick, thorough: number of cases in all (over all shards)
    """

    def __init__(
        self,
        name,
        strategy,
        run,
        quick,
        thorough=None,
        rule="",
        budget=5_000_000,
        setup=None,
        shards=8,
        attempts=1,
    ):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.budget = budget
        self.setup = setup
        self.shards = shards
        self.attempts = attempts  # how often a replay tries the case

"""C22: results do not depend on hash seed, memory layout or process."""

from __future__ import annotations

import json
import os
import subprocess
import sys

from .base import Sub, fail, short
from .build import terms
from .model import Cas

OPS = [
    "add", "mul", "sin", "cos", "sub", "addn", "muln", "ipow", "pow", "call1:f", "call2:f",
    "calln:g", "list", "apply", "div", "inc", "addn", "muln", "list0",
    "wide:Add", "wide:g", "mid:Mul", "mid:List",
]
STEPS = [
    "print", "sort", "split", "graph", "subs", "xreplace", "function", "diff", "expand",
    "count", "f64", "trace", "transform", "customdiff", "ir", "matrix", "matrixir",
]
HASHSEEDS = ["0", "1", "4242", "987654321"]
CHILDREN = []


def _strategy():
    from hypothesis import strategies as st

    from . import gen

    step = st.tuples(
        st.sampled_from(STEPS), st.integers(0, 4), st.integers(0, 12), st.integers(0, 12)
    ).map(list)
    noise = st.tuples(
        st.integers(0, 10**6), st.integers(0, 400), st.integers(0, 59)
    ).map(list)
    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                OPS,
                atoms=gen.atom(ints=gen.small_ints, syms=["x", "y", "z", "t"],
                               funs=["f", "g"]),
                max_cmds=16, max_arity=5, max_atoms=6,
            ),
            "steps": st.lists(step, min_size=2, max_size=7),
            "noise": st.lists(noise, min_size=4, max_size=4),
        }
    )


def _strategy_jit():
    from hypothesis import strategies as st

    from . import gen

    return st.fixed_dictionaries(
        {
            "prog": gen.program(
                ["add", "mul", "sin", "cos", "sub", "addn", "muln", "ipow", "inc", "pow",
                 "wide:Add", "mid:Mul"],
                atoms=gen.atom(ints=gen.small_ints, syms=["x", "y", "z"]),
                max_cmds=12, max_arity=4,
            ),
            "steps": st.lists(
                st.tuples(st.just("lambdify"), st.integers(0, 2), st.integers(0, 6),
                          st.integers(0, 6)).map(list), min_size=1, max_size=2),
            "noise": st.lists(
                st.tuples(st.integers(0, 10**6), st.integers(0, 200),
                          st.integers(0, 59)).map(list), min_size=4, max_size=4),
        }
    )


def setup():
    """Start the processes: different hash seeds, two kinds of allocators."""
    if CHILDREN:
        return
    for i, seed in enumerate(HASHSEEDS):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = seed
        if i % 2:
            env["PYTHONMALLOC"] = "malloc"
        CHILDREN.append(subprocess.Popen(
            [sys.executable, "-m", "pv.c22_child"], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0))
    for c in CHILDREN:
        c.out = os.fdopen(os.dup(c.stdout.fileno()), "r")
        line = c.out.readline()
        if line != "ready\n":
            raise RuntimeError("a child process did not start: " + line[:500])


def run(case, rec):
    from .engine import HarnessError

    for i, c in enumerate(CHILDREN):
        c.stdin.write((json.dumps([i, case]) + "\n").encode())
    answers = []
    for c in CHILDREN:
        line = c.out.readline()
        if not line:
            raise HarnessError("a child process ended")
        answers.append(json.loads(line))
    for a in answers:
        if "error" in a:
            raise HarnessError("in a child process: " + a["error"])
    first = answers[0]["out"]
    for i, a in enumerate(answers[1:], 1):
        out = a["out"]
        for (w, u), (w2, v) in zip(first, out):
            if w != w2:
                fail(f"outputs {w} and {w2} differ between processes")
            if u != v:
                n = next((k for k, (p, q) in enumerate(zip(u, v)) if p != q),
                         min(len(u), len(v)))
                n = max(0, n - 60)
                fail(f"{w} differs between processes with hash seeds {HASHSEEDS[0]} and "
                     f"{HASHSEEDS[i]} (and other noise): ...{short(u[n:], 400)} and "
                     f"...{short(v[n:], 400)}")
        if len(first) != len(out):
            fail(f"{len(first)} outputs in one process, {len(out)} in another")
    cas = Cas()
    pool = terms(cas, case["prog"])
    reach = {s for t in pool for s in cas.store.reach(t, heads=True)}
    rec.hit(len(reach) >= 8 and len(first) >= 3)
    for w, u in first:
        rec.label(w)
        if "Error: " in u[:40]:
            rec.label("an error is compared")


SUBS = [
    Sub(
        "processes",
        _strategy,
        run,
        quick=2600,
        thorough=120000,
        setup=setup,
        attempts=5,
        rule="a program and 2-7 operations run in four processes with different hash "
        "seeds, allocators and generated noise (kept and dropped expressions, parts of "
        "the program made beforehand in another order); non-trivial = at least 8 distinct "
        "subexpressions and 3 outputs compared",
    ),
    Sub(
        "jit",
        _strategy_jit,
        run,
        quick=96,
        thorough=2400,
        setup=setup,
        attempts=5,
        rule="the same for compiled functions; non-trivial as above",
    ),
]

"""Generators: programs that build shared expressions, as plain JSON data.

A program is {"atoms": [...], "cmds": [[op, [i, ...]], ...]}.  Each command
appends one expression to a pool that starts with the atoms; its operands are
taken from the pool counting backwards from the newest entry (modulo its
length), so small numbers give deep nests and repeated numbers give sharing,
and every list of numbers is a valid program: shrinking never leaves the
domain and replay needs no generator.
"""

from __future__ import annotations

from hypothesis import strategies as st

INTS_EDGE = [
    -1, -2, 0, 1, 2, 3, -3, 10, 2**31, 2**53 - 1, 2**53 + 1, 2**61 - 1, 2**61 - 2,
    -(2**61 - 1), -(2**61), 2**63, 2**64, 10**20, -(10**20), 10**40,
]
SYMS = ["x", "y", "z", "t", "x1", "alpha"]
FUNS = ["f", "g", "h", "phi"]

small_ints = st.integers(-3, 4)
edge_ints = st.sampled_from(INTS_EDGE)
any_ints = st.one_of(small_ints, edge_ints, st.integers(-(10**25), 10**25))


def atom(ints=any_ints, syms=SYMS, funs=None, own=False):
    """["I", n] | ["S", name] | ["F", name], and of the user's own kinds J T G"""
    alts = [
        st.tuples(st.just("S"), st.sampled_from(syms) if isinstance(syms, list) else syms),
        st.tuples(st.just("I"), ints),
    ]
    if funs is not None:
        alts.append(
            st.tuples(st.just("F"), st.sampled_from(funs) if isinstance(funs, list) else funs)
        )
    if own:
        alts += alts
        alts.append(st.one_of(
            st.tuples(st.just("J"), small_ints),
            st.tuples(st.just("T"), st.sampled_from(SYMS)),
            st.tuples(st.just("G"), st.sampled_from(["f", "Add", "Mul", "sin"]))))
    return st.one_of(*alts).map(list)


def program(ops, atoms=None, min_cmds=1, max_cmds=14, max_arity=4, max_atoms=5, top=24):
    """ops: list of op names (repeat for weight)."""
    if atoms is None:
        atoms = atom()
    cmd = st.tuples(
        st.sampled_from(ops),
        st.lists(
            st.one_of(st.integers(0, 4), st.integers(0, top)),
            min_size=1, max_size=max_arity,
        ),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "atoms": st.lists(atoms, min_size=1, max_size=max_atoms),
            "cmds": st.one_of(
                st.lists(cmd, min_size=min_cmds, max_size=max(min_cmds, max_cmds // 2)),
                st.lists(cmd, min_size=max(min_cmds, max_cmds // 2), max_size=max_cmds),
            ),
        }
    )


def pick(pool, i):
    return pool[len(pool) - 1 - (i % len(pool))]


LARGE_HEADS = ["Add", "Mul", "f", "List"]


def large(heads=LARGE_HEADS, rows=("Add", "Mul"), towers=("sin",), rest=("add", "sin"),
          atoms=None, most=2, after=3, names=40):
    """A program of few commands, one or two of them of hundreds to thousands of parts."""
    if atoms is None:
        atoms = atom(ints=small_ints)
    i = st.one_of(st.integers(0, 4), st.integers(0, names))
    ops = [f"huge:{h}" for h in heads] + [f"row:{h}" for h in rows]
    ops += [f"tower:{h}" for h in towers]
    bigs = st.tuples(st.sampled_from(ops), st.lists(st.integers(0, 31), min_size=2,
                                                    max_size=4)).map(list)
    small = st.lists(
        st.tuples(st.sampled_from(list(rest)), st.lists(i, min_size=1, max_size=4)).map(list),
        max_size=after)
    return st.fixed_dictionaries(
        {
            "atoms": st.one_of(st.lists(atoms, min_size=1, max_size=4),
                               st.lists(atoms, min_size=1, max_size=names)),
            "cmds": st.tuples(
                small, st.lists(bigs, min_size=1, max_size=most), small
            ).map(lambda t: t[0] + t[1] + t[2]),
        }
    )

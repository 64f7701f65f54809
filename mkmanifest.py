#!/usr/bin/env python3
"""Write MANIFEST.json from the list below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

TECH = {
    "C01": "stateful property-based testing (Hypothesis) of creation/drop/collect histories against a model of structural identity",
    "C04": "property-based testing (Hypothesis) of operator programs against the documented tree for every operator",
    "C05": "property-based testing (Hypothesis) with a validity predicate on orders, splits and forward graphs of generated trees",
    "C06": "stateful property-based testing (Hypothesis) of prepared substitutions against a model of simultaneous substitution",
    "C12": "property-based testing (Hypothesis) against a reference model of binary expansion",
    "C13": "property-based testing (Hypothesis) against exact counts on a reference model",
    'C02': 'stateful property-based testing (Hypothesis): histories of public operations with a generated retained subset; invariant over all live objects listed by the collector',
    'C03': 'property-based testing (Hypothesis) of generated thread programs under generated schedules, executed by a harness-owned bytecode-level scheduler; oracle: the sequential results and object identity',
    'C07': 'property-based testing (Hypothesis) of random rule sets and values against a recursive reference evaluator with call counting',
    'C08': 'stateful property-based testing (Hypothesis) of rule registration histories against a model of the rule tables',
    'C09': 'property-based testing (Hypothesis) against multi-precision interval-style error bounds',
    'C10': 'property-based testing (Hypothesis): derivatives compared numerically with Taylor-jet arithmetic on the expression (multi-precision differential oracle)',
    'C11': 'property-based testing (Hypothesis) of random user differentiation rules against jets and a model of the rule table',
    'C14': 'round-trip property-based testing (Hypothesis): printed text parsed by an independent reader back to the expression',
    'C15': 'round-trip property-based testing (Hypothesis): LaTeX read by an independent TeX-precedence reader and compared numerically and structurally',
    'C16': 'differential property-based testing (Hypothesis): compiled function, independently compiled IR, and a multi-precision oracle',
    'C17': 'differential property-based testing (Hypothesis): compiled matrices entry by entry against scalar results, IR and a multi-precision oracle',
    'C18': 'property-based fault injection (Hypothesis): one unsupported part planted at a generated place must be rejected with the documented error',
    'C19': 'round-trip and differential property-based testing (Hypothesis) of SymPy conversion with a multi-precision complex oracle',
    'C20': 'stateful property-based testing (Hypothesis) of matrix histories against a table model',
    'C21': 'property-based testing (Hypothesis) of very deep and heavily shared generated graphs with exact modular oracles, a work limit counted by interpreter monitoring and a low recursion limit',
    'C22': 'differential property-based testing (Hypothesis): the same program in processes with different hash seeds, allocators and noise',
    'C23': 'stateful property-based testing (Hypothesis) of rule definitions and applications against a bottom-up rewriting model',
    'C24': 'stateful property-based testing (Hypothesis): histories with repetitions in other orders and a fresh-process reference (metamorphic and differential)',
    'C25': 'metamorphic property-based testing (Hypothesis): injective renamings commute with every operation; differential testing of generated languages on the core against simplecas',
    'C29': 'model-based property-based testing (Hypothesis): generated pipelines of operations of all parts against textbook rules on a term model, compared in 500-bit arithmetic after every step, and exact structure where it is specified',
    'C28': 'differential property-based testing (Hypothesis): generated operations in processes with generated interpreter options, absent packages and settings, against the same operations here; invariants over observations of the process',
    'C27': 'property-based fault injection (Hypothesis): an exception, or another operation, at a generated moment inside protosym code (interpreter monitoring), failing user functions and values, exhausted stack; oracle: the same operations in a fresh process',
    'C26': 'property-based fault injection (Hypothesis): generated foreign objects at generated places must be refused, and the valid operation after each refusal match a reference model',
}
NOTE = {
    "C01": "Finds violations by search over generated histories; trusts the model of identity and CPython's collector. Exact oracle (no tolerance).",
    "C04": "Finds violations by search over generated operator programs; exact oracle on a separate term store.",
    "C05": "Finds violations by search over generated trees; any valid order is accepted, exact otherwise.",
    "C06": "Finds violations by search over generated expressions and call histories; exact oracle on a separate term store.",
    "C12": "Finds violations by search over generated expressions; exact oracle on a separate term store.",
    "C13": "Finds violations by search over generated expressions; exact integer oracle on a separate term store.",
    'C02': "Search over generated histories; exact oracle (the set of live objects). Trusts CPython's collector; caches filled on first use of an operation are warmed before.",
    'C03': 'Search over generated programs and schedules at bytecode granularity (2-3 threads, up to 60 segments); locks of the threading module are replaced by cooperative ones. Free-threaded builds and C-level races are out of reach.',
    'C07': 'Search; exact oracle (independent recursive evaluation).',
    'C08': 'Search; exact oracle (model of last well-formed rule).',
    'C09': 'Search; sound error bounds, values near singularities or out of range are not judged.',
    'C10': 'Search; 200+ bit comparison away from singularities.',
    'C11': 'Search; 200+ bit comparison and exact comparison of errors.',
    'C14': 'Search; exact oracle through an independent parser.',
    'C15': 'Search; independent reader of the LaTeX subset.',
    'C16': 'Search; sound error bounds on floating point results, not bitwise.',
    'C17': 'Search; sound error bounds; writes outside the array are detected by guard values.',
    'C18': 'Search; exact oracle (documented error or not).',
    'C19': 'Search; 500-bit numeric comparison and structural round trips; one known finding is reported separately.',
    'C20': 'Search; exact oracle (table model).',
    'C21': 'Search; exact oracles modulo a prime; work counted in executed calls and loop iterations of protosym, plus a coarse processor-time ratio for work inside built-ins.',
    'C22': 'Search over programs, noise and 4 hash seeds; textual equality.',
    'C23': 'Search; exact oracle.',
    'C24': 'Search; exact oracle (identity of repeated results, text equality with a fresh process).',
    'C25': 'Search over generated expressions, renamings and languages; exact oracle (structure, text up to the renaming, numbers bit for bit).',
    'C29': 'Search over pipelines of up to 14 steps; 500-bit comparison at one assignment per case, sound error bounds for floating-point ends; integer exponents only.',
    'C28': 'Search over programs and configurations (7 sets of interpreter options, 8 subsets of packages); absence is simulated by blocking the import or by -S; locales other than C are not installed here.',
    'C27': 'Search over operations and moments (function entries, backward jumps, returns from C functions); all moments of short definitions are enumerated. Interruptions inside C functions and between taking a lock and guarding it are out of reach.',
    'C26': 'Search over 40 kinds of foreign objects and 26 kinds of places; exact oracle (the documented exception, identity of the results afterwards).',
}


def main():
    checks = []
    with open(os.path.join(HERE, "properties.jsonl")) as fh:
        props = [json.loads(line) for line in fh]
    missing = []
    for p in props:
        i = p["id"]
        if i not in TECH:
            missing.append(i)
            continue
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3 run.py {i} quick",
                "thorough_cmd": f"python3 run.py {i} thorough",
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE[i],
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": [
            {"property": i, "reason": "check not built yet"} for i in missing
        ],
        "notes": "No hooks in /repo are needed: the checks import /repo/src and use the public interface. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()

"""Write the table of planted bugs into DESIGN.md (documentation only)."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
# missed when first run; what was strengthened
MISSED = {
    "C25-head-by-name": "functions of the user named like Add, Mul, pow in other languages",
    "C25-rule-names": "languages made on the core with their own rules",
    "C25-class-names": "expression classes named like simplecas's",
    "C25-integer-by-name": "sub-check 'kinds': own atom kinds named like simplecas's",
    "C21-pop-front": "sub-check 'cpu': work inside built-in functions",
    "C21-args-list": "sums of hundreds of arguments inside deep motifs",
    "C24-stale-stack": "failing operations inside histories",
    "C24-function-cache": "operations alone in a fresh process",
    "C07-redefined-arity": "rules redefined between evaluations",
    "C10-logarithmic": "points at which factors vanish",
    "C10-order-zero": "order 0",
    "C19-known-functions": "functions of the user named like SymPy's",
    "C12-name-heads": "functions named Add and Mul",
    "C08-same-name": "patterns with equal wild names",
    "C26-mixed-children": "core trees called with trees and foreign objects mixed",
    "C04-inplace-flatten": "in-place operators",
    "C05-excluded-root": "excluded sets that contain the expression sorted",
    "C09-complex-power": "powers without a real value",
}
MISSED.update(json.load(open(os.path.join(HERE, "missed_more.json")))
              if os.path.exists(os.path.join(HERE, "missed_more.json")) else {})


def main():
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read().split("\n## 5. Planted bugs")[0].rstrip("\n")
    names = sorted(os.listdir(os.path.join(HERE, "seeded")))
    out = [
        text, "", "## 5. Planted bugs", "",
        f"`seeded/` holds {len(names)} changes, each confirmed to compile, to pass the existing tests, and to",
        "fail its own demonstration.  Every one is caught by the quick tier of the check of its",
        "property (the prefix of its name) unless marked *not caught*; those with an entry in the last",
        "column were missed at first and led to the strengthening named there.", "",
        "| bug | what it breaks | missed at first; strengthened by |", "|----|----|----|",
    ]
    for n in names:
        meta = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
        what = meta["what_it_breaks"].replace("|", "/").replace("\n", " ")
        out.append(f"| {n} | {what} | {MISSED.get(n, '')} |")
    open(path, "w").write("\n".join(out) + "\n" + TAIL)


TAIL = """
## 6. Campaigns

* **Mutation sweep**: about 2500 mechanical mutants of `/repo/src/protosym` (operators, constants,
  conditions, arguments, deleted statements) that pass the tests were run against the quick checks.  The ones
  not detected were read one by one; they are equivalent, or change something no property states
  (messages, `repr` of internals, `to_sympy` of bare function atoms).  Gaps found this way led to C26, the sub-check
  C21/conversions, bare function atoms in C14/C15 and several generators.
* **Refactorings**: several dozen behaviour-preserving rewrites of each module (helpers extracted, loops
  rewritten, recursion replaced by stacks, other data structures, memoisation by weak keys) were run against all
  checks; all quiet after the corrections named in section 4.
* **Seeds**: the quick tiers were run with further seeds, and the thorough tiers, on the unchanged tree; all
  quiet.
"""

if __name__ == "__main__":
    main()

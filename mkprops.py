"""One-off generator of properties.jsonl (kept so that the list is editable)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


ATOM = "src/protosym/core/atom.py"
TREE = "src/protosym/core/tree.py"
SYM = "src/protosym/core/sym.py"
EVAL = "src/protosym/core/evaluate.py"
DIFF = "src/protosym/core/differentiate.py"
EXPR = "src/protosym/simplecas/expr.py"
FUNC = "src/protosym/simplecas/functions.py"
LAMB = "src/protosym/simplecas/lambdification.py"
MAT = "src/protosym/simplecas/matrix.py"
SPY = "src/protosym/simplecas/sympy_conversions.py"
WEAK = "src/protosym/core/weakdict.py"

prop(
    "C01",
    "Equal expressions are one object throughout any history",
    "At any point of any history of creating, combining, dropping and garbage-collecting atoms, trees and user-level expressions, by whatever construction route, two live objects of the same class are the same object (and compare and hash equal) exactly when they have the same structure: the same atom kind object and an equal value for atoms, the same sequence of children (head included) for compound expressions. Objects with different structure, of different atom kinds (even kinds sharing a name and value type) or wrapped in different user-level classes are never equal. Every object keeps exposing the kind, value, head and children it was built from.",
    ["histories", "inputs"],
    "all finite sequences of create/combine/wrap/drop/collect operations over arbitrary hashable atom values (int, str, bytes, tuples, frozensets) and arbitrary trees",
    "Tests check identity for three pairs of expressions that stay alive; the guarantee quantifies over every construction order and over drop/collect histories of the weak stores, and over values whose hashes collide.",
    [ATOM, TREE, SYM, WEAK],
    [("Atom.__new__", ATOM), ("Tree.__new__/Tree.atom", TREE), ("Sym.__new__", SYM)],
    ["identity, == and hash of live objects", "Atom.atom_type/value, Tree.children/value, Sym.head/args"],
    [("weak stores", "map structure to the unique live object", f"{ATOM}, {TREE}, {SYM}")],
)
prop(
    "C02",
    "Expressions nobody refers to are released",
    "After any sequence of public operations (building, printing, evaluating, differentiating, substituting, expanding, counting, converting to SymPy or LLVM, compiling, matrix operations), once the program drops its references and garbage is collected, every expression, tree and atom created along the way that is not part of something still referenced has been released. Whatever is still referenced stays intact and re-creating it gives back the very same object.",
    ["histories"],
    "all sequences of public operations, and all subsets of their results that the program keeps",
    "No test drops an expression; a cache or strong table that keeps everything alive passes the whole suite.",
    [ATOM, TREE, SYM, EVAL, EXPR, MAT],
    [("weak-valued global stores", f"{ATOM}, {TREE}, {SYM}")],
    ["weak references to the created objects after gc.collect()"],
    [("weak stores", "must not keep expressions alive", f"{ATOM}, {TREE}, {SYM}")],
)
prop(
    "C03",
    "Concurrent construction and use behave as if sequential",
    "When several threads concurrently create, substitute, differentiate, evaluate and print expressions, including equal ones and including through shared evaluators, differentiators and compiled substitutions, every thread gets the result it would get alone, under every interleaving. In particular structurally equal expressions obtained by different threads are the same object.",
    ["schedules"],
    "all interleavings of a few threads running short programs over overlapping expressions",
    "No test starts a thread; the lookup-then-store window of the global stores is only hit under particular interleavings.",
    [ATOM, TREE, SYM, WEAK, EVAL, DIFF],
    [("setdefault into the global stores after a missed lookup", f"{ATOM}, {TREE}, {SYM}"), ("atomic setdefault", WEAK)],
    ["identity and structure of the objects returned to each thread"],
    [("global stores", "shared by all threads", f"{ATOM}, {TREE}, {SYM}")],
)
prop(
    "C04",
    "Building expressions is inert and exact",
    "Every arithmetic operator (binary, reflected, in place or unary), function call and atom constructor of the user-level expression class yields exactly the documented tree over its operands, in the order written: nothing is simplified, reordered, merged or evaluated, -x is (-1)*x, x-y is x+(-1)*y, x/y is x*y**(-1), and Python ints on either side become integer atoms of the same value. Head and args of the result give back what it was built from. An operand that is neither an expression nor an int makes the operation raise TypeError.",
    ["inputs", "programs"],
    "all operator/call programs over all expressions, ints of any size and non-convertible operands",
    "Tests apply each operator to one or two symbol/int pairs; inertness must hold for every operand (0, 1, negatives, nested sums, repeated operands).",
    [EXPR, SYM, TREE],
    [("operator methods and expressify", EXPR), ("Sym.head/args", SYM)],
    ["head/args structure of results"],
)
prop(
    "C05",
    "Traversals list every subexpression once, children first",
    "For every tree, the topological sort lists each distinct subexpression (with or without function heads, and not looking inside excluded subexpressions) exactly once and after all its children, ending with the expression itself (nothing at all if it is excluded itself); the split partitions it into atoms, heads and compound nodes; and replaying the forward graph rebuilds the expression, every distinct subexpression being produced exactly once from strictly earlier entries. The inputs, including the excluded set, are not modified.",
    ["inputs"],
    "all finite trees (compound heads, repeated children, nullary calls, shared DAGs), all exclude sets, both head modes",
    "Tests check five hand-made expressions with atomic heads.",
    [TREE],
    [("topological_sort", TREE), ("topological_split", TREE), ("forward_graph", TREE)],
    ["returned lists, sets and indices"],
)
prop(
    "C06",
    "Substitution is simultaneous, exact and reusable",
    "Substituting for any set of distinct subexpressions (atoms, compounds, function heads, nested or overlapping ones, absent ones, or the whole expression) replaces exactly the outermost occurrences of each by its own replacement, all at once, without re-substituting into replacements and leaving everything else the identical object. A prepared substitution may be called any number of times with any replacements and each call gives the same result as a fresh substitution; a wrong number of replacements raises TypeError. All three interfaces (prepared tree substitution, as_function, xreplace) agree.",
    ["inputs", "histories"],
    "all expressions, all lists of distinct targets in every order, all replacements, all sequences of calls",
    "Tests substitute one or two symbols into four expressions; order of targets, overlaps, targets equal to the whole expression and reuse are not explored (xreplace({x: 1, y: 2}) on x returned 2).",
    [TREE, EXPR],
    [("SubsFunc", TREE), ("ExprFunction, as_function, xreplace", EXPR)],
    ["structure of the returned expression"],
    [("prepared substitution", "operations and atoms precomputed at creation", TREE)],
)
prop(
    "C07",
    "Evaluation equals the recursive meaning of the rules",
    "For every expression, set of rules (per atom kind, per head, generic fallbacks) and supplied values, evaluation returns what the rules define recursively: a supplied value for an atom (falsy ones and None included) takes precedence over rules, specific rules over generic ones, each operation gets its argument values in order. The rule of each distinct compound subexpression is applied exactly once, however often it is repeated; a needed rule that is missing raises the no-evaluation-rule error, an exception raised by a rule propagates unchanged, and neither the supplied values nor later evaluations are affected. Forward and recursive strategies agree.",
    ["inputs", "programs"],
    "all expressions, rule tables over any value type and value assignments to atoms",
    "Tests evaluate three expressions over floats with one set of rules.",
    [EVAL, TREE],
    [("Evaluator.eval_forward/eval_recursive/eval_atom/eval_operation", EVAL), ("forward_graph", TREE)],
    ["returned values, calls received by the rule functions"],
)
prop(
    "C08",
    "Rule tables accept only well-formed rules; the latest wins",
    "Over any sequence of rule registrations and evaluations on several evaluators, an evaluator behaves according to the last well-formed rule registered for each atom kind, head or fallback, and only its own. A registration whose right side is not a symbolic call, whose argument names or order differ from the pattern, or whose function kind does not suit the pattern kind raises the bad-rule error and changes nothing.",
    ["histories"],
    "all sequences of valid and invalid registrations interleaved with evaluations, on several evaluators",
    "Tests register each rule once and try ten bad rules on an otherwise unused evaluator.",
    [SYM, EVAL],
    [("SymEvaluator.__setitem__/add_op", SYM)],
    ["BadRuleError, results of evaluation"],
    [("rule tables", "atoms, operations, generic rules", EVAL)],
)
prop(
    "C09",
    "Floating-point evaluation is accurate",
    "For every expression over integers, symbols, n-ary sums and products, powers, sine and cosine and every assignment of floats to its symbols, 64-bit evaluation returns the mathematically exact value up to the rounding errors that a correctly ordered floating-point evaluation of that tree can incur, whenever that exact value is real and no intermediate is near a singularity or overflow. Sums are correctly rounded sums of their evaluated terms. Everywhere else the evaluation gives some float or raises an error, and a power that has no finite real value (a negative base with a fractional exponent, zero with a negative one) never gives a finite number.",
    ["inputs"],
    "all expressions of the language and all finite float assignments for which the value is well conditioned",
    "Tests evaluate eight expressions at one point each.",
    [FUNC, EXPR, EVAL],
    [("eval_f64 rules", FUNC)],
    ["float returned by eval_f64"],
)
prop(
    "C10",
    "Derivatives equal the true derivative, to any order",
    "For every expression over integers, symbols, n-ary sums and products, sine, cosine and powers whose exponent does not involve the variable, and every order n >= 0, the symbolic n-th derivative with respect to a symbol has at every point the value of the true n-th partial derivative; it is exactly zero if the symbol does not occur, and list-valued expressions differentiate entry by entry. A derivative that would need a rule nobody registered raises an error instead of returning a value.",
    ["inputs"],
    "all expressions of the language, variables, orders and evaluation points",
    "Tests compare ten first derivatives with expected forms; products with repeated factors, shared subexpressions, multi-argument chains and higher orders need a semantic oracle.",
    [DIFF, SYM, EXPR],
    [("diff_forward, product and chain rules", DIFF), ("builtin rules", EXPR)],
    ["value of the derivative expression against an independent Taylor arithmetic"],
)
prop(
    "C11",
    "User derivative rules obey the chain rule, per differentiator",
    "Given any correct partial-derivative rules for user functions of any arity (right sides may be a bare argument, a constant, or mention the function itself) derivatives of every expression built with them equal the true derivatives of the functions' definitions. Distributive heads differentiate argument-wise, a head registered as sum or product is treated as such, the latest rule for an argument wins at once, rules of one differentiator never affect another, and malformed registrations raise TypeError and change nothing.",
    ["inputs", "histories"],
    "all rule sets for functions of any arity, all expressions over them, all registration/differentiation interleavings",
    "Tests register three unary rules; multi-argument rules, argument order, re-registration and isolation are unexplored (a rule whose right side was a bare argument used the wrong argument).",
    [DIFF, SYM, TREE, EXPR],
    [("SymDifferentiator.__setitem__", SYM), ("DiffProperties, chain_rule_forward", DIFF), ("SubsFunc", TREE)],
    ["value of derivatives against the definitions of the functions"],
    [("rule table", "(head, argument number) to prepared substitution", DIFF)],
)
prop(
    "C12",
    "Binary expansion is exact, left-associated and idempotent",
    "Binary expansion of any expression turns each n-ary sum and product into the left-associated nest of binary ones over the expanded arguments in the same order, and leaves every other head, argument and atom as it was. Expanding again changes nothing, and an expression with only binary sums and products is returned as the identical object.",
    ["inputs"],
    "all expressions whose sums and products have at least one argument",
    "Two examples are tested.",
    [EXPR, EVAL],
    [("bin_expand transformer", EXPR)],
    ["structure of the result"],
)
prop(
    "C13",
    "Operation counts are exact in graph and tree size",
    "For every expression the graph count is the number of distinct subexpressions and the tree count the number of subexpressions with multiplicity (function heads not counted), as exact integers however large, so the graph count never exceeds the tree count.",
    ["inputs"],
    "all expressions, including heavily shared ones whose tree size is astronomically large",
    "Eight examples from one family are tested.",
    [EXPR, TREE],
    [("count_ops_graph", EXPR), ("count_ops_tree evaluator", EXPR)],
    ["returned ints"],
)
prop(
    "C14",
    "Printed forms read back as the expression printed",
    "Reading the pretty printed form of any expression over integers, identifier-named symbols and functions with ordinary Python operator precedence gives back that same expression (n-ary sums and products read as left-associated binary ones), so different such expressions never print alike. The raw representations of atoms and trees, for any printable atom values, evaluate back to the very same objects.",
    ["inputs"],
    "all expressions with distinct symbol/function names; all atoms and trees for the raw forms",
    "Tests compare a dozen strings; ambiguity only shows for particular nestings ((x**y)**2 printed as x**y**2).",
    [FUNC, TREE, ATOM, SYM],
    [("eval_repr rules", FUNC), ("Tree.__repr__/__str__", TREE), ("Atom.__repr__/__str__", ATOM)],
    ["str and repr"],
)
prop(
    "C15",
    "LaTeX forms are well formed and read back unambiguously",
    "The LaTeX form of any expression over integers, identifier-named symbols and functions has balanced groups and no double superscripts, and read with the usual conventions (superscripts bind to the immediately preceding symbol, call or bracketed group) denotes that same expression, with n-ary sums and products read as left-associated binary ones. The notebook display hook is that form between dollar signs.",
    ["inputs"],
    "all expressions over the built-in functions and user functions",
    "Ten strings are compared; nested powers produced invalid LaTeX.",
    [FUNC, EXPR],
    [("eval_latex rules", FUNC), ("_repr_latex_", EXPR)],
    ["LaTeX text"],
)
prop(
    "C16",
    "Compiled functions compute the expression",
    "For every supported expression and list of distinct argument symbols (any names, any order, unused ones included), the compiled function applied to floats returns the value of the expression with those floats for those symbols in that order, up to floating-point rounding of the same tree. The textual LLVM IR offered for it is by itself a valid module defining that function. Compiling further expressions never changes earlier compiled functions.",
    ["inputs", "histories"],
    "all supported expressions, argument lists, symbol names and float arguments; all sequences of compilations and calls",
    "One expression of one argument is compiled in the tests.",
    [LAMB, EXPR],
    [("IR generation and compilation", LAMB)],
    ["values returned by the compiled function; IR text compiled separately"],
    [("compiled engines", "kept alive for the compiled functions", LAMB)],
)
prop(
    "C17",
    "Compiled matrices compute every entry in its place",
    "For every matrix of supported expressions of any shape (zero, repeated and constant entries, wholly zero matrices included) and any argument list, the compiled function returns a fresh float array of the matrix's shape whose every entry is the value of the corresponding entry, zeros included. Arrays returned earlier and functions compiled earlier are unaffected by later calls and compilations, and the textual IR is by itself valid and equivalent.",
    ["inputs", "histories"],
    "all matrix shapes, zero patterns, entries, argument lists and call sequences",
    "Five small matrices are compiled in the tests, all square or 1 or 2 rows; index arithmetic and sparsity need all shapes and patterns.",
    [LAMB, MAT],
    [("matrix IR generation", LAMB), ("sparse entry map", MAT)],
    ["arrays returned"],
    [("entry map", "position to element index", MAT)],
)
prop(
    "C18",
    "Unsupported input is rejected, never silently mistranslated",
    "Compiling or producing IR for an expression or matrix that anywhere contains a function, or a symbol that is not an argument, with no compiled counterpart raises the LLVM-not-implemented error, and converting from SymPy anything that anywhere contains an unsupported object raises NotImplementedError, even where the offending part would not affect the value. Evaluating with a missing rule raises the no-evaluation-rule error. A rejected request leaves later requests unaffected.",
    ["inputs"],
    "all expressions and matrices with unsupported parts at any depth and multiplicity",
    "Six examples with the unsupported part at the top are tested.",
    [LAMB, SPY, EVAL],
    [("fallback branches", f"{LAMB}, {SPY}"), ("error fallback rules", EVAL)],
    ["exception classes"],
)
prop(
    "C19",
    "SymPy conversion preserves meaning and round-trips",
    "Converting an expression to SymPy gives a SymPy expression with the same mathematical value for every assignment of its symbols and functions; converting a SymPy expression over plain symbols, integers, sums, products, powers, sine, cosine, tuples and applied undefined functions gives the expression with exactly the same structure and argument order, and converting back reproduces every SymPy expression that SymPy's own evaluation leaves unchanged. Distinct SymPy symbols are never merged into one. Matrices convert entry by entry in both directions, whatever their shape and zero pattern.",
    ["inputs"],
    "all expressions and matrices of the common fragment in both directions",
    "Five expressions and one 2x2 matrix are round-tripped.",
    [SPY, EXPR, MAT],
    [("to_sympy rules", SPY), ("from_sympy", SPY)],
    ["value and structure on both sides"],
)
prop(
    "C20",
    "Matrices behave as the table of entries they were given",
    "Under any sequence of construction, addition, differentiation, indexing, listing, printing and SymPy round-trips, a matrix behaves as the immutable table of its entries: indexing and listing give each entry (zeros included), addition and differentiation act entry by entry, shape is kept, printing shows the rows. No operation changes its operands or the lists passed in or returned. Mismatched shapes, ragged input and bad indices are rejected with TypeError or IndexError.",
    ["histories", "inputs"],
    "all operation sequences over matrices of all shapes and zero patterns",
    "Tests use a few 2x2 and 2x3 matrices and single operations.",
    [MAT, EXPR],
    [("sparse representation and binop", MAT)],
    ["tolist, indexing, shape, repr"],
    [("entry map and element list", "sparse storage possibly shared between matrices", MAT)],
)
prop(
    "C21",
    "Work scales with graph size, not depth or tree size",
    "Every construction, comparison, traversal, substitution, evaluation, counting, expansion, differentiation, matrix and IR operation works on expressions nested far deeper than the interpreter's recursion limit and on heavily shared expressions whose tree size is astronomically large, giving the correct result with an amount of work proportional to the number of distinct subexpressions involved.",
    ["inputs"],
    "all shapes of deep, wide and shared expressions",
    "Tests have one shared family at one size for three operations and nothing deep.",
    [TREE, EVAL, DIFF, EXPR, LAMB, MAT],
    [("explicit stack in topological_sort", TREE), ("forward evaluation", EVAL), ("forward accumulation", DIFF)],
    ["results, and executed steps counted by interpreter monitoring"],
)
prop(
    "C22",
    "Results do not depend on hash seed, memory layout or process",
    "Printed forms, LaTeX, IR text, traversal orders, forward graphs, derivatives, substitutions, expansions, counts, matrices and float values produced from the same program are identical in every process, whatever the hash seed, the memory layout and whatever unrelated expressions were created, kept or dropped before.",
    ["configurations", "histories"],
    "all programs, hash seeds and unrelated prior activity",
    "Tests run in one process with one hash seed and compare short results only.",
    [TREE, EVAL, DIFF, LAMB, MAT, EXPR],
    [("insertion-ordered lists and dicts rather than sets for ordering", f"{TREE}, {LAMB}, {MAT}")],
    ["all textual and numeric outputs"],
)
prop(
    "C23",
    "Transformers rewrite exactly what their rules say",
    "Applying a transformer to any tree gives the tree obtained by rewriting bottom-up with its rules: each atom kind or head with a rule is replaced by the rule's result on the already transformed arguments, and everything without a rule is rebuilt unchanged, so a transformer with no applicable rule returns the identical object. Supplied values replace atoms first.",
    ["inputs", "programs"],
    "all trees, all rule tables from heads and atom kinds to tree templates",
    "One rule is applied to one expression in the tests.",
    [EVAL, TREE],
    [("Transformer defaults", EVAL)],
    ["structure of the result"],
)
prop(
    "C24",
    "Operations are pure over any history of use",
    "Over any history mixing all public operations on a shared pool of expressions, each operation gives the result determined by its inputs alone: repeating any earlier operation later, in any order, gives the same result (the identical object when the result is an expression), no expression, dictionary, list or set handed in is ever modified, and nothing handed out changes afterwards. Defining rules for other functions, or failing operations in between, makes no difference.",
    ["histories"],
    "all histories of mixed public operations, with garbage collection and unrelated rule definitions in between",
    "Each test calls an operation once on fresh inputs; stale caches and shared mutable state need histories.",
    [TREE, EVAL, DIFF, EXPR, MAT, SYM],
    [("immutable interned nodes; per-call stacks", f"{TREE}, {EVAL}, {DIFF}")],
    ["results compared with an independent model and with each other"],
)

prop(
    "C25",
    "Names carry no meaning; languages made on the core act like simplecas",
    "A consistent renaming of symbols and user functions (any injective choice of names, including names of built-in heads, constants, Python keywords, wildcards or other symbols) commutes with every operation: differentiation, user rules, substitution, expansion, operation counts, numeric evaluation, graphs, matrices, printing and LLVM IR of the renamed expression are exactly the renamed results (and the name of an atom kind matters nowhere either), and an operation fails on one iff it fails on the other. Likewise a user's own language built on protosym.core (own expression class, own atom kinds even under the same names, own differentiator, evaluators, transformers) with the same rules gives the same results as simplecas for every expression, and its expressions are never identified with those of another language.",
    ["inputs", "programs"],
    "all expressions, all injective renamings, all languages with up to two further expression classes and any atom-kind names",
    "The tests use x, y, f and one language; a result that depends on a name, on name order or on which language came first needs generated names and several languages at once.",
    [TREE, EVAL, DIFF, SYM, EXPR, FUNC, LAMB],
    [("atoms compared by identity of kind and value, never by printed name", f"{TREE}, {SYM}")],
    ["structure of results", "texts up to the renaming", "numeric results bit for bit"],
)

prop(
    "C26",
    "Objects from outside the language are refused or handed back to Python",
    "Wherever an object that is neither an expression nor an int is used as an operand, argument, matrix entry, substitution key or value, function parameter, differentiation variable or count, evaluation key, compiled argument or index (floats, texts, other number types, containers, trees, atoms, kinds, classes, expressions of other languages, objects convertible to or equal to numbers), the operation raises (TypeError from the operators, ExpressifyError where conversion is asked for) instead of absorbing it under some translation; an operand with reflected operators is handed the expression exactly once; equality with any such object is False unless that object says otherwise. After the refusal everything is as before and the same operation on valid operands gives its usual result.",
    ["inputs", "faults"],
    "all foreign objects of 40 kinds at all places that take expressions, after any number of refusals",
    "The tests try a handful of operands; a lenient conversion (integral floats, numeric strings, __index__, duck typing) is visible only for the objects it accepts.",
    [EXPR, SYM, TREE, MAT, FUNC, LAMB, SPY],
    [("expressify and expressify_other", EXPR), ("argument checks of Sym and Tree", f"{SYM}, {TREE}")],
    ["the exception raised", "identity of results after the refusal"],
)

prop(
    "C27",
    "An operation cut short or suspended by another leaves no trace",
    "If an operation is cut short at any moment by an exception that is not its own (a keyboard interrupt, an exhausted stack, an exception from the user's rule function or from the hash, equality or display of an atom's value), that exception comes out and nothing else has happened: no table holds a half-made object, no prepared substitution, evaluator, differentiator, matrix or compiled function is spoilt, no container handed in has changed, no lock is held, nothing stays alive, and every operation, the interrupted one included, gives afterwards what it gives in a fresh process. A definition of a rule that is cut short took effect as a whole or not at all. If other operations run in the middle of one (from a signal handler, a finalizer, a rule function), even the same one on the same objects, all of them give their usual results.",
    ["faults", "schedules", "histories"],
    "all operations, all moments at which the interpreter delivers signals or runs the collector, all nestings",
    "Tests never interrupt anything; state that is prepared in steps, kept between calls or restored at the end is wrong only after an exception at one particular moment.",
    [TREE, EVAL, DIFF, SYM, EXPR, MAT, LAMB],
    [("objects are completed before they enter a table; per-call stacks; single assignments in registrations", f"{TREE}, {SYM}, {EVAL}, {DIFF}")],
    ["results after the interruption compared with a fresh process", "identity", "living objects", "another thread's progress"],
)

prop(
    "C28",
    "Operations neither depend on nor touch what is around them",
    "Every operation gives the same result whatever the surroundings: interpreter options (-O, -OO, -X dev, warnings as errors, no site), which of the optional packages sympy, numpy and llvmlite are installed, collector settings, decimal precision, main or other thread. Only the conversions that are for an optional package need it (to and from SymPy; compiled functions need llvmlite, compiled matrices also numpy); without it they raise ImportError, everything else works as usual, and they work once it is there; SymPy is not loaded by anything else. No other operation, nor importing protosym, changes anything around it: interpreter limits and hooks, collector, warnings filters, signal handlers, random state, decimal context, environment, directory, files, threads, child processes, and nothing is printed.",
    ["configurations", "inputs"],
    "all operations under all combinations of interpreter options, absent packages and global settings",
    "The tests run with every optional package installed, no interpreter options, in the main thread with default settings.",
    [TREE, EVAL, SYM, EXPR, MAT, LAMB, SPY],
    [("optional packages imported inside the functions that use them", f"{EXPR}, {MAT}, {LAMB}, {SPY}")],
    ["results compared across configurations", "ImportError for absent packages", "observations of the process before and after each operation"],
)

prop(
    "C29",
    "Operations compose: any pipeline keeps the meaning",
    "The result of any operation is as good an input for any other as an expression written by hand. Take any pipeline that builds expressions, differentiates them (any symbols and orders, simplecas's differentiator or an equal one of the user's), expands, substitutes, applies prepared functions also to their own results, transforms, converts to SymPy and back (also after SymPy expanded, differentiated or substituted), prints and reads, takes or replaces parts, puts expressions into matrices, adds, differentiates, transposes and takes entries out again, in any order and with anything no longer needed released: every result has the value that textbook rules give for the whole pipeline, exactly specified operations (building, expansion, substitution, parts, entries) have exactly the specified structure on such inputs too, and eval_f64, evaluators of the user, compiled functions and matrices and the operation counts at its end agree with that result.",
    ["inputs", "histories"],
    "all sequences of operations of all parts, all expressions, all assignments",
    "Tests apply one operation to hand-written inputs; marks, caches and assumptions that one operation leaves for another (elements stored row by row, already expanded, already compiled) show only in particular sequences.",
    [TREE, EVAL, DIFF, SYM, EXPR, FUNC, MAT, LAMB, SPY],
    [("expressions carry nothing but their structure; matrices nothing but entries and their places", f"{SYM}, {MAT}")],
    ["value of every intermediate result", "structure", "evaluated and compiled results"],
)

import pathlib

pathlib.Path(__file__).with_name("properties.jsonl").write_text(
    "".join(json.dumps(p) + "\n" for p in P)
)
